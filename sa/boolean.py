"""Boolean operation tables (C14)."""
import absint as A
import cut
import sym
import lists
import mir
from absint import Out, State, c, agg, some, NONE
from lists import LSym, lst, one, many, EMPTY, each
from tables import fenv, call, conj, VIEWMODELS

MOD = "cavalier_contours::polyline::internal::pline_boolean::"
PT = ("sym", "pt")


def getfn(prog, n):
    f = prog.fns.get(n if "::" in n else MOD + n)
    if f is None:
        fs = [g for d, g in prog.fns.items() if d.endswith("::" + n)]
        if len(fs) != 1:
            raise mir.MissingAnchor(n)
        return fs[0]
    return f


def predicate(I, fn, fr, b, t, st, v, stack):
    """the meaning of a closure Fn(point) -> bool as a boolean term over the symbol pt"""
    outs = list(I.apply(fn, fr, b, t, st.copy(), v, [PT], stack))
    if len(outs) == 1 and outs[0].kind == "ret":
        return I.term(outs[0].val, outs[0].st)
    # one question with the two answers
    if len(outs) == 2 and all(o.kind == "ret" and o.val[0] == "c" for o in outs) and bool(outs[0].val[1]) != bool(outs[1].val[1]):
        new = [{k: x for k, x in o.st.facts.items() if k not in st.facts} for o in outs]
        if all(len(n) == 1 for n in new) and list(new[0]) == list(new[1]):
            k = list(new[0])[0]
            yes, no = (new[0][k], new[1][k]) if outs[0].val[1] else (new[1][k], new[0][k])
            if k[0] == "int":
                for x, y, neg in ((yes, no, False), (no, yes, True)):
                    if x[0] == "eq" and y == ("ne", frozenset({x[1]})):
                        q = ("eq", k[1], c(x[1]))
                        return ("not", q) if neg else q
            elif yes is True and no is False:
                return k
            elif yes is False and no is True:
                return ("not", k)
    return ("call", "predicate?", ())


def m_prune(I, fn, fr, b, t, st, args, stack):
    ts = [I.term(a, st) for a in args]
    ts[3] = predicate(I, fn, fr, b, t, st, args[3], stack)
    ts[4] = predicate(I, fn, fr, b, t, st, args[4], stack)
    return iter([Out("ret", ("call", "prune", tuple(ts)), st)])


def m_stitch(I, fn, fr, b, t, st, args, stack):
    ts = [I.term(a, st) for a in args]
    s = ts[3]
    if s[0] == "agg":
        ts[3] = ("call", "selector", (("const", s[4] or s[2]),) + tuple(x for _, x in s[5]))
    return iter([Out("ret", ("call", "stitch", tuple(ts)), st)])


INFOS = ("InvalidInput", "Pline1InsidePline2", "Pline2InsidePline1", "Disjoint", "Overlapping", "Intersected")


def check_boolean(rep, prog, serde, tier):
    p1, p2 = ("sym", "pline1"), ("sym", "pline2")
    f = getfn(prog, "polyline_boolean")
    OPQ = ("winding_number", "create_from", "orientation", "create_approx_aabb_index", "process_for_boolean", "segment_count")
    I = LSym(prog, OPQ, {"pline_boolean::prune_slices": m_prune, "pline_boolean::stitch_slices_into_closed_polylines": m_stitch})
    n = lambda p: call("vertex_count", p)
    opts = ("sym", "options")
    eps = ("fld", opts, "pos_equal_eps")
    at0 = lambda p: tuple_pos(call("at", p, c(0)))

    def tuple_pos(v):
        return A.agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))
    whole = lambda *ps: lst(*[one(A.agg("adt", "BooleanResultPline", 0, "BooleanResultPline", (("pline", call("create_from", p)), ("subslices", EMPTY)))) for p in ps])
    optix = ("fld", opts, "pline1_aabb_index")

    def info(ix):
        return call("process_for_boolean", p1, p2, ix, eps)
    cases = []
    wn = lambda p, x: call("winding_number", p, x)
    e = {"n1": n(p1), "n2": n(p2), "closed1": call("is_closed", p1), "closed2": call("is_closed", p2), "optix": optix, "p1": p1, "p2": p2,
         "op": lambda i: ("eq", ("discr", ("sym", "operation")), i),
         "Res": lambda a, b, i: A.agg("adt", "BooleanResult", 0, "BooleanResult", (("pos_plines", a), ("neg_plines", b), ("result_info", A.agg("adt", "BooleanResultInfo", 0, i[1], ())))),
         "W": lambda *ps: whole(*ps), "E": EMPTY, "wn": wn, "at0": at0}
    for nm in INFOS:
        e[nm] = ("const", nm)
    env = fenv(f, e)
    ok_ = "n1 >= 2 and closed1 and n2 >= 2 and closed2"
    for bad in ("n1 < 2", "n1 >= 2 and not closed1", "n1 >= 2 and closed1 and n2 < 2", "n1 >= 2 and closed1 and n2 >= 2 and not closed2"):
        cases.append((bad, "Res(E, E, InvalidInput)"))
    # operation -> relation -> (positive, negative)
    variants = prog_variants(prog, "BooleanOp")
    D = {"Or": {"over": ("W(p2)", "E"), "1in2": ("W(p2)", "E"), "2in1": ("W(p1)", "E"), "disj": ("W(p1, p2)", "E")},
         "And": {"over": ("W(p2)", "E"), "1in2": ("W(p1)", "E"), "2in1": ("W(p2)", "E"), "disj": ("E", "E")},
         "Not": {"over": ("E", "E"), "1in2": ("E", "E"), "2in1": ("W(p1)", "W(p2)"), "disj": ("W(p1)", "E")},
         "Xor": {"over": ("E", "E"), "1in2": ("W(p2)", "W(p1)"), "2in1": ("W(p1)", "W(p2)"), "disj": ("W(p1, p2)", "E")}}
    RI = {"over": "Overlapping", "1in2": "Pline1InsidePline2", "2in1": "Pline2InsidePline1", "disj": "Disjoint"}
    in2, in1 = wn(p2, PT), wn(p1, PT)
    inside = lambda w: ("not", ("eq", w, c(0)))
    outside = lambda w: ("eq", w, c(0))
    for given in (True, False):
        ix = ("fld", ("as", optix, "Some"), "0") if given else call("create_approx_aabb_index", p1)
        inf = info(ix)
        g = "g" if given else "k"
        ol, intr = ("fld", inf, "overlapping_slices"), ("fld", inf, "intersects")
        env.names.update({g + "nol": call("len", ol), g + "nin": call("len", intr), g + "loop": ("fld", ("index", ol, c(0)), "is_loop"), g + "or2": ("fld", inf, "pline2_orientation")})
        have = conj(ok_, "%s(optix)" % ("some" if given else "none"))
        over = "{0}nol == 1 and {0}loop".format(g)
        none = "{0}nol == 0 and {0}nin == 0".format(g)
        cross = "({0}nol == 1 and not {0}loop or {0}nol > 1 or {0}nol == 0 and {0}nin > 0)".format(g)

        def stitched(name, pr1, pr2, flag, sel):
            pr = call("prune", p1, p2, inf, pr1, pr2, c(flag), eps)
            v = call("stitch", ("fld", pr, "slices_remaining"), p1, p2, call("selector", ("const", sel), ("fld", pr, "start_of_pline2_slices"), ("fld", pr, "start_of_pline1_overlapping_slices"), ("fld", pr, "start_of_pline2_overlapping_slices")), eps)
            env.names[g + name] = v
            return v
        stitched("or_", outside(in2), outside(in1), False, "OrAndStitchSelector")
        stitched("and_", inside(in2), inside(in1), False, "OrAndStitchSelector")
        n12 = stitched("not_", outside(in2), inside(in1), True, "NotXorStitchSelector")
        n21 = stitched("not21", inside(in2), outside(in1), True, "NotXorStitchSelector")
        env.names[g + "xor_"] = lst(many(n12), many(n21))
        for i, opn in enumerate(variants):
            sel = conj(have, "op(%d)" % i)
            for rel, cond in (("over", over), ("1in2", conj(none, "wn(p2, at0(p1)) != 0")), ("2in1", conj(none, "wn(p2, at0(p1)) == 0", "wn(p1, at0(p2)) != 0")),
                              ("disj", conj(none, "wn(p2, at0(p1)) == 0", "wn(p1, at0(p2)) == 0"))):
                cases.append((conj(sel, cond), "Res(%s, %s, %s)" % (D[opn][rel] + (RI[rel],))))
            if opn != "Or":
                cases.append((conj(sel, cross), "Res(%s%s_, E, Intersected)" % (g, opn.lower())))
            else:
                cases.append((conj(sel, cross), "any"))
    sym.check_table(rep, prog, f, cases, env, "n1 >= 0 and n2 >= 0", I=I, key="boolean")
    # or of crossing polylines: the loop that separates positive from negative results
    oi = variants.index("Or")
    for given in (True, False):
        g = "g" if given else "k"
        pre = conj(ok_, "%s(optix)" % ("some" if given else "none"), "op(%d)" % oi, "{0}nol > 1".format(g))
        el = ("elem", env.names[g + "or_"])
        e2 = fenv(f, {**env.names, "ori": call("orientation", ("fld", el, "pline")), "r": el, "push": push})
        I2 = LSym(prog, OPQ, {"pline_boolean::prune_slices": m_prune, "pline_boolean::stitch_slices_into_closed_polylines": m_stitch})
        same = "ori == %sor2" % g
        sym.check_fold(rep, prog, f, e2, [("pos", "E", [(same, "push(pos, r)"), ("not (%s)" % same, "pos")]), ("neg", "E", [(same, "neg"), ("not (%s)" % same, "push(neg, r)")])],
                       [("", "Res(pos, neg, Intersected)")], pre=pre, key="boolean:or" + g, I=I2, srcs={sym.Canon()(env.names[g + "or_"])})


    check_pruning(rep, prog)
    check_selectors(rep, prog)
    check_slicing(rep, prog)
    check_stitching(rep, prog)
    check_process(rep, prog)


def push(v, x):
    return lst(*(lists.items_of(v) + (one(x),)))


def prog_variants(prog, short):
    ads = [a for d, a in prog.adts.items() if d.endswith("::" + short)]
    return [v[0] for v in ads[0]["vars"]]


def m_slice(I, fn, fr, b, t, st, args, stack):
    ts = [I.term(a, st) for a in args]
    ts[3] = predicate(I, fn, fr, b, t, st, args[3], stack)
    root, proj = I.deref(st, args[4])
    v = I.term(I.read(st, root, proj), st)
    I.write(st, root, proj, lst(*(lists.items_of(v) + (many(call("sliced", ts[0], ts[1], ts[2], ts[3], ts[5])),))))
    return iter([Out("ret", A.UNIT, st)])


PRUNEM = {"pline_boolean::slice_at_intersects": m_slice, **VIEWMODELS}


def check_pruning(rep, prog):
    f = getfn(prog, "prune_slices")
    p1, p2, bi = ("sym", "pline1"), ("sym", "pline2"), ("sym", "boolean_info")
    ol = ("fld", bi, "overlapping_slices")
    el = ("elem", ol)
    VD = ("start_index", "end_index_offset", "updated_start", "updated_end_bulge", "end_point")

    def slice_(inverted):
        vd = [(k, ("fld", ("fld", el, "view_data"), k)) for k in VD]
        vd[0] = ("start_index", ("fld", ("fld", el, "start_indexes"), "1"))
        return agg("adt", "BooleanPlineSlice", 0, "BooleanPlineSlice", (("view_data", agg("adt", "PlineViewData", 0, "PlineViewData", tuple(vd) + (("inverted_direction", inverted),))), ("source_is_pline1", c(False)), ("overlapping", c(True))))
    s1 = call("sliced", p1, bi, c(False), call("apply", ("sym", "pline1_point_on_slice_pred"), PT), ("sym", "pos_equal_eps"))
    s2 = call("sliced", p2, bi, c(True), call("apply", ("sym", "pline2_point_on_slice_pred"), PT), ("sym", "pos_equal_eps"))
    o1, o2 = each(ol, slice_(("fld", el, "opposing_directions"))), each(ol, slice_(c(False)))
    inv = each(s1, ("upd", ("elem", s1), (("f", "view_data"), ("f", "inverted_direction")), c(True)))
    ln = lambda x: call("len", x)

    def result(first):
        n1 = ln(s1)
        n2 = ("bin", "Add", n1, ln(s2))
        return agg("adt", "PrunedSlices", 0, "PrunedSlices", (("slices_remaining", lst(many(first), many(s2), many(o1), many(o2))), ("start_of_pline2_slices", n1), ("start_of_pline1_overlapping_slices", n2), ("start_of_pline2_overlapping_slices", ("bin", "Add", n2, ln(ol)))))
    env = fenv(f, {"opp": ("not", ("eq", ("fld", bi, "pline1_orientation"), ("fld", bi, "pline2_orientation"))), "Same": result(s1), "Inverted": result(inv)})
    flag = "set_opposing_direction"
    I = LSym(prog, (), PRUNEM, pushes=True)
    sym.check_table(rep, prog, f, [("opp and " + flag, "Same"), ("not opp and not " + flag, "Same"), ("opp and not " + flag, "Inverted"), ("not opp and " + flag, "Inverted")], env, I=I, key="prune")
    # ---- constructors of slices
    f = getfn(prog, "BooleanPlineSlice::<T>::from_open_pline_slice") if False else [g for g in prog.by_name("from_open_pline_slice", impl_adt="BooleanPlineSlice")][0]
    vd = tuple((k, ("fld", ("sym", "data"), k)) for k in VD) + (("inverted_direction", ("sym", "inverted")),)
    want = agg("adt", "BooleanPlineSlice", 0, "BooleanPlineSlice", (("view_data", agg("adt", "PlineViewData", 0, "PlineViewData", vd)), ("source_is_pline1", ("sym", "source_is_pline1")), ("overlapping", c(False))))
    sym.check_table(rep, prog, f, [("", "want")], fenv(f, {"want": want}), key="from_open_pline_slice")


def check_selectors(rep, prog):
    """priority of the slices available for stitching: every list of up to three candidates"""
    b = {k: ("fld", ("sym", "self"), k) for k in ("start_of_pline2_slices", "start_of_pline1_overlapping_slices", "start_of_pline2_overlapping_slices")}
    s2, o1, o2 = b.values()
    for adt in ("OrAndStitchSelector", "NotXorStitchSelector"):
        f = prog.one("select", impl_adt=adt)
        for k in (1, 2, 3):
            xs = [("sym", "a%d" % i) for i in range(k)]
            I = LSym(prog)
            e = {"cur": ("sym", "current_slice_idx"), "s2": s2, "o1": o1, "o2": o2}
            e.update({"a%d" % i: x for i, x in enumerate(xs)})
            env = fenv(f, e)
            cls = {"1": lambda a: a + " < s2", "2": lambda a: "%s >= s2 and %s < o1" % (a, a), "o": lambda a: a + " >= o1"}

            def firstof(order, cond, default):
                """cases: the first candidate of the first class of `order` that has one"""
                out = []
                from itertools import product
                for combo in product("12o", repeat=k):
                    pick = None
                    for cl in order:
                        hit = [i for i in range(k) if combo[i] == cl]
                        if hit:
                            pick = "Some(a%d)" % hit[0]
                            break
                    out.append((conj(cond, *[cls[cl]("a%d" % i) for i, cl in enumerate(combo)]), pick or default))
                return out
            cases = []
            if adt.startswith("OrAnd"):
                for cond in ("cur < s2", "cur >= o1 and cur < o2"):
                    cases += firstof("21", cond, "Some(a0)")
                for cond in ("cur >= s2 and cur < o1", "cur >= o2"):
                    cases += firstof("12", cond, "Some(a0)")
            else:
                # a slice that does not overlap: the other polyline first, else whatever comes first
                cases += firstof("2", "cur < s2", "Some(a0)")
                cases += firstof("1", "cur >= s2 and cur < o1", "Some(a0)")
                cases += firstof("21", "cur >= o1 and cur < o2", "None")
                cases += firstof("12", "cur >= o2", "None")
            arr = agg("array", None, 0, None, tuple((str(i), x) for i, x in enumerate(xs)))
            st = State()
            root = ("H", ("arr",))
            st.mem[(root, ())] = arr
            sym.check_table(rep, prog, f, cases, env, "s2 >= 0 and s2 <= o1 and o1 <= o2 and cur >= 0" + "".join(" and a%d >= 0" % i for i in range(k)), I=I, key="%s:%d" % (adt, k), args=[("sym", "self"), ("sym", "current_slice_idx"), ("ref", root, ())], st=st)
        g = [x for x in prog.by_name("from_pruned_slices", impl_adt=adt)][0]
        ps = ("sym", "pruned_slices")
        want = agg("adt", adt, 0, adt, tuple((k, ("fld", ps, k)) for k in b))
        sym.check_table(rep, prog, g, [("", "want")], fenv(g, {"want": want}), key=adt + ":from")


# ------------------------------------------------------------------------------------- slicing
def m_map_entry(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    return iter([Out("ret", ("mapentry", root, proj, I.term(args[1], st)), st)])


def m_map_slot(I, fn, fr, b, t, st, args, stack):
    if args[0][0] == "mapentry":
        return iter([Out("ret", ("mapslot",) + args[0][1:], st)])
    return NotImplemented


def m_map_push(I, fn, fr, b, t, st, args, stack):
    a = args[0]
    if a[0] == "ref" and a[1][0] == "O" and a[2] == ():
        a = a[1][1]
    if a[0] == "mapslot":
        v = I.term(I.read(st, a[1], a[2]), st)
        x = call("at", a[3], I.term(args[1], st))
        I.write(st, a[1], a[2], lst(*(lists.items_of(v) + (one(x),))))
        if isinstance(I, cut.Cut):
            I.event(st, "push", ("local",) + tuple(A.locname((a[1], a[2]))), x)
        return iter([Out("ret", A.UNIT, st)])
    return NotImplemented


def m_push_any(I, fn, fr, b, t, st, args, stack):
    r = m_map_push(I, fn, fr, b, t, st, args, stack)
    return r if r is not NotImplemented else cut.e_push(lists.m_push)(I, fn, fr, b, t, st, args, stack)


def m_map_iter(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    return iter([Out("ret", ("iter", v), st)])


def m_map_next(I, fn, fr, b, t, st, args, stack):
    return I.std_model(fn, fr, b, t, st, "core::slice::iter::next", args, stack)


VDF = ("start_index", "end_index_offset", "updated_start", "updated_end_bulge", "end_point")
MAPM = {"map::new": lists.m_new, "BTreeMap::new": lists.m_new, "map::entry": m_map_entry, "map::iter": m_map_iter, "map::next": m_map_next, "map::iter_mut": m_map_iter, "entry::or_default": m_map_slot, "entry::or_insert_with": m_map_slot, "entry::or_insert": m_map_slot,
        "vec::push": m_push_any, "Vec::push": m_push_any, **cut.SORTS, **cut.QUERY, **cut.VECS, **VIEWMODELS, **sym.VEQ}


SLICE_OPQ = ("seg_split_at_point", "seg_midpoint", "create_on_single_segment", "create", "next_wrapping_index", "dist_squared")


def check_slicing(rep, prog):
    f = getfn(prog, "slice_at_intersects")
    bi, pl = ("sym", "boolean_info"), ("sym", "pline")
    intr, ov = ("elem", ("fld", bi, "intersects")), ("elem", ("fld", bi, "overlapping_slices"))
    vd = ("fld", ov, "view_data")
    xy = lambda v: agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))
    at = lambda i: call("at", pl, i)
    pos = lambda v: agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))
    nxt = lambda i: call("next_wrapping_index", pl, i)
    SP = lambda p, flag: agg("adt", "SlicePoint", 0, "SlicePoint", (("pos", p), ("is_start_of_overlapping_slice", flag)))
    sp, ep = pos(("fld", vd, "updated_start")), ("fld", vd, "end_point")
    e = {"I": intr, "O": ov, "sp": sp, "ep": ep, "SP": SP, "At": lambda k, v: call("at", k, v), "nxt": nxt, "at": at, "pos": pos,
         "same": lambda p, i: call("veq", p, pos(at(i)), ("sym", "pos_equal_eps")), "out": ("sym", "output_slices")}
    env = fenv(f, e)
    mk = lambda v: agg("adt", "BooleanPlineSlice", 0, "BooleanPlineSlice", (("view_data", agg("adt", "PlineViewData", 0, "PlineViewData", tuple((k, ("fld", v, k)) for k in VDF) + (("inverted_direction", c(False)),))), ("source_is_pline1", ("not", ("sym", "use_second_index"))), ("overlapping", c(False))))
    env.names.update({
        "mk": mk, "eps": ("sym", "pos_equal_eps"), "el": lambda m: ("elem", m), "fld": lambda v, k: ("fld", v, str(k[1]) if k[0] == "c" else k), "nth": lambda l, i: ("index", l, i), "split": lambda a, b, p: call("seg_split_at_point", a, b, p, ("sym", "pos_equal_eps")),
        "single": lambda i, us, p: ("fld", ("as", call("create_on_single_segment", pl, i, us, p, ("sym", "pos_equal_eps")), "Some"), "0"), "single_opt": lambda i, us, p: call("create_on_single_segment", pl, i, us, p, ("sym", "pos_equal_eps")),
        "many_seg": lambda i, p, j, v, k: call("create", pl, i, p, j, v, k, ("sym", "pos_equal_eps")), "mid": lambda a, b: call("seg_midpoint", a, b), "kept": lambda p: call("apply", ("sym", "point_on_slice_pred"), p),
        "veq": lambda a, b: call("veq", pos(a), pos(b), ("sym", "pos_equal_eps")), "ln": lambda x: call("len", x), "got": lambda m, i: call("get", m, i), "payload": lambda o: ("fld", ("as", o, "Some"), "0"), "dist": lambda a, b: call("dist_squared", a, b),
        "tcmp": lambda a, b: call("total_cmp", a, b), "qa": ("sym", "@a"), "qb": ("sym", "@b"), "iv": lambda l: ("idxin", c(1), call("len", l))})
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, SLICE_OPQ, MAPM), env, key="slice", kinds=("push",))
    second = "use_second_index"
    for which, guard in (("1", "not " + second), ("2", second)):
        T.table("intersect points " + which, ("push", "_m", "At(I.start_index%s, SP(I.point, False))" % which),
                [(second, [("push", "m", "At(I.start_index2, SP(I.point, False))")]), ("not " + second, [("push", "m", "At(I.start_index1, SP(I.point, False))")])], cover=False)
    for k, sf, ef, guard in (("0", "not O.opposing_directions", "O.opposing_directions", "not " + second), ("1", "True", "False", second)):
        si, ei = "fld(O.start_indexes, %s)" % k, "fld(O.end_indexes, %s)" % k
        cases = []
        for a in (True, False):
            for b in (True, False):
                s_, e_ = ("nxt(%s)" % si if a else si), ("nxt(%s)" % ei if b else ei)
                cases.append((conj(guard, ("" if a else "not ") + "same(sp, nxt(%s))" % si, ("" if b else "not ") + "same(ep, nxt(%s))" % ei), [("push", "m", "At(%s, SP(sp, %s))" % (s_, sf)), ("push", "m", "At(%s, SP(ep, %s))" % (e_, ef))]))
        T.table("overlapping slices " + k, ("push", "_m", "At(%s, SP(sp, %s))" % (si, sf)), cases)
    T.kinds = ("sort",)
    T.table("sorting", ("sort", "fld(el(_m), 1)", "*", "*"), [("", [("sort", "fld(el(m), 1)", "*", "tcmp(dist(qa.pos, pos(at(fld(el(m), 0)))), dist(qb.pos, pos(at(fld(el(m), 0)))))")])])
    T.kinds = ("push",)
    # slices between two points on one segment
    L, K = "fld(el(m), 1)", "fld(el(m), 0)"
    end = "at(nxt(%s))" % K
    sp_ = "split(prev, %s, nth(%s, i).pos)" % (end, L)
    flag = "nth(%s, i - 1).is_start_of_overlapping_slice" % L
    eq = "veq({0}.updated_start, {0}.split_vertex)".format(sp_)
    kept = "kept(mid({0}.updated_start, {0}.split_vertex))".format(sp_)
    args = "(%s, %s.updated_start, pos(%s.split_vertex))" % (K, sp_, sp_)
    nextv = {"prev": sp_ + ".split_vertex"}
    emit = [("push", "out", "mk(single%s)" % args)]
    one_seg = sel = ("push", "out", "mk(single(fld(el(_m), 0), split(_prev, at(nxt(fld(el(_m), 0))), nth(fld(el(_m), 1), _i).pos).updated_start, pos(split(_prev, at(nxt(fld(el(_m), 0))), nth(fld(el(_m), 1), _i).pos).split_vertex)))")
    T.table("slices on one segment", sel, [
        (flag, [], nextv), (conj("not " + flag, eq), [], nextv), (conj("not " + flag, "not " + eq, "not " + kept), [], nextv),
        (conj("not " + flag, "not " + eq, kept, "none(single_opt%s)" % args), [], nextv), (conj("not " + flag, "not " + eq, kept, "some(single_opt%s)" % args), emit, nextv)],
        entry={"prev": "split(at(%s), %s, nth(%s, 0).pos).split_vertex" % (K, end, L)}, index={"i": ("1", "len(%s)" % L)})
    # slices that run over vertexes
    hit = "got(m2, idx)"
    S = "many_seg(fld(el(m), 0), nth(payload(%s), 0).pos, idx, v0, n + 1)" % hit
    kept = "kept(mid(%s.updated_start, at(nxt(%s.start_index))))" % (S, S)
    v0 = "split(at(%s), %s, nth(%s, len(%s) - 1).pos).split_vertex" % (K, end, L, L)
    import re
    S = S.replace("v0", v0)
    kept = kept.replace("v0", v0)
    sel = ("push", "out", "mk(%s)" % re.sub(r"\b(m|m2|idx|n)\b", r"_\1", S))
    T.table("slices over vertexes", sel, [
        ("n > vertex_count(pline)", "any"),
        ("n <= vertex_count(pline) and none(%s)" % hit, [], {"idx": "nxt(idx)", "n": "n + 1", "end": "back"}),
        (conj("n <= vertex_count(pline)", "some(%s)" % hit, kept), [("push", "out", "mk(%s)" % S)], {"leave": "1"}),
        (conj("n <= vertex_count(pline)", "some(%s)" % hit, "not " + kept), [], {"leave": "1"})],
        entry={"idx": "nxt(%s)" % K, "n": "0"})
    T.only("push", "out", "output")
    slicing_reached(T, env, one_seg, sel)
    return T


def slicing_reached(T, env, one_seg, over):
    """on every segment with crossings both kinds of slices are looked for"""
    if not T.ok:
        return
    cn = T.cn
    h1, h2 = T.headers(one_seg), T.headers(over)
    if not T.rep.check(h1 and h2, "slice:both", "%s: slices on one segment and slices over vertexes are expected" % T.where):
        return
    outer = {s.start for s in T.segs if s.end[0] == "enter" and s.end[1] in h1}

    def asks(ctx, t):
        r = set()
        for v in (True, False):
            x = ctx.copy()
            x.add_lit(t, v)
            if x.feasible():
                r.add(v)
        return r.pop() if len(r) == 1 else None
    lists_ = {cn(a["m"]) for h in h2 for a in h2[h] if "m" in a}
    if not T.rep.check(len(lists_) == 1, "slice:list", "%s: the slices over vertexes belong to the crossings of one segment" % T.where):
        return
    L = ("fld", ("elem", lists_.pop()), "1")
    n = call("len", L)
    last = ("fld", ("index", L, ("bin", "Sub", n, c(1))), "is_start_of_overlapping_slice")
    for s in T.segs:
        if s.start is None or not (s.start in outer or s.start in h1) or s.end[0] in ("panic", "ret"):
            continue
        goes = s.end[1]
        if goes in h1:
            continue
        T.rep.ob()
        if s.start in outer and asks(s.ctx, cn(("lt", n, c(2)))) is not True:
            T.rep.fail("slice:one segment:reached", "%s: the slices between two crossings of a segment are left out although there may be two, on the path [%s]" % (T.where, cut.short_facts(s, cn)))
        x = s.ctx.copy()
        x.add_lit(cn(("lt", c(0), n)), True)
        f_ = asks(x, cn(last))
        if f_ is None or f_ != (goes not in h2):
            T.rep.fail("slice:over vertexes:reached", "%s: the slice after the last crossing of a segment must be looked for unless an overlapping slice starts there, on the path [%s]" % (T.where, cut.short_facts(s, cn)))


STITCH_OPQ = ("select", "create_from_remove_repeat", "extend_remove_repeat", "view", "remove_last")


def check_stitching(rep, prog):
    f = getfn(prog, "stitch_slices_into_closed_polylines")
    sl = ("sym", "slices")
    pos = lambda v: agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))
    e = {"S": ("elem", sl), "args": lambda *xs: call("args", *xs), "slot": lambda v, i: ("slot", v, i), "eps": ("sym", "pos_equal_eps"),
         "sl": lambda i: ("index", sl, i), "idx": lambda v, i: ("index", v, i), "el": lambda m: ("elem", m), "after": lambda n_, *xs: call(n_[1], *xs),
         "query": lambda *xs: call("query", *xs)}
    env = fenv(f, e)
    e = env.names
    AF = lambda n_, *xs: ("after", call(n_, *xs), 0)
    removed = lambda p: AF("remove_last", p)
    e.update({"removed": removed, "closed": lambda p: AF("set_is_closed", p, c(True)), "joined": lambda p, s_, src: AF("extend_remove_repeat", p, call("view", s_, src), ("sym", "pos_equal_eps")),
              "started": lambda s_, src: call("create_from_remove_repeat", call("view", s_, src), ("sym", "pos_equal_eps")), "pick": lambda cur, q: call("select", ("sym", "stitch_selector"), cur, q),
              "L": lambda *xs: lst(*[one(x) for x in xs]), "plus": push, "E": EMPTY, "res": lambda p, ss: agg("adt", "BooleanResultPline", 0, "BooleanResultPline", (("pline", p), ("subslices", ss))),
              "val": lambda o: ("fld", ("as", o, "Some"), "0"), "p1": ("sym", "source_pline1"), "p2": ("sym", "source_pline2"), "pos": pos, "ln": lambda x: call("len", x), "count": lambda p: call("vertex_count", p),
              "built": lambda b: ("fld", ("as", call("build", b), "Ok"), "0"), "builder": lambda n_: call("new", n_),
              "lastp": lambda p: pos(call("at", p, ("bin", "Sub", call("vertex_count", p), c(1)))), "falses": lambda n_: call("from_elem", c(False), n_)})
    I = cut.Cut(prog, STITCH_OPQ, MAPM)
    T = cut.SegTable(rep, prog, f, I, env, key="stitch", kinds=("push", "mut", "write", "clear"))
    us = "S.view_data.updated_start"
    inv = "S.view_data.inverted_direction"
    T.table("start points", ("mut", "_b", ":add", "*"), [
        (inv, [("mut", "b", ":add", "args(S.view_data.end_point.x, S.view_data.end_point.y, S.view_data.end_point.x, S.view_data.end_point.y)")]),
        ("not " + inv, [("mut", "b", ":add", "args({0}.x, {0}.y, {0}.x, {0}.y)".format(us))])])
    ok_ = T.bind("result", ("push", "_result", "res(closed(removed(_cur)), _sv)")) and T.bind("joining", ("push", "_subs", "sl(val(pick(_ci, _ql)))")) and T.bind("candidates", ("push", "_qr", "el(query(_ix, _q1, _q2, _q3, _q4))"))
    if not ok_:
        return
    q = "query(ix, lastp(cur).x - eps, lastp(cur).y - eps, lastp(cur).x + eps, lastp(cur).y + eps)"
    hit = "el(%s)" % q
    T.table("slices", ("write", "slot(_vis, _i)", "*", "True"), [
        ("idx(now(vis), i)", []), ("not idx(now(vis), i)", [("write", "slot(vis, i)", "*", "True")])], where=lambda a: a["i"][0] in ("iv", "loop"), export=("vis", "i"), index={"i": ("0", "len(slices)")})
    v = "idx(now(vis), %s)" % hit
    T.table("candidates", ("push", "qr", hit), [(hit + " == i", [("push", "qr", hit)]), (hit + " != i and not " + v, [("push", "qr", hit)]), (hit + " != i and " + v, [])])
    k = "val(pick(ci, now(qr)))"
    got = "len(now(qr)) != 0 and some(pick(ci, now(qr)))"
    one_ = lambda src: [("mut", "*", ":remove_last", "args()"), ("mut", "*", ":extend_remove_repeat", "args(view(sl(%s), %s), eps)" % (k, src)), ("write", "slot(vis, %s)" % k, "*", "True"), ("push", "subs", "sl(%s)" % k)]
    nx = lambda src: {"cur": "joined(removed(cur), sl(%s), %s)" % (k, src), "ci": k}
    T.entry("start", cur=[("sl(i).source_is_pline1", "started(sl(i), p1)"), ("not sl(i).source_is_pline1", "started(sl(i), p2)")], ci="i", sv="L(sl(i))")
    T.table("joining", ("push", "subs", "sl(val(pick(ci, _ql)))"), [
        ("len(now(qr)) == 0", []), ("len(now(qr)) != 0 and none(pick(ci, now(qr)))", []),
        (conj(got, "%s == i" % k, "count(cur) < 3"), [], {"panic": 1}),
        (conj(got, "%s == i" % k, "count(cur) >= 3"), [("mut", "*", ":remove_last", "args()"), ("mut", "*", ":set_is_closed", "args(True)"), ("push", "*", "res(closed(removed(cur)), now(subs))")], {"panic": 1}),
        (conj(got, "%s != i" % k, "sl(%s).source_is_pline1" % k), one_("p1"), nx("p1")), (conj(got, "%s != i" % k, "not sl(%s).source_is_pline1" % k), one_("p2"), nx("p2"))], part="after")
    T.only("push", "result", "output")
    return T


def check_process(rep, prog):
    f = getfn(prog, "process_for_boolean")
    p1, p2, ep = ("sym", "pline1"), ("sym", "pline2"), ("sym", "pos_equal_eps")
    opt = agg("adt", "FindIntersectsOptions", 0, "FindIntersectsOptions", (("pline1_aabb_index", some(("sym", "pline1_aabb_index"))), ("pos_equal_eps", ep)))
    fi = call("find_intersects", p1, p2, opt)
    sj = call("sort_and_join_overlapping_intersects", ("fld", fi, "overlapping_intersects"), p1, p2, ep)
    want = agg("adt", "ProcessForBooleanResult", 0, "ProcessForBooleanResult", (("overlapping_slices", sj), ("intersects", ("fld", fi, "basic_intersects")), ("pline1_orientation", call("orientation", p1)), ("pline2_orientation", call("orientation", p2))))
    sym.check_table(rep, prog, f, [("", "want")], fenv(f, {"want": want}), opaque=("find_intersects", "sort_and_join_overlapping_intersects", "orientation"), key="process")
