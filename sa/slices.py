"""Slices of the raw offset polylines (C27)."""
import absint as A
import cut
import sym
import lists
from absint import Out, c, agg, some, NONE
from boolean import getfn, MAPM, m_map_next
from cut import flat, match, target
from lists import lst, one, many, EMPTY
from tables import fenv, call, conj

OFF = "cavalier_contours::polyline::internal::pline_offset::"


def kind_of(prog, f):
    """helper predicates of the slice builders, by what they take: a slice, a segment (two vertexes)"""
    if prog.tstr(f.crate, f.locals[0][0]) != "bool":
        return None
    ts = [prog.tstr(f.crate, f.locals[i][0]) for i in range(1, f.argc + 1)]
    sl = [i for i, t in enumerate(ts) if t.startswith("&") and t.lstrip("&").split("<")[0].split("::")[-1] == "PlineViewData"]
    vs = [i for i, t in enumerate(ts) if t.lstrip("&").split("<")[0].split("::")[-1] == "PlineVertex"]
    if len(sl) == 1:
        return "slice_ok", sl
    if len(vs) == 2:
        return "meets", vs
    return None


class Slicer(cut.Cut):
    """calls of the helper predicates of pline_offset are kept as terms; what they were called with is recorded"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.preds = {}
        self.own = None         # the kind of predicate analysed: what it delegates to is followed

    def run(self, fn, args, st=None, frame=None, stack=()):
        if frame is not None and fn.d.startswith(OFF):
            k = kind_of(self.prog, fn)
            if k is not None and k[0] != self.own:
                self.preds.setdefault((k[0], fn.d), (fn, list(args), st.copy(), k[1]))
                yield Out("ret", ("call", k[0], tuple(self.term(args[i], st) for i in k[1])), st)
                return
        yield from super().run(fn, args, st, frame=frame, stack=stack) if frame is not None else super().run(fn, args, st)


def m_point_ok(I, fn, fr, b, t, st, args, stack):
    """the scratch stack of the query takes no part in the answer"""
    keep = [a for a, o in zip(args, t["args"]) if not I.prog.operand_ty(fn, o).get("mut")]
    return iter([Out("ret", ("call", "point_ok", tuple(I.term(a, st) for a in keep)), st)])


def m_circle(I, fn, fr, b, t, st, args, stack):
    """every crossing found is handed to the visitor"""
    fs = [i for i, o in enumerate(t["args"]) if I.prog.operand_ty(fn, o).get("mut")]
    it = ("iter", ("call", "circle_hits", tuple(I.term(a, st) for i, a in enumerate(args) if i not in fs)))

    def stop(e, o):
        x = I.term(e, o.st)
        for r in I.apply(fn, fr, b, t, o.st, args[fs[0]], [("fld", x, "0"), ("fld", x, "1")], stack):
            yield (r if r.kind == "panic" else None), r.st

    def g():
        for kind, v, s in sym.iterate(I, fn, fr, b, t, st, it, None, stack, stop=stop):
            yield v if kind in ("panic", "stop") else Out("ret", A.UNIT, s)
    return g()


def m_map_range(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    m, r = I.term(I.read(st, root, proj), st), I.term(args[1], st)
    d = dict(r[5]) if r[0] == "agg" else {}
    short = (r[2] or "").split("::")[-1] if r[0] == "agg" else ""
    if short == "RangeFrom":
        return iter([Out("ret", ("iter", ("call", "from", (m, d["start"]))), st)])
    if short == "RangeToInclusive":
        cn = sym.Canon()
        if cn(d["end"]) == cn(("fld", ("elem", m), "0")):
            return iter([Out("ret", ("iter", m), st)])      # some key is not beyond: the first entry of all
        return iter([Out("ret", ("iter", ("call", "upto", (m, d["end"]))), st)])
    return NotImplemented


def fresh(I, fn, b, a):
    """is the iterator made anew whenever this place is reached (so that it gives its first element)?"""
    if a[0] != "ref" or a[1][0] != "L" or a[2]:
        return False
    n = a[1][-1]
    made = set()
    for i, bl in enumerate(fn.blocks):
        t = bl["t"]
        if t["t"] == "call" and t["dst"] == [n, []]:
            made.add(i)
        if any(s[0] == "=" and s[1] == [n, []] for s in bl["s"]):
            made.add(i)
    seen, work = set(), list(fn.succs(b))
    while work:
        x = work.pop()
        if x not in seen and x not in made:
            seen.add(x)
            work.extend(fn.succs(x))
    return b not in seen


def m_map_first(I, fn, fr, b, t, st, args, stack):
    """the entry with the smallest key (of a range)"""
    if not fresh(I, fn, b, args[0]):
        return m_map_next(I, fn, fr, b, t, st, args, stack)
    it = I.as_iter(I.read(st, args[0][1], args[0][2]), st)
    if it[0] != "iter":
        return NotImplemented
    return iter([Out("ret", ("call", "first", (it[1],)), st)])


def m_first_kv(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", ("call", "first", (I.term(I.read(st, *I.deref(st, args[0])), st),)), st)])


def m_callback(I, fn, fr, b, t, st, args, stack):
    """a function given by the caller is called: an event"""
    fv, a = args[0], args[0]
    if a[0] == "ref":
        fv = I.read(st, *I.deref(st, a))
    if fv[0] in ("clo", "fn", "agg"):
        return NotImplemented
    xs = [x for _, x in args[1][5]] if args[1][0] == "agg" else [args[1]]
    I.event(st, "visit", target(I, st, a) if a[0] == "ref" else fv, ("call", "args", tuple(I.term(x, st) for x in xs)))
    return iter([Out("ret", A.UNIT, st)])


CALLBACKS = {"FnMut::call_mut": m_callback, "Fn::call": m_callback, "FnOnce::call_once": m_callback}
MODELS = {"map::range": m_map_range, "map::first_key_value": m_first_kv, "map::is_empty": cut.m_set_empty, "Range::next": m_map_first,
          "pline_offset::point_valid_for_offset": m_point_ok, "pline_offset::visit_circle_intersects": m_circle, **MAPM}
MODELS["map::next"] = m_map_first
OPQ = ("from_slice_points", "from_entire_pline", "all_self_intersects_as_basic", "create_approx_aabb_index", "next_wrapping_index", "fwd_wrapping_index", "seg_midpoint", "pline_seg_intr",
       "seg_fast_approx_bounding_box", "find_intersects", "seg_closest_point", "seg_arc_radius_and_center", "point_within_arc_sweep", "line_circle_intr", "circle_circle_intr", "is_false_intersect", "last")


def body(fn, args, st, idx, prog, kind):
    """a helper predicate on its own: called with unknown things to test, and what the call it was met in captured"""
    names = ("slice",) if len(idx) == 1 else ("v1", "v2")
    args = list(args)
    for n, i in zip(names, idx):
        x = ("sym", n)
        args[i] = ("ref", ("O", x), ()) if fn.lty(i + 1)["k"] == "ref" else x
    st = st.copy()
    st.facts, st.events, st.visits = {}, (), {}
    I = Slicer(prog, OPQ, MODELS)
    I.own = kind
    return fn, args, st, I


pos = lambda v: agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))
PV = lambda x, y, b: agg("adt", "PlineVertex", 0, "PlineVertex", (("x", x), ("y", y), ("bulge", b)))
EPS0 = ("call", "fuzzy_epsilon", ())
ORIG, RAW, DUAL, OFFSET, OIX, OPTS = [("sym", n) for n in ("original_polyline", "raw_offset_polyline", "dual_raw_offset_polyline", "offset", "orig_polyline_index", "options")]
EPS = ("fld", OPTS, "pos_equal_eps")


def names():
    sub = lambda x, y: ("bin", "Sub", x, y)
    mul = lambda x, y: ("bin", "Mul", x, y)
    return {"OK": lambda p: call("point_ok", ORIG, OFFSET, OIX, p, EPS, ("fld", OPTS, "offset_dist_eps")), "meets": lambda a, b: call("meets", a, b), "valid": lambda s: call("slice_ok", s), "pos": pos, "PV": PV,
            "eps": EPS, "eps0": EPS0, "raw": RAW, "E": EMPTY, "el": lambda m: ("elem", m), "key": lambda x: ("fld", x, "0"), "list_": lambda x: ("fld", x, "1"), "nth": lambda l, i: ("index", l, i), "ln": lambda x: call("len", x),
            "n": call("vertex_count", RAW), "at": lambda i: call("at", RAW, i), "nx": lambda i: call("next_wrapping_index", RAW, i), "fwd": lambda i, k: call("fwd_wrapping_index", RAW, i, k), "mid": lambda a, b: call("seg_midpoint", a, b),
            "orig": lambda i: call("at", ORIG, i), "onx": lambda i: call("next_wrapping_index", ORIG, i), "cut_": lambda a, i, b, j: ("fld", ("as", call("from_slice_points", RAW, a, i, b, j, EPS), "Some"), "0"),
            "cut_opt": lambda a, i, b, j: call("from_slice_points", RAW, a, i, b, j, EPS), "whole": call("from_entire_pline", RAW), "At": lambda k, x: call("at", k, x), "first": lambda x: call("first", x),
            "from_": lambda m, k: call("from", m, k), "upto": lambda m, k: call("upto", m, k), "payload": lambda o: ("fld", ("as", o, "Some"), "0"), "empty": lambda m: call("is_empty", m), "last_": lambda p: ("fld", ("as", call("last", p), "Some"), "0"),
            "tcmp": lambda a, b: call("total_cmp", a, b), "qa": ("sym", "@a"), "qb": ("sym", "@b"), "query": lambda *a: call("query", *a), "L1": lambda x: lst(one(x)), "abs_": lambda x: call("abs", x),
            "d2": lambda p, q: ("bin", "Add", *[mul(sub(("fld", p, k), ("fld", q, k)), sub(("fld", p, k), ("fld", q, k))) for k in "xy"])}


def check_point(rep, prog):
    """a point is far enough from the original polyline"""
    f = getfn(prog, OFF + "point_valid_for_offset")
    pl = ("sym", "polyline")
    env = fenv(f, {**names(), "at": lambda i: call("at", pl, i), "nx": lambda i: call("next_wrapping_index", pl, i), "closest": lambda a, b, p: call("seg_closest_point", a, b, p, ("sym", "pos_equal_eps"))})
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    q = "query(aabb_index, point.x - (abs_(offset) - offset_tol), point.y - (abs_(offset) - offset_tol), point.x + (abs_(offset) - offset_tol), point.y + (abs_(offset) - offset_tol))"
    i = "el(%s)" % q
    env.names["D"] = env.term("d2(closest(at({i}), at(nx({i})), point), point)".format(i=i))
    T = cut.SegTable(rep, prog, f, Slicer(prog, OPQ, {k: v for k, v in MODELS.items() if "point_valid" not in k}), env, key="point", kinds=("push", "mut", "write"))
    hs = list(dict.fromkeys(s.start for s in T.segs if s.start is not None))
    far = "(abs_(offset) - offset_tol) * (abs_(offset) - offset_tol) < D"
    T.table("near segments", hs, [(far, [], {"end": "back"}), ("not " + far, [], {"return": "False"})])
    # the answer carried by the loop stays yes as long as it goes on
    ws = list({w for s in T.segs for w in s.vals})
    rep.check(len(ws) <= 1, "point:carried", "%s: the loop must carry the answer only, but carries %s" % (T.where, [sym.showt(w) for w in ws]))
    for w in ws[:1]:
        env.names["yes_"] = w
        T.table("still valid", hs, [(far, [], {"yes_": "True"}), ("not " + far, "any")], cover=False)
        T.entry("start", yes_="True")
        T.table("no near segment", hs, [("", [], {"return": "yes_"})], part="after")
    if not ws:
        T.table("no near segment", hs, [("", [], {"return": "True"})], part="after")


def check_helpers(rep, prog, preds, key):
    """which slices are kept, and which segments count as meeting the original polyline"""
    by = {}
    for (kind, d), r in preds.items():
        by.setdefault(kind, []).append(r)
    rep.check(bool(by.get("slice_ok")), key + ":no validity", "%s: no predicate on a slice decides what is kept" % key)
    meets = {}
    for fn, args, st, ix in by.get("slice_ok", ()):
        f, a, s, I = body(fn, args, st, ix, prog, "slice_ok")
        S = ("sym", "slice")
        env = fenv(f, {**names(), "S": S, "seg": agg("adt", "PlineView", 0, "PlineView", (("source", RAW), ("data", S)))})
        env.FLOATS = env.FLOATS | {"x", "y", "bulge", "updated_end_bulge"}
        env.names["i"] = ("idxin", c(0), call("segment_count", env.names["seg"]))
        env.names["vat"] = lambda i: call("at", env.names["seg"], i)
        env.names["vnx"] = lambda i: call("next_wrapping_index", env.names["seg"], i)
        T = cut.SegTable(rep, prog, f, I, env, key=key + " slice", kinds=("push", "mut", "write"), args=a, st=s)
        us, ep = "S.updated_start", "PV(S.end_point.x, S.end_point.y, 0)"
        no = {"return": "False"}
        one_seg = [("if", "OK(pos(%s)) and OK(S.end_point) and OK(mid(%s, %s))" % (us, us, ep), [("if", "meets(%s, %s)" % (us, ep), [no], [{"return": "True"}])], [no])]
        e = "at(fwd(S.start_index, S.end_index_offset))"
        m1, m2 = "mid(%s, at(nx(S.start_index)))" % us, "mid(PV(%s.x, %s.y, S.updated_end_bulge), %s)" % (e, e, ep)
        T.table("ends", [None], flat([("if", "S.end_index_offset == 0", one_seg, [("if", "OK(%s) and OK(%s)" % (m1, m2), [{"goes": "enter"}], [no])])]), part="all")
        hs = list(dict.fromkeys(s.start for s in T.segs if s.start is not None))
        rep.check(len(hs) == 1, key + " slice:loops", "%s: expected one loop over the segments of the slice, found %d" % (T.where, len(hs)))
        a_, b_ = "vat(i)", "vat(vnx(i))"
        T.table("segments", hs, flat([("if", "OK(pos(%s)) and not meets(%s, %s)" % (a_, a_, b_), [{"end": "back"}], [no])]))
        T.table("end point", hs, flat([("if", "OK(S.end_point)", [{"return": "True"}], [no])]), part="after")
        meets.update(I.preds)
    ms = [r for (kind, d), r in list(meets.items()) + list(preds.items()) if kind == "meets"]
    rep.check(bool(ms), key + ":no meeting", "%s: no predicate on a segment decides whether it meets the original polyline" % key)
    for fn, args, st, ix in ms[:2]:
        f, a, s, I = body(fn, args, st, ix, prog, "meets")
        v1, v2 = ("sym", "v1"), ("sym", "v2")
        vs = [v[0] for v in [x for d, x in prog.adts.items() if d.endswith("::PlineSegIntr")][0]["vars"]]
        bb = call("seg_fast_approx_bounding_box", v1, v2)
        e = {**names(), "v1": v1, "v2": v2, "bb": bb, "ix": OIX, "apart": lambda i, j: ("eq", ("discr", call("pline_seg_intr", v1, v2, i, j, EPS)), c(vs.index("NoIntersect")))}
        env = fenv(f, e)
        env.names.update({"v1": v1, "v2": v2})
        env.names["q"] = env.term("query(ix, bb.min_x - eps0, bb.min_y - eps0, bb.max_x + eps0, bb.max_y + eps0)")
        T = cut.SegTable(rep, prog, f, I, env, key=key + " meeting", kinds=("push", "mut", "write"), args=a, st=s)
        hs = list(dict.fromkeys(s.start for s in T.segs if s.start is not None))
        ap = "apart(orig(el(q)), orig(onx(el(q))))"
        T.table("near segments", hs, [(ap, [], {"end": "back"}), ("not " + ap, [], {"return": "True"})])
        T.table("none met", hs, [("", [], {"return": "False"})], part="after")


def common(rep, T, m, close):
    """what both slice builders do with the crossings, once found"""
    T.kinds = ("sort",)
    T.table("sorting", ("sort", "list_(el(_s))", "*", "*"), [("", [("sort", "list_(el(s))", "*", "tcmp(d2(qa, at(key(el(s)))), d2(qb, at(key(el(s)))))")])])
    T.kinds = ("push",)
    if not T.bind("neighbours", ("push", "_out", "cut_(nth(list_(el(_m)), _i), key(el(_m)), nth(list_(el(_m)), _j), key(el(_m)))")):
        return False
    L, K = "list_(el(m))", "key(el(m))"

    def piece(a, i, b, j):
        x = (a, i, b, j)
        return [("if", "some(cut_opt(%s, %s, %s, %s))" % x, [("if", "valid(cut_(%s, %s, %s, %s))" % x, [("push", "out", "cut_(%s, %s, %s, %s)" % x)])])]
    idx = {"i": ("0", "ln(%s) - 1" % L)}
    sel = ("push", "out", "cut_(nth({0}, _i), {1}, nth({0}, _j), {1})".format(L, K))
    T.table("neighbours on a segment", sel, flat(piece("nth(%s, i)" % L, K, "nth(%s, i + 1)" % L, K) + [{"end": "back"}]), index=idx, export=("i",))
    F, W = "first(from_(m, nx(%s)))" % K, "first(m)"
    lastp = "nth(%s, ln(%s) - 1)" % (L, L)
    nxt = lambda e: piece(lastp, K, "nth(list_(payload(%s)), 0)" % e, "key(payload(%s))" % e)
    go = [{"goes": "back"}]
    wrap = [("if", "some(%s)" % W, nxt(W) + go, ["any"])]
    T.segs = [s for s in T.segs if not (s.end == ("panic", "unwrap"))]      # no list of crossings is empty
    T.table("to the next crossing", sel, flat([("if", "some(%s)" % F, nxt(F) + go, close(piece, wrap, lastp, K))]), index=idx, part="after")
    return True


def check_single(rep, prog):
    f = getfn(prog, OFF + "slices_from_raw_offset")
    rix = call("create_approx_aabb_index", RAW)
    si = call("all_self_intersects_as_basic", RAW, rix, c(False), EPS)
    env = fenv(f, {**names(), "si": si, "X": ("elem", si)})
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    I = Slicer(prog, OPQ, MODELS)
    T = cut.SegTable(rep, prog, f, I, env, key="slices", kinds=("push",))
    T.segs = [s for s in T.segs if not (s.end[0] == "panic" and s.end[1] == "panic_fmt")]         # the debug assertion that the raw offset is closed
    T.table("no crossings", [None], [("n < 2", [], {"return": "E"}), ("n >= 2 and ln(si) == 0 and not OK(at(0))", [], {"return": "E"}), ("n >= 2 and ln(si) == 0 and OK(at(0))", [("push", "*", "whole")], {"return": "L1(whole)"}),
                                     ("n >= 2 and ln(si) != 0", [], {"goes": "enter"})], part="all")
    if not T.bind("crossings", ("push", "_map", "At(X.start_index1, X.point)")):
        return
    T.table("crossings", ("push", "map", "At(X.start_index1, X.point)"), [("", [("push", "map", "At(X.start_index1, X.point)"), ("push", "map", "At(X.start_index2, X.point)")], {"end": "back"})])
    T.start("no crossing yet", map="E")
    T.only("push", "map", "crossings")
    if common(rep, T, "map", lambda piece, wrap, lastp, K: wrap):
        T.start("nothing cut yet", out="E")
        T.table("result", outer(T), [("", [], {"return": "now(out)"})], part="after")
        T.only("push", "out", "slices")
        same_map(rep, T)
    check_helpers(rep, prog, I.preds, "slices")


def outer(T):
    """the loop around the one over neighbours"""
    inner = {h for h in T.headers(("push", "out", "cut_(nth(list_(el(m)), i), key(el(m)), nth(list_(el(m)), _j), key(el(m)))"))}
    return [h for h in dict.fromkeys(s.start for s in T.segs if s.end[0] == "enter" and s.end[1] in inner)]


def same_map(rep, T):
    """the crossings that are cut at are all the crossings collected, after sorting each list"""
    cn = T.cn
    m, s_ = cn(T.env.names["m"]), cn(T.env.names["s"]) if "s" in T.env.names else None
    tg = T.env.names["map"]
    vals = {cn(T.now(h, tg)) for h in T.names}
    rep.check(m in vals, T.key + ":cut at", "%s: the slices are cut at %s, not at the collected crossings" % (T.where, sym.showt(m)))
    if s_ is not None:
        rep.check(s_ == m, T.key + ":sorted", "%s: the lists sorted are those of %s, the slices are cut at %s" % (T.where, sym.showt(s_), sym.showt(m)))


def reach(T, cond, avoid):
    """cut points that can be reached from the start when cond holds without passing through those to avoid"""
    seen, work = set(), [None]
    lits = T.env.dnf(cond)[0] if cond else []
    while work:
        h = work.pop()
        for s in T.segs:
            if s.start != h or s.end[0] != "enter" or s.end[1] in seen or s.end[1] in avoid:
                continue
            x = s.ctx.copy()
            for t, v in lits:
                x.add_lit(T.cn(t), v)
            if x.feasible():
                seen.add(s.end[1])
                work.append(s.end[1])
    # a loop left for an outer one is a way back
        for s in T.segs:
            if s.start == h and s.end[0] == "back" and s.end[1] not in seen and s.end[1] not in avoid:
                seen.add(s.end[1])
                work.append(s.end[1])
    return seen


def grown(T, tgt):
    """where a loop is first entered, a list holds what was added to it on the way and nothing else"""
    n = 0
    for s in T.segs:
        if s.end[0] != "enter":
            continue
        x = T.value(s.vals, tgt)
        if x is None or any(y[0] == "loop" for y in sym.subterms(x) if isinstance(y, tuple) and y and y[0] == "loop" and y[3] == tgt[1:]):
            continue
        n += 1
        w = T.cn(lst(*[one(e[2]) for e in s.events if e[0] == "push" and e[1] == tgt]))
        T.rep.check(x == w, T.key + ":initial content", "%s: the list must hold what was just added only, but is %s [%s]" % (T.where, sym.showt(x), cut.short_facts(s, T.cn)))
    T.rep.check(n > 0, T.key + ":initial content:none", "%s: no initial content" % T.where)


def check_dual(rep, prog):
    f = getfn(prog, OFF + "slices_from_dual_raw_offsets")
    rix = call("create_approx_aabb_index", RAW)
    si = call("all_self_intersects_as_basic", RAW, rix, c(False), EPS)
    fi = call("find_intersects", RAW, DUAL, agg("adt", "FindIntersectsOptions", 0, "FindIntersectsOptions", (("pline1_aabb_index", some(rix)), ("pos_equal_eps", EPS))))
    hits = lambda p: call("circle_hits", RAW, pos(p), call("abs", OFFSET), rix, OPTS)
    env = fenv(f, {**names(), "X": ("elem", si), "Y": ("elem", ("fld", fi, "basic_intersects")), "C1": ("elem", hits(call("at", ORIG, c(0)))), "C2": ("elem", hits(("fld", ("as", call("last", ORIG), "Some"), "0"))),
                   "oclosed": call("is_closed", ORIG), "plus": lambda l, x: lst(many(l), one(x))})
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    I = Slicer(prog, OPQ, MODELS)
    T = cut.SegTable(rep, prog, f, I, env, key="dual", kinds=("push",))
    T.segs = [s for s in T.segs if not (s.end == ("panic", "unwrap"))]      # n >= 2 has a last vertex, and no list of crossings is empty
    T.table("few vertexes", [None], [("n < 2", [], {"return": "E"}), ("n >= 2", [], {"goes": "enter"})], part="all")
    if not T.bind("crossings", ("push", "_map", "At(X.start_index1, X.point)")):
        return
    srcs = {}
    for name, evs in (("self", [("push", "map", "At(X.start_index1, X.point)"), ("push", "map", "At(X.start_index2, X.point)")]), ("dual", [("push", "map", "At(Y.start_index1, Y.point)")]),
                      ("start circle", [("push", "map", "At(key(C1), list_(C1))")]), ("end circle", [("push", "map", "At(key(C2), list_(C2))")])):
        T.table(name + " crossings", evs[0], [("", evs, {"end": "back"})])
        srcs[name] = set(T.headers(evs[0]))
    T.start("no crossing yet", map="E")
    T.only("push", "map", "crossings")
    if not T.bind("sorted", ("sort", "list_(el(_s))", "*", "*")):
        return
    sort = set(T.headers(("sort", "list_(el(s))", "*", "*")))
    for name, hs in srcs.items():
        cond = "not oclosed" if "circle" in name else ""
        rep.check(not reach(T, cond, hs) & sort, "dual:%s:skipped" % name, "%s: the %s crossings are not always collected%s" % (T.where, name, " for an open polyline" if cond else ""))
        if cond:
            rep.check(not reach(T, "oclosed", ()) & hs, "dual:%s:closed" % name, "%s: the %s crossings must not be collected for a closed polyline" % (T.where, name))
    before = list(dict.fromkeys(s.start for s in T.segs if s.end[0] == "enter" and s.end[1] in sort))
    T.table("no crossings", before, [("empty(now(map)) and not OK(at(0))", [], {"return": "E"}), ("empty(now(map)) and OK(at(0))", [("push", "*", "whole")], {"return": "L1(whole)"}),
                                     ("not empty(now(map))", [], {"goes": "enter"})], part="after")

    def close(piece, wrap, lastp, K):
        x = (lastp, K, "pos(last_(raw))", "n - 1")
        v = "cut_(%s, %s, %s, %s)" % x
        return [("if", "oclosed", wrap, [("if", "some(cut_opt(%s, %s, %s, %s)) and valid(%s)" % (x + (v,)), [("push", "out", v), {"return": "plus(now(out), %s)" % v}], [{"return": "now(out)"}])])]
    if common(rep, T, "map", close):
        grown(T, T.env.names["out"])
        T.table("result", outer(T), [("", [], {"return": "now(out)"})], part="after")
        same_map(rep, T)
        heads = [s.start for s in T.segs if s.end[0] == "enter" and s.end[1] in outer(T)]
        x = ("pos(at(0))", "0", "nth(list_(payload(first(m))), 0)", "key(payload(first(m)))")
        T.kinds = ("push",)
        T.used |= set(heads)
        T.table("up to the first crossing", list(dict.fromkeys(heads)), flat([("if", "oclosed", [{"goes": "enter"}], [("if", "some(first(m))", [
            ("if", "some(cut_opt(%s, %s, %s, %s)) and valid(cut_(%s, %s, %s, %s))" % (x + x), [("push", "out", "cut_(%s, %s, %s, %s)" % x)]), {"goes": "enter"}], ["any"])])]), part="after")
        T.only("push", "out", "slices")
    check_helpers(rep, prog, I.preds, "dual")


def check_circle(rep, prog):
    """crossings of a circle with a polyline, without the starts of segments"""
    f = getfn(prog, OFF + "visit_circle_intersects")
    pl = ("sym", "pline")
    e = {**names(), "at": lambda i: call("at", pl, i), "nx": lambda i: call("next_wrapping_index", pl, i), "feq": sym.feq, "args": lambda *xs: call("args", *xs), "same": lambda p, q: call("veq", p, q, EPS),
         "rad": lambda a, b: ("fld", call("seg_arc_radius_and_center", a, b), "0"), "ctr": lambda a, b: ("fld", call("seg_arc_radius_and_center", a, b), "1"), "cw": lambda b: ("flt", b, c(0)),
         "within": lambda z, a, b, d, p: call("point_within_arc_sweep", z, a, b, d, p, EPS), "V": lambda x, y: agg("adt", "Vector2", 0, "Vector2", (("x", x), ("y", y))), "beyond": lambda t: ("or_", ("flt", t, c(0)), ("flt", c(1), t)),
         "LC": lambda a, b: call("line_circle_intr", pos(a), pos(b), ("sym", "circle_radius"), ("sym", "circle_center"), EPS),
         "CC": lambda r, z: call("circle_circle_intr", r, z, ("sym", "circle_radius"), ("sym", "circle_center"), EPS)}
    for p, adt in (("l", "LineCircleIntr"), ("c", "CircleCircleIntr")):
        vs = [v[0] for v in [a for d, a in prog.adts.items() if d.endswith("::" + adt)][0]["vars"]]
        for i, n in enumerate(vs):
            e["%s_%s" % (p, n)] = lambda x, i=i: ("eq", ("discr", x), c(i))
            for k in ("t0", "t1", "point", "point1", "point2"):
                e["%s_%s_%s" % (p, n, k)] = lambda x, n=n, k=k: ("fld", ("as", x, n), k)
    env = fenv(f, e)
    env.FLOATS = env.FLOATS | {"x", "y", "bulge", "t0", "t1", "circle_radius"}
    z, r = "circle_center", "circle_radius"
    env.names["i"] = env.term("el(query(aabb_index, {z}.x - {r}, {z}.y - {r}, {z}.x + {r}, {z}.y + {r}))".format(z=z, r=r))
    a, b = "at(i)", "at(nx(i))"
    env.names["L"], env.names["C"] = env.term("LC(%s, %s)" % (a, b)), env.term("CC(rad({0}, {1}), ctr({0}, {1}))".format(a, b))
    for n in ("l_TangentIntersect_t0", "l_TwoIntersects_t0", "l_TwoIntersects_t1"):
        env.names[n.replace("_", "")] = e[n](env.names["L"])
    T = cut.SegTable(rep, prog, f, Slicer(prog, [x for x in OPQ if x != "is_false_intersect"], {**MODELS, **CALLBACKS}), env, key="circle", kinds=("visit", "push", "write"))

    def line(t):
        t = "l" + t.replace("_", "")
        x = "V({a}.x + ({b}.x - {a}.x) * {t}, {a}.y + ({b}.y - {a}.y) * {t})".format(a=a, b=b, t=t)
        return [("if", "not {t} < 0 and not {t} > 1 and abs_({t}) > eps".format(t=t), [("visit", "visitor", "args(i, %s)" % x)])]

    def arc(p):
        p = "c_%s(C)" % p
        return [("if", "not same(pos({a}), {p}) and within(ctr({a}, {b}), pos({a}), pos({b}), cw({a}.bulge), {p})".format(a=a, b=b, p=p), [("visit", "visitor", "args(i, %s)" % p)])]
    T.table("segments", list(dict.fromkeys(s.start for s in T.segs if s.start is not None)), flat([("if", "feq(%s.bulge, 0.0, eps0)" % a, match("L", {
        "l_NoIntersect(L)": [], "l_TangentIntersect(L)": line("TangentIntersect_t0"), "l_TwoIntersects(L)": line("TwoIntersects_t0") + line("TwoIntersects_t1")}), match("C", {
            "c_NoIntersect(C)": [], "c_Overlapping(C)": [], "c_TangentIntersect(C)": arc("TangentIntersect_point"), "c_TwoIntersects(C)": arc("TwoIntersects_point1") + arc("TwoIntersects_point2")})), {"end": "back"}]))
    T.only("visit", "visitor", "visits")


def check(rep, prog, serde, tier):
    check_circle(rep, prog)
    check_point(rep, prog)
    check_single(rep, prog)
    check_dual(rep, prog)
