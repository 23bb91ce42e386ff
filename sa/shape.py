"""Shapes (C21, C29): construction and offset."""
import absint as A
import mir
import cut
import sym
from absint import Out, c, agg, some, NONE
from boolean import getfn, MAPM
from cut import flat, target
from lists import LSym, lst, one, many, EMPTY
from tables import fenv, call, conj
from slices import m_point_ok, pos
from stitch import guards

SHP = "cavalier_contours::shape_algorithms::"


def helper(prog, f):
    """the predicate deciding whether a slice is kept: takes a slice, gives an answer"""
    if prog.tstr(f.crate, f.locals[0][0]) != "bool":
        return None
    ts = [prog.tstr(f.crate, f.locals[i][0]) for i in range(1, f.argc + 1)]
    sl = [i for i, t in enumerate(ts) if t.startswith("&") and t.lstrip("&").split("<")[0].split("::")[-1] == "PlineViewData"]
    if len(sl) != 1:
        return None
    return [i for i in range(len(ts)) if "mut" not in ts[i].split("<")[0] and "closure" not in ts[i].lower()]


def chooser(prog, f):
    """element i of two lists put one after the other"""
    if f.argc != 3:
        return False
    r, i, a, b = [prog.tstr(f.crate, f.locals[k][0]) for k in range(4)]
    return i == "usize" and a == b and a.startswith("&[") and r == "&" + a[2:-1]


class Shaper(cut.Cut):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.preds = {}

    def run(self, fn, args, st=None, frame=None, stack=()):
        if frame is not None and fn.d.startswith(SHP):
            if chooser(self.prog, fn):
                self.preds.setdefault(fn.d, (fn, list(args), st.copy(), None))
                yield Out("ret", ("call", "pick", tuple(self.term(a, st) for a in args)), st)
                return
            ix = helper(self.prog, fn)
            if ix is not None:
                self.preds.setdefault(fn.d, (fn, list(args), st.copy(), ix))
                yield Out("ret", ("call", "slice_ok", tuple(self.term(args[i], st) for i in ix)), st)
                return
        yield from super().run(fn, args, st, frame=frame, stack=stack) if frame is not None else super().run(fn, args, st)


OPQ = ("parallel_offset_opt", "create_approx_aabb_index", "find_intersects_opt", "from_slice_points", "from_entire_pline", "orientation", "area", "view", "extend_remove_repeat", "remove_last", "bounds", "seg_midpoint", "vertex_count", "set_is_closed", "at")
MODELS = {"pline_offset::point_valid_for_offset": m_point_ok, **MAPM, **cut.SETS}


def method(prog, name):
    fs = [f for d, f in prog.fns.items() if d.startswith(SHP) and d.count("{closure") == 0 and d.endswith("::" + name) and any("Shape<" in prog.tstr(f.crate, f.locals[i][0]) for i in range(0, f.argc + 1))]
    if len(fs) != 1:
        raise mir.MissingAnchor("shape_algorithms " + name)
    return fs[0]


PLAIN = {"elem": "el", "index": "nth"}
ipx = lambda p: agg("adt", "IndexedPolyline", 0, "IndexedPolyline", (("polyline", p), ("spatial_index", call("create_approx_aabb_index", p))))


def names(prog):
    adt = [a for d, a in prog.adts.items() if d.endswith("::PlineOrientation")][0]
    ccw = [v[0] for v in adt["vars"]].index("CounterClockwise")
    box = lambda ix: ("fld", ("as", call("bounds", ix), "Some"), "0")
    rec = lambda n, *ks: (lambda *xs: agg("adt", n, 0, n, tuple(zip(ks, xs))))
    return {"IP": ipx, "E": EMPTY, "el": lambda x: ("elem", x), "nth": lambda v, i: ("index", v, i), "ln": lambda x: call("len", x), "isccw": lambda p: ("eq", ("discr", call("orientation", p)), c(ccw)), "args": lambda *xs: call("args", *xs),
            "count": lambda p: call("vertex_count", p), "built": lambda b: ("fld", ("as", call("build", b), "Ok"), "0"), "new_": lambda n: call("new", n), "area": lambda p: call("area", p), "neg": lambda x: ("flt", x, c(0)), "pos_": lambda x: ("flt", c(0), x), "query": lambda *a: call("query", *a),
            "bx": box, "Some": some, "some": lambda x: ("eq", ("discr", x), c(1)), "payload": lambda x: ("fld", ("as", x, "Some"), "0"), "pick": lambda *a: call("pick", *a), "at_": lambda k, v: call("at", k, v),
            "OL": rec("OffsetLoop", "parent_loop_idx", "indexed_pline"), "SP": rec("SlicePointSet", "loop_idx1", "loop_idx2", "slice_points"), "DP": rec("DissectionPoint", "seg_idx", "pos"), "DS": rec("DissectedSlice", "source_idx", "v_data"),
            "XP": rec("PlineBasicIntersect", "start_index1", "start_index2", "point"), "opts": rec("PlineOffsetOptions", "aabb_index", "handle_self_intersects", "pos_equal_eps", "slice_join_eps", "offset_dist_eps"),
            "PO": lambda *a: call("parallel_offset_opt", *a), "pair": lambda i, j: A.tup(i, j), "FI": lambda *a: call("find_intersects_opt", *a), "fopts": rec("FindIntersectsOptions", "pline1_aabb_index", "pos_equal_eps"),
            "cut_opt": lambda *a: call("from_slice_points", *a), "whole": lambda p: call("from_entire_pline", p), "ok_": lambda *a: call("slice_ok", *a), "slot": lambda v, i: ("slot", v, i), "get_": lambda m, k: call("get", m, k), "has": lambda m, k: call("has", m, k), "tcmp": lambda a, b: call("total_cmp", a, b), "qa": ("sym", "@a"), "qb": ("sym", "@b"), "pos": pos,
            "d2": lambda p, q: ("bin", "Add", *[("bin", "Mul", *[("bin", "Sub", ("fld", p, k), ("fld", q, k))] * 2) for k in "xy"]), "at": lambda p, i: call("at", p, i), "view": lambda v, p: call("view", v, p), "falses": lambda n: call("from_elem", c(False), n),
            "added": lambda p, *a: ("after", call("extend_remove_repeat", p, *a), 0), "shut": lambda p: ("after", call("set_is_closed", ("after", call("remove_last", p), 0), c(True)), 0),
            "new_pline": agg("adt", "Polyline", 0, "Polyline", (("vertex_data", EMPTY), ("is_closed", c(False)))), "shp": rec("Shape", "ccw_plines", "cw_plines", "plines_index")}


def boxes(rep, T, name, a, b, ix, ret=None):
    """a spatial index of the bounding boxes of the elements of list a followed by those of list b (`ix`: the index of element X)
    -> (name of the builder, headers, where the index is finished)"""
    key = "%s:%s" % (T.key, name)
    got = []
    for s in T.segs:
        for e in s.events:
            if e[0] == "mut" and e[2].endswith("add") and (s.start, e[1]) not in got:
                got.append((s.start, e[1]))
    found = []
    for h, bld in got:
        # one loop over both lists, one after the other
        x = sym.Env(dict(T.env.names))
        x.names["X"] = ("elem", call("chain", *[T.now(h, T.env.names[n]) for n in (a, b)]))
        want = T.cn(x.term("args({0}.min_x, {0}.min_y, {0}.max_x, {0}.max_y)".format("bx(%s)" % ix)))
        if any(s.start == h and any(e[0] == "mut" and T.cn(e[3]) == want for e in s.events) for s in T.segs):
            found = [(h, bld, want)] * 2
    for which in (a, b) if not found else ():
        for h, bld in got:
            x = sym.Env(dict(T.env.names))
            x.names["X"] = ("elem", T.now(h, T.env.names[which]))
            w = "bx(%s)" % ix
            want = T.cn(x.term("args({0}.min_x, {0}.min_y, {0}.max_x, {0}.max_y)".format(w)))
            if any(s.start == h and any(e[0] == "mut" and T.cn(e[3]) == want for e in s.events) for s in T.segs):
                found.append((h, bld, want))
                break
        else:
            rep.fail(key + ":missing", "%s, %s: the bounding boxes of %s are not added to a spatial index" % (T.where, name, which))
            return None
    (h1, b1, w1), (h2, b2, w2) = found
    if not rep.check(b1 == b2 and (h1 != h2 or found[0] is found[1]), key + ":one", "%s, %s: the bounding boxes of the two lists are not put into one index" % (T.where, name)):
        return None
    T.env.names["bld"] = b1
    for h, w in {(h1, w1), (h2, w2)}:
        T.used.add(h)
        n = 0
        for s in T.segs:
            if s.start != h or any(e[0] == "exhausted" for e in s.events) or s.end[0] == "panic":
                continue
            n += 1
            evs = [e for e in s.events if e[0] in ("mut", "push", "write", "insert")]
            rep.check(s.end == ("back", h) and [(e[0], e[1], T.cn(e[3])) for e in evs] == [("mut", b1, w)], key + ":box", "%s, %s: each box must be added once, but on the path [%s] it does %s" % (T.where, name, cut.short_facts(s, T.cn), [cut.show_event(e) for e in evs]))
        rep.check(n > 0, key + ":box:none", "%s, %s: no box is added" % (T.where, name))
    size = T.cn(T.env.term("new_(ln(0))"))
    for s in T.segs:
        if s.end[0] != "enter" or s.end[1] not in (h1, h2):
            continue
        x = T.value(s.vals, b1)
        if s.end[1] == h1:
            cn = lambda t: T.cn(call("len", T.now(h1, T.env.names[t])))
            rep.check(x is not None and x[0] == "call" and x[1] == "new" and s.ctx.equal(x[2][0], T.cn(("bin", "Add", cn(a), cn(b)))), key + ":size", "%s, %s: the index must be made for %s + %s elements, but starts as %s" % (T.where, name, a, b, sym.showt(x) if x else "?"))
        else:
            rep.check(s.start == h1 and any(e[0] == "exhausted" for e in s.events) and not any(e[0] == "mut" and e[1] == b1 for e in s.events), key + ":order", "%s, %s: the boxes of %s must be added after all those of %s [%s]" % (T.where, name, b, a, cut.short_facts(s, T.cn)))
    return h1, h2


def drop(T):
    """ways out that cannot be taken: an index of at least one vertex has bounds, and as many boxes as announced are added"""
    T.segs = [s for s in T.segs if s.end not in (("panic", "expect"), ("panic", "unwrap"))]


def initial(rep, T, name, **kw):
    """what a target is when the loops that change it are first entered (may depend on what other loops did)"""
    for v, init in kw.items():
        tg, w, n = T.env.names[v], T.cn(T.env.term(init)), 0
        for s in T.segs:
            x = T.value(s.vals, tg) if s.end[0] == "enter" else None
            if x is None or any(isinstance(y, tuple) and y and y[0] == "loop" and tuple(y[3]) == tuple(tg[1:]) for y in sym.subterms(x)):
                continue
            n += 1
            rep.check(x == w, "%s:%s:%s" % (T.key, name, v), "%s, %s: %s must start as %s, but is %s" % (T.where, name, v, init, sym.showt(x)))
        rep.check(n > 0, "%s:%s:%s:none" % (T.key, name, v), "%s, %s: %s has no initial content" % (T.where, name, v))


def result_lists(rep, T, ty="Shape"):
    """the two lists that end up in the result, named ccwr and cwr"""
    for s in T.segs:
        v = s.val
        if s.end[0] == "ret" and v is not None and v[0] == "agg":
            d = dict(v[5])
            if d.get("ccw_plines", ("?",))[0] == "loop" and d.get("cw_plines", ("?",))[0] == "loop":
                for n, k in (("ccwr", "ccw_plines"), ("cwr", "cw_plines")):
                    T.env.names[n] = ("local",) + tuple(d[k][3])
                return True
    rep.fail(T.key + ":result:missing", "%s: no result made of two lists that were filled" % T.where)
    return False


def check_from(rep, prog):
    f = method(prog, "from_plines")
    env = fenv(f, names(prog))
    T = cut.SegTable(rep, prog, f, Shaper(prog, OPQ, MODELS), env, key="from_plines", kinds=("push",))
    drop(T)
    if not T.ok or not result_lists(rep, T):
        return
    env.names["P"] = ("elem", ("sym", "plines"))
    T.table("polylines", ("push", "ccwr", "IP(P)"), [("not count(P) > 1", [], {"end": "back"}), ("count(P) > 1 and isccw(P)", [("push", "ccwr", "IP(P)")], {"end": "back"}), ("count(P) > 1 and not isccw(P)", [("push", "cwr", "IP(P)")], {"end": "back"})])
    T.start("lists", ccwr="E", cwr="E")
    hs = boxes(rep, T, "index", "ccwr", "cwr", "X.spatial_index")
    if hs:
        T.table("result", [hs[1]], [("", [], {"return.ccw_plines": "now(ccwr)", "return.cw_plines": "now(cwr)", "return.plines_index": "built(now(bld))"})], part="after")
    for t in ("ccwr", "cwr"):
        T.only("push", t, "lists")


def check_offset(rep, prog):
    f = method(prog, "parallel_offset")
    env = fenv(f, names(prog))
    env.FLOATS = env.FLOATS | {"offset"}
    I = Shaper(prog, OPQ, MODELS)
    T = cut.SegTable(rep, prog, f, I, env, key="shape_offset", kinds=("push", "write", "insert"))
    drop(T)
    if not T.ok:
        return
    env = T.env
    for n, l in (("A", "ccw_plines"), ("B", "cw_plines")):
        env.names["pl"] = ("elem", ("fld", ("sym", "self"), l))
        env.names[n] = ("elem", env.term("PO(pl.polyline, offset, opts(Some(pl.spatial_index), False, options.pos_equal_eps, options.slice_join_eps, options.offset_dist_eps))"))
    offsets(rep, T)
    check_pred(rep, prog, I.preds)
    return T


def offsets(rep, T):
    env = T.env
    for s in T.segs:
        for e in s.events:
            if e[0] == "push" and T.cn(("fld", ("fld", e[2], "indexed_pline"), "polyline")) == T.cn(env.names["A"]):
                v = s.ctx.lits.get(T.cn(env.term("neg(area(A))")))
                if v is not None:
                    env.names["cwl" if v else "ccwl"] = e[1]
    if not rep.check("cwl" in env.names and "ccwl" in env.names, "shape_offset:loops:missing", "%s: no offsets of the counter clockwise outlines are collected by orientation" % T.where):
        return
    env.names["count_"] = lambda v: ("iv", c(0), call("len", v))
    carried = lambda p: env.names[p][0] == "loop"
    for n, p, inverted in (("A", "pa", "pos_(offset) and neg(area(A))"), ("B", "pb", "neg(offset) and pos_(area(B))")):
        if not T.bind("loops " + n, ("push", "*", "OL(_%s, IP(%s))" % (p, n))):
            return
        x = "OL(%s, IP(%s))" % (p, n)
        T.table("loops " + n, ("push", "*", x), flat([("if", inverted, [], [("if", "neg(area(%s))" % n, [("push", "cwl", x)], [("push", "ccwl", x)])]), {"end": "back"}]))
        T.table("outlines " + n, ("push", "*", x), [("", [], {p: p + " + 1"} if carried(p) else {})], part="after")
    T.start("no loops", ccwl="E", cwl="E")
    for p, init, pos_ in (("pa", "0", "count_(self.ccw_plines)"), ("pb", "pa" if carried("pa") else "ln(self.ccw_plines)", "count_(self.cw_plines) + ln(self.ccw_plines)")):
        if carried(p):
            T.entry("outlines", **{p: init})
        else:
            rep.check(T.cn(env.names[p]) == T.cn(env.term(pos_)), "shape_offset:outlines:entry " + p, "%s: the outline a loop comes from is recorded as %s" % (T.where, sym.showt(env.names[p])))
    inner = T.headers(("push", "ccwl", "OL(pb, IP(B))"))
    T.table("no loops left", [s.end[1] for s in T.segs if s.start in inner and s.end[0] == "back" and s.end[1] not in inner][:1], [
        ("ln(now(ccwl)) + ln(now(cwl)) == 0", [], {"return": "shp(E, E, built(new_(0)))"}), ("ln(now(ccwl)) + ln(now(cwl)) != 0", [], {"goes": "enter"})], part="after")
    T.segs = [s for s in T.segs if not (s.end[0] == "ret" and not any(x[0] == "loop" for x in sym.subterms(s.val) if isinstance(x, tuple) and x))]
    pairs(rep, T)


def pairs(rep, T):
    """every two offset loops whose boxes meet are intersected once"""
    env = T.env
    hs = boxes(rep, T, "loops index", "ccwl", "cwl", "X.indexed_pline.spatial_index")
    if not hs or not T.bind("pairs", ("insert", "_vis", "pair(_i, _j)")):
        return
    h = [s.start for s in T.segs if any(e[0] == "insert" for e in s.events)][0]
    env.names["ccw0"], env.names["cw0"] = T.now(h, env.names["ccwl"]), T.now(h, env.names["cwl"])
    env.names["lix"] = ("fld", ("as", call("build", T.now(hs[1], env.names["bld"])), "Ok"), "0")
    env.names["total"] = env.term("ln(ccw0) + ln(cw0)")
    env.names["L1"], env.names["L2"] = env.term("pick(i, ccw0, cw0)"), env.term("pick(j, ccw0, cw0)")
    x = "bx(L1.indexed_pline.spatial_index)"
    env.names["qry"] = env.term("el(query(lix, {0}.min_x, {0}.min_y, {0}.max_x, {0}.max_y))".format(x))
    rep.check(T.cn(env.names["j"]) == T.cn(env.names["qry"]), "shape_offset:pairs:query", "%s: the loops a loop is compared with must be those whose boxes meet its own, but are %s" % (T.where, sym.showt(env.names["j"])))
    env.names["F"] = env.term("FI(L1.indexed_pline.polyline, L2.indexed_pline.polyline, fopts(Some(L1.indexed_pline.spatial_index), options.pos_equal_eps))")
    ins = ("insert", "vis", "pair(i, j)")
    T.table("pairs", ins, flat([("if", "i == j or has(now(vis), pair(j, i))", [{"end": "back"}], [ins, ("if", "ln(F.basic_intersects) == 0 and ln(F.overlapping_intersects) == 0", [{"end": "back"}], [{"goes": "enter"}])])]), index={"i": ("0", "total")})
    env.names["O"] = env.term("el(F.overlapping_intersects)")
    if not T.bind("overlaps", ("push", "_pts", "XP(O.start_index1, O.start_index2, O.point1)")):
        return
    ov = [("push", "pts", "XP(O.start_index1, O.start_index2, O.%s)" % k) for k in ("point1", "point2")]
    first = "E"
    if T.headers(("push", "pts", "el(F.basic_intersects)")):
        T.table("basic", ("push", "pts", "el(F.basic_intersects)"), [("", [("push", "pts", "el(F.basic_intersects)")], {"end": "back"})])
        T.table("basic done", ("push", "pts", "el(F.basic_intersects)"), [("", [], {"goes": "enter"})], part="after")
    else:
        env.names["all_of"] = lambda v: lst(many(v))
        first = "all_of(F.basic_intersects)"        # taken over at once
    T.table("overlaps", ov[0], [("", ov, {"end": "back"})])
    if not T.bind("record", ("push", "_sets", "SP(i, j, _pt)")) or not T.bind("lookup", ("push", "_lk", "at_(i, _where)")):
        return
    T.table("record", ov[0], [("", [("push", "lk", "at_(i, ln(now(sets)))"), ("push", "lk", "at_(j, ln(now(sets)))"), ("push", "sets", "SP(i, j, now(pts))")])], part="after")
    T.start("nothing recorded", vis="E", sets="E", lk="E")
    if first == "E":
        T.start("nothing recorded", pts="E")
    else:
        initial(rep, T, "crossings of a pair", pts=first)
    for k in ("sets", "lk", "pts"):
        T.only("push", k, "record")
    slices(rep, T)


def slices(rep, T):
    """every loop is cut where others cross it"""
    env = T.env
    if not T.bind("whole loop", ("push", "_sl", "DS(_l, whole(pick(_l, _ca, _cb).indexed_pline.polyline))")):
        return
    top = [h for h in T.headers(("write", "slot(ccwl, l)", "*", "*"))]
    if not rep.check(len(top) == 1, "shape_offset:untouched:missing", "%s: no loop is taken over as it is" % T.where):
        return
    top = top[0]
    for k in ("ccwl", "cwl", "lk", "sets"):
        env.names[k + "_"] = T.now(top, env.names[k])
    env.names["LP"] = env.term("pick(l, ccwl_, cwl_)")
    env.names["pl"] = env.term("LP.indexed_pline.polyline")
    env.names["G"] = env.term("get_(lk_, l)")
    env.names["W"] = env.term("whole(pl)")
    ok_ = lambda v: "ok_(%s, pl, LP.parent_loop_idx)" % v
    env.names["l2"] = env.term("l - ln(ccwl_)")
    if not result_lists(rep, T):
        return
    T.kinds = ("push", "write", "insert")
    T.table("untouched loops", [top], flat([("if", "some(G)", [{"goes": "enter"}], [("if", ok_("W"), [("if", "l < ln(ccwl_)", [("write", "slot(ccwl, l)", "*", "*"), ("push", "ccwr", "slot(ccwl, l).indexed_pline")], [("write", "slot(cwl, l2)", "*", "*"), ("push", "cwr", "slot(cwl, l2).indexed_pline")])]), {"end": "back"}])]), index={"l": ("0", "total")})
    if not T.bind("crossings", ("push", "_px", "DP(_sg, el(nth(sets_, el(payload(G))).slice_points).point)")):
        return
    env.names["S_"] = env.term("nth(sets_, el(payload(G)))")
    cross = lambda k: ("push", "px", "DP(el(S_.slice_points).start_index%d, el(S_.slice_points).point)" % k)
    sel = ("push", "px", "DP(sg, el(S_.slice_points).point)")
    T.table("crossings", sel, [("S_.loop_idx1 == l", [cross(1)], {"end": "back"}), ("S_.loop_idx1 != l and S_.loop_idx2 == l", [cross(2)], {"end": "back"}), ("S_.loop_idx1 != l and S_.loop_idx2 != l", "any")], cover=False)
    gather = list(T.headers(sel))
    n = 0
    for s in T.segs:
        if s.end[0] == "enter" and s.end[1] in gather:
            x = T.value(s.vals, env.names["px"])
            n += 1
            rep.check(x is not None and x == T.cn(EMPTY), "shape_offset:crossings:cleared", "%s: crossings of the loop before are left in the list on the path [%s]" % (T.where, cut.short_facts(s, T.cn)))
    rep.check(n > 0, "shape_offset:crossings:none", "%s: no crossings are collected" % T.where)
    if not T.bind("order", ("sort", "px", "_v", "_order")):
        return
    cases = [("qa.seg_idx < qb.seg_idx", "Less"), ("qa.seg_idx > qb.seg_idx", "Greater"), ("qa.seg_idx == qb.seg_idx", "tcmp(d2(qa.pos, pos(at(pl, qa.seg_idx))), d2(qb.pos, pos(at(pl, qa.seg_idx))))")]
    T.ordering("along the loop", cases, "px")
    env.names["X"] = env.term("v")
    env.names["S"] = call("sorted", env.names["v"], env.names["order"])
    T.table("one crossing", gather, flat([("if", "ln(now(px)) == 1", [("if", ok_("W"), [("push", "sl", "DS(l, W)")])], [{"goes": "enter"}])]), part="after")
    unsorted = [s for s in T.segs if s.start in gather and s.end[0] == "enter" and any(e[0] == "exhausted" for e in s.events) and not any(e[0] == "sort" for e in s.events)]
    rep.check(not unsorted, "shape_offset:order:skipped", "%s: slices are made of crossings that are not in order" % T.where)

    def piece(a, b):
        o = "cut_opt(pl, {0}.pos, {0}.seg_idx, {1}.pos, {1}.seg_idx, options.pos_equal_eps)".format(a, b)
        return "some(%s) and %s" % (o, ok_("payload(%s)" % o)), ("push", "sl", "DS(l, payload(%s))" % o)
    p = piece("nth(S, _k)", "nth(S, _k + 1)")[1]
    if not T.bind("neighbours", p):
        return
    cond, ev = piece("nth(S, k)", "nth(S, k + 1)")
    T.table("neighbours", ev, flat([("if", cond, [ev]), {"end": "back"}]), index={"k": ("0", "ln(S) - 1")})
    cond, last = piece("nth(S, ln(S) - 1)", "nth(S, 0)")
    T.table("last to first", ev, flat([("if", cond, [last])]), part="after")
    T.only("push", "sl", "slices")
    T.start("no slices", sl="E", ccwr="E", cwr="E")
    join(rep, T)


def join(rep, T):
    """slices whose ends meet are put together"""
    env = T.env
    adds = [(s.start, e[1]) for s in T.segs for e in s.events if e[0] == "mut" and e[2].endswith("add") and s.start not in T.used]
    if not rep.check(bool(adds), "shape_offset:starts:missing", "%s: the starts of the slices are not put into a spatial index" % T.where):
        return
    T.kinds = ("mut",)
    ok_ = False
    for h, b in adds:
        env.names["sl_"] = T.now(h, env.names["sl"])
        env.names["Z"] = env.term("el(sl_).v_data.updated_start")
        box = "args(Z.x - options.slice_join_eps, Z.y - options.slice_join_eps, Z.x + options.slice_join_eps, Z.y + options.slice_join_eps)"
        if h in T.headers(("mut", "*", ":add", box)) or len(adds) == 1:
            env.names["starts"], ok_ = b, True
            T.table("starts", [h], [("", [("mut", "starts", ":add", box)], {"end": "back"})])
            T.used.add(h)
            env.names["six"] = ("fld", ("as", call("build", T.now(h, b)), "Ok"), "0")
            initial(rep, T, "starts", starts="new_(ln(sl_))")
            break
    if not ok_:
        rep.fail("shape_offset:starts:missing", "%s: the boxes around the starts of the slices are not put into a spatial index" % T.where)
        return
    guards(rep, T, env.term("ln(sl_)"))
    T.kinds = ("push", "write")
    if not T.bind("slices", ("write", "slot(_seen, _i)", "*", "True"), where=lambda a: a["i"][0] in ("iv", "loop", "idxin")) or not T.bind("candidates", ("push", "_qr", "el(query(six, nth(sl_, _ci).v_data.end_point.x - options.slice_join_eps, _q2, _q3, _q4))")):
        return
    env.names["C"] = env.term("nth(sl_, ci)")
    q = env.names["Q"] = env.term("el(query(six, {0}.x - {1}, {0}.y - {1}, {0}.x + {1}, {0}.y + {1}))".format("C.v_data.end_point", "options.slice_join_eps"))
    sel = ("write", "slot(seen, i)", "*", "True")
    T.table("slices", sel, [("nth(now(seen), i)", [], {"end": "back"}), ("not nth(now(seen), i)", [sel], {"goes": "enter"})], index={"i": ("0", "ln(sl_)")})
    T.table("candidates", ("push", "qr", "Q"), [("not nth(now(seen), Q)", [("push", "qr", "Q")]), ("nth(now(seen), Q)", [])])
    initial(rep, T, "nothing joined", seen="falses(ln(sl_))")
    for s in T.segs:
        if s.end[0] == "enter" and s.end[1] in T.headers(("push", "qr", "Q")):
            x = T.value(s.vals, env.names["qr"])
            rep.check(x is None or x == T.cn(EMPTY), "shape_offset:candidates:cleared", "%s: candidates of the slice before are left in the list on the path [%s]" % (T.where, cut.short_facts(s, T.cn)))
    # the polyline being put together
    if not T.bind("joined", ("push", "ccwr", "IP(added(_cur, _what, _tol))")):
        return
    T.entry("start", cur="new_pline", ci="i")
    hq = list(T.headers(("push", "qr", "Q")))
    if not rep.check(len(hq) == 1, "shape_offset:candidates:missing", "%s: the slices starting where the current one ends are not gathered by one query" % T.where):
        return
    for k in ("ccwl", "cwl"):
        env.names[k + "_"] = T.now(hq[0], env.names[k])
    env.names["JP"] = env.term("added(cur, view(C.v_data, pick(C.source_idx, ccwl_, cwl_).indexed_pline.polyline), options.pos_equal_eps)")
    nocand = "ln(now(qr)) == 0"
    end = lambda x: [("if", "isccw(%s)" % x, [("push", "ccwr", "IP(%s)" % x)], [("push", "cwr", "IP(%s)" % x)])]
    T.table("end of a joined polyline", hq, flat([("if", nocand, [("if", "count(JP) > 2", end("shut(JP)"), end("JP"))], [{"goes": "enter"}])]), part="after")
    pick_ = [h for h in T.headers(("write", "slot(seen, el(_anyqr))", "*", "True"))]
    if not rep.check(bool(pick_), "shape_offset:next:missing", "%s: no candidate is chosen to go on with" % T.where):
        return
    same = "nth(sl_, el(now(qr))).source_idx == C.source_idx"
    T.table("next slice", pick_, [(same, [("write", "slot(seen, el(now(qr)))", "*", "True")], {"ci": "el(now(qr))", "cur": "JP"}), ("not (%s)" % same, [], {"end": "back"})])
    T.table("next slice otherwise", pick_, [("", [("write", "slot(seen, nth(now(qr), 0))", "*", "True")], {"ci": "nth(now(qr), 0)", "cur": "JP"})], part="after")
    for k in ("ccwr", "cwr"):
        T.only("push", k, "result")
    hs = boxes(rep, T, "result index", "ccwr", "cwr", "X.spatial_index")
    if hs:
        T.table("result", [hs[1]], [("", [], {"return.ccw_plines": "now(ccwr)", "return.cw_plines": "now(cwr)", "return.plines_index": "built(now(bld))"})], part="after")


def check_pred(rep, prog, preds):
    """a slice is kept when the middle of its first segment is far enough from every other outline"""
    for d, (fn, args, st, ix) in preds.items():
        if ix is None:
            check_pick(rep, prog, fn)
            continue
        # order of what decides: slice, polyline it is cut from, outline this comes from
        kind = [prog.tstr(fn.crate, fn.locals[i + 1][0]) for i in ix]
        rep.check(len(ix) == 3 and [("PlineViewData" in k, "Polyline" in k and "View" not in k, k == "usize") for k in kind] == [(True, False, False), (False, True, False), (False, False, True)], "shape_valid:args", "%s: decides by %s" % (fn.d, kind))
        s0 = st.copy()
        s0.facts = {}
        s0.events = ()
        s0.visits = {}
        a = list(args)
        for n, i in zip(("v_data", "offset_loop", "parent"), ix):
            a[i] = ("sym", n)
        env = sym.Env({**names(prog), "self": ("sym", "self"), "options": ("sym", "options"), "offset": ("sym", "offset"), "parent": ("sym", "parent"), "V": call("view", ("sym", "v_data"), ("sym", "offset_loop")),
                       "far": lambda p, k: call("point_ok", ("fld", p, "polyline"), ("sym", "offset"), ("fld", p, "spatial_index"), k, ("fld", ("sym", "options"), "pos_equal_eps"), ("fld", ("sym", "options"), "offset_dist_eps")), "mid": lambda a, b: call("seg_midpoint", a, b)})
        env.FLOATS = sym.Env({}).FLOATS if hasattr(sym.Env, "FLOATS") else set()
        T = cut.SegTable(rep, prog, fn, Shaper(prog, OPQ, MODELS), env, key="shape_valid", kinds=("push", "write", "insert"), args=a, st=s0)
        hs = list(dict.fromkeys(s.start for s in T.segs if s.start is not None))
        if not T.ok or not rep.check(len(hs) == 1, "shape_valid:loop", "%s: not one loop over the outlines" % T.where):
            continue
        ks = {k for s in T.segs for f_ in s.facts for k in sym.subterms(f_) if isinstance(k, tuple) and k and k[0] in ("idxin",)}
        if not rep.check(len(ks) == 1, "shape_valid:index", "%s: the outlines are not counted through" % T.where):
            continue
        env.names["k"] = ks.pop()
        far = lambda p: "far(%s, mid(at(V, 0), at(V, 1)))" % p
        go = [{"end": "back"}]
        T.table("outlines", hs, flat([("if", "k == parent", go, [("if", "k < ln(self.ccw_plines)", [("if", far("nth(self.ccw_plines, k)"), go, [{"return": "False"}])], [("if", far("nth(self.cw_plines, k - ln(self.ccw_plines))"), go, [{"return": "False"}])])])]),
                index={"k": ("0", "ln(self.ccw_plines) + ln(self.cw_plines)")})
        T.table("all far", hs, [("", [], {"return": "True"})], part="after")


def check_pick(rep, prog, fn):
    e = {n: a for n, a in zip(("i", "a", "b"), sym.argsyms(fn))}
    env = sym.Env({**e, "ln": lambda x: call("len", x), "nth": lambda v, i: ("index", v, i)})
    sym.check_table(rep, prog, fn, [("i < ln(a)", "nth(a, i)"), ("i >= ln(a)", "nth(b, i - ln(a))")], env, "i < ln(a) + ln(b)", I=LSym(prog), key="pick")


def check_build(rep, prog, serde, tier):
    check_from(rep, prog)


def check_parallel(rep, prog, serde, tier):
    check_offset(rep, prog)
