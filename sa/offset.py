"""Parallel offset: raw offset segments and their joins (C25)."""
import absint as A
import cut
import sym
import lists
from absint import Out, c, agg, some, NONE
from boolean import getfn, MAPM
from cut import flat, match, target
from lists import lst, one, many, EMPTY
from tables import fenv, call, conj

OFF = "cavalier_contours::polyline::internal::pline_offset::"
EPS0 = ("call", "fuzzy_epsilon", ())
pos = lambda v: agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))
V2 = lambda x, y: agg("adt", "Vector2", 0, "Vector2", (("x", x), ("y", y)))
PV = lambda x, y, b: agg("adt", "PlineVertex", 0, "PlineVertex", (("x", x), ("y", y), ("bulge", b)))


def m_edit(name, shape):
    """an edit of a polyline: the event and the new value name the vertex written, however it is passed"""
    def h(I, fn, fr, b, t, st, args, stack):
        ts = [I.term(a, st) for a in args]
        tg = target(I, st, args[0])
        root, proj = I.deref(st, args[0])
        ts[0] = I.term(I.read(st, root, proj), st)
        if shape == "pre":                          # (x, y, bulge, ...)
            ts = [ts[0], PV(*ts[1:4])] + ts[4:]
        elif shape == "index":                      # (index, x, y, bulge)
            ts = [ts[0], ts[1], PV(*ts[2:5])]
        I.event(st, "mut", tg, name, ("call", "args", tuple(ts[1:])))
        I.write(st, root, proj, ("call", name, tuple(ts)))
        return iter([Out("ret", A.UNIT, st)])
    return h


EDITS = {}
for _n, _to, _s in (("add_or_replace", "put", "pre"), ("add_or_replace_vertex", "put", ""), ("add", "append", "pre"), ("add_vertex", "append", ""), ("set", "assign", "index"),
                    ("set_vertex", "assign", ""), ("set_last", "assign_last", ""), ("remove_last", "cut_last", ""), ("remove", "cut", ""), ("clear", "wipe", "")):
    EDITS["PlineSourceMut::" + _n] = EDITS["plinesourcemut::" + _n] = m_edit(_to, _s)

def m_join(name):
    def h(I, fn, fr, b, t, st, args, stack):
        i = [k for k, a in enumerate(t["args"]) if I.prog.operand_ty(fn, a).get("mut")][-1:]
        if not i:
            return NotImplemented
        root, proj = I.deref(st, args[i[0]])
        old = I.term(I.read(st, root, proj), st)
        ts = tuple(I.term(I.read(st, *I.deref(st, a)) if a[0] == "ref" else a, st) for k, a in enumerate(args) if k != i[0])
        I.event(st, "mut", target(I, st, args[i[0]]), name, ("call", "args", ts))
        I.write(st, root, proj, ("call", "joined", (old,) + ts))     # which join it is shows in the event
        return iter([Out("ret", A.UNIT, st)])
    return h


JOINS = {"pline_offset::" + n: m_join(n) for n in ("line_line_join", "line_arc_join", "arc_line_join", "arc_arc_join")}
GEOM = ("seg_arc_radius_and_center", "point_within_arc_sweep", "line_circle_intr", "circle_circle_intr", "line_line_intr", "math::delta_angle", "delta_angle_signed", "math::angle", "bulge_from_angle", "last", "base_math::angle",
        "base_math::delta_angle")
MODELS = {**MAPM, **EDITS}


JMODELS = {**MODELS, **JOINS}
EDITED = ("joined", "append", "put", "assign", "assign_last", "cut", "cut_last", "wipe")


def names(prog):
    e = {}
    for p, adt in (("ll", "LineLineIntr"), ("lc", "LineCircleIntr"), ("cc", "CircleCircleIntr")):
        vs = [v[0] for v in [a for d, a in prog.adts.items() if d.endswith("::" + adt)][0]["vars"]]
        for i, n in enumerate(vs):
            e["%s_%s" % (p, n)] = lambda x, i=i: ("eq", ("discr", x), c(i))
            e["%s_as_%s" % (p, n)] = lambda x, f, n=n: ("fld", ("as", x, n), f[1])
    for k in ("t0", "t1", "seg1_t", "seg2_t", "point", "point1", "point2"):
        e["q" + k] = ("const", k)
    s1, s2 = ("sym", "s1"), ("sym", "s2")
    e.update({"v1": ("fld", s1, "v1"), "v2": ("fld", s1, "v2"), "u1": ("fld", s2, "v1"), "u2": ("fld", s2, "v2"), "corner": ("fld", s1, "orig_v2_pos"), "eps": ("fld", ("sym", "params"), "pos_equal_eps"), "ccw": ("fld", ("sym", "params"), "connection_arcs_ccw"),
              "pos": pos, "V": V2, "PV": PV, "feq": sym.feq, "eps0": EPS0, "args": lambda *xs: call("args", *xs), "same": lambda a, b, ep: call("veq", a, b, ep),
              "angle": lambda a, b: call("angle", a, b), "sweep": lambda a, b: call("delta_angle", a, b), "sweep_s": lambda a, b, n: call("delta_angle_signed", a, b, n), "bulge_of": lambda a: call("bulge_from_angle", a),
              "rad": lambda a, b: ("fld", call("seg_arc_radius_and_center", a, b), "0"), "ctr": lambda a, b: ("fld", call("seg_arc_radius_and_center", a, b), "1"), "last_": lambda p: ("fld", ("as", call("last", p), "Some"), "0"),
              "on_arc": lambda c_, a, b, p, ep: call("point_within_arc_sweep", c_, pos(a), pos(b), ("flt", ("fld", a, "bulge"), c(0)), p, ep),
              "LL": lambda *a: call("line_line_intr", *[pos(x) for x in a], ("fld", ("sym", "params"), "pos_equal_eps")), "LC": lambda a, b, r, z: call("line_circle_intr", pos(a), pos(b), r, z, ("fld", ("sym", "params"), "pos_equal_eps")),
              "CC": lambda *a: call("circle_circle_intr", *a, ("fld", ("sym", "params"), "pos_equal_eps"))})
    return e


put = lambda v: ("mut", "result", ":put", "args(%s, eps)" % v)
ARC = [put("PV(v2.x, v2.y, bulge_of(sweep_s(angle(corner, pos(v2)), angle(corner, pos(u1)), not ccw)))"), put("PV(u1.x, u1.y, u1.bulge)")]
LINE = [put("PV(v2.x, v2.y, 0)"), put("PV(u1.x, u1.y, u1.bulge)")]
along = lambda a, b, t: "V({a}.x + ({b}.x - {a}.x) * {t}, {a}.y + ({b}.y - {a}.y) * {t})".format(a=a, b=b, t=t)
d2 = lambda p, a: "(({p}.x - {a}.x) * ({p}.x - {a}.x) + ({p}.y - {a}.y) * ({p}.y - {a}.y))".format(p=p, a=a)


def joiner(rep, prog, name, pre, defs, spec, key, opq=GEOM):
    f = getfn(prog, name)
    env = fenv(f, names(prog))
    env.FLOATS = env.FLOATS | {"x", "y", "bulge", "t0", "t1", "seg1_t", "seg2_t"}
    for k, d in defs:
        env.names[k] = env.term(d)
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, opq, MODELS), env, key=key, kinds=("mut",), pre=pre)
    T.segs = [s for s in T.segs if s.end != ("panic", "unwrap")]      # an empty result has no last vertex: the callers' business
    T.table("join", [None], flat(spec), part="all")
    return T


def trim_last(th):
    """the arc already added before the corner is trimmed to end at the joining point (its sweep is then th)"""
    return ("if", "not feq(prev.bulge, 0.0, eps0) and not same(pos(prev), pos(v2), eps) and ({0} > 0 and prev.bulge > 0 or not {0} > 0 and not prev.bulge > 0)".format(th),
            [("mut", "result", ":assign_last", "args(PV(prev.x, prev.y, bulge_of(%s)))" % th)])


def start_arc(p, th):
    """the second arc starts at p (its sweep is then th)"""
    return ("if", "{0} > 0 and u1.bulge > 0 or not {0} > 0 and not u1.bulge > 0".format(th), [put("PV({0}.x, {0}.y, bulge_of({1}))".format(p, th))], [put("PV({0}.x, {0}.y, u1.bulge)".format(p))])


def check_joins(rep, prog, serde, tier):
    line = lambda v: "feq(%s.bulge, 0.0, eps0)" % v
    # line to line
    joiner(rep, prog, "line_line_join", conj(line("v1"), line("u1")), [
        ("X", "LL(v1, v2, u1, u2)"), ("f1", "ll_as_FalseIntersect(X, qseg1_t)"), ("f2", "ll_as_FalseIntersect(X, qseg2_t)"), ("t", "ll_as_TrueIntersect(X, qseg1_t)"), ("p", along("v1", "v2", "t"))], [
        ("if", "s1.collapsed_arc or s2.collapsed_arc", ARC, match("X", {
            "ll_NoIntersect(X)": [("if", "ccw", [put("PV(v2.x, v2.y, 1)")], [put("PV(v2.x, v2.y, -1)")]), put("PV(u1.x, u1.y, u1.bulge)")],
            "ll_TrueIntersect(X)": [put("PV(p.x, p.y, 0)")],
            "ll_Overlapping(X)": [put("PV(v2.x, v2.y, 0)")],
            "ll_FalseIntersect(X)": [("if", "f1 > 1 and (f2 < 0 or f2 > 1)", ARC, LINE)]}))], "line-line")

    def lc(a, b):
        return [(k, "lc_as_%s(X, q%s)" % (v, f)) for k, v, f in (("t", "TangentIntersect", "t0"), ("t0", "TwoIntersects", "t0"), ("t1", "TwoIntersects", "t1"))] + [(p, along(a, b, t)) for p, t in (("p", "t"), ("p0", "t0"), ("p1", "t1"))]
    pts = (("t", "p"), ("t0", "p0"), ("t1", "p1"))
    # line to arc
    defs = [("Z", "ctr(u1, u2)"), ("X", "LC(v1, v2, rad(u1, u2), Z)")] + lc("v1", "v2") + [("h" + t, "sweep(angle(Z, %s), angle(Z, pos(u2)))" % p) for t, p in pts]

    def la(t, p):
        on = "on_arc(Z, u1, u2, %s, eps)" % p
        return [("if", "not {0} < 0 and not {0} > 1 and {1}".format(t, on), [start_arc(p, "h" + t)], [("if", "%s > 1 and not %s or s1.collapsed_arc" % (t, on), ARC, LINE)])]
    near = lambda at: "%s < %s" % (d2("p0", at), d2("p1", at))
    joiner(rep, prog, "line_arc_join", conj(line("v1"), "not " + line("u1")), defs, match("X", {
        "lc_NoIntersect(X)": ARC, "lc_TangentIntersect(X)": la("t", "p"), "lc_TwoIntersects(X)": [("if", near("corner"), la("t0", "p0"), la("t1", "p1"))]}), "line-arc")
    # arc to line
    prev = [("prev", "last_(result)"), ("W", "angle(ctr(prev, v2), pos(prev))")]
    defs = [("Z", "ctr(v1, v2)"), ("X", "LC(u1, u2, rad(v1, v2), Z)")] + prev + lc("u1", "u2") + [("h" + t, "sweep(W, angle(Z, %s))" % p) for t, p in pts]

    def al(t, p):
        return [("if", "not {0} < 0 and not {0} > 1 and on_arc(Z, v1, v2, {1}, eps)".format(t, p), [trim_last("h" + t), put("PV({0}.x, {0}.y, 0)".format(p))], ARC)]
    two = lambda at: [("if", near(at), al("t0", "p0"), al("t1", "p1"))]
    joiner(rep, prog, "arc_line_join", conj("not " + line("v1"), line("u1")), defs, match("X", {
        "lc_NoIntersect(X)": ARC, "lc_TangentIntersect(X)": al("t", "p"), "lc_TwoIntersects(X)": [("if", "s2.collapsed_arc", two("u1"), two("corner"))]}), "arc-line")
    # arc to arc
    pts = ("p", "p0", "p1")
    defs = [("Z1", "ctr(v1, v2)"), ("Z2", "ctr(u1, u2)"), ("X", "CC(rad(v1, v2), Z1, rad(u1, u2), Z2)")] + prev + [
        (k, "cc_as_%s(X, q%s)" % (v, f)) for k, v, f in (("p", "TangentIntersect", "point"), ("p0", "TwoIntersects", "point1"), ("p1", "TwoIntersects", "point2"))] + [
        ("g" + p, "sweep(W, angle(Z1, %s))" % p) for p in pts] + [("h" + p, "sweep(angle(Z2, %s), angle(Z2, pos(u2)))" % p) for p in pts]
    on = lambda p: "on_arc(Z1, v1, v2, {0}, eps) and on_arc(Z2, u1, u2, {0}, eps)".format(p)
    hit = lambda p: [trim_last("g" + p), start_arc(p, "h" + p)]
    aa = lambda p: [("if", on(p), hit(p), ARC)]
    joiner(rep, prog, "arc_arc_join", conj("not " + line("v1"), "not " + line("u1")), defs, match("X", {
        "cc_NoIntersect(X)": ARC, "cc_TangentIntersect(X)": aa("p"), "cc_Overlapping(X)": [put("PV(u1.x, u1.y, u1.bulge)")],
        "cc_TwoIntersects(X)": [("if", "feq(%s, %s, eps)" % (d2("p0", "corner"), d2("p1", "corner")), [("if", on("p0"), hit("p0"), aa("p1"))], [("if", near("corner"), aa("p0"), aa("p1"))])]}), "arc-arc")


def check_raw(rep, prog, serde, tier):
    """the raw offset polyline: which pieces are joined, in which order, and how the two ends of a closed one meet"""
    f = getfn(prog, "pline_offset::create_raw_offset_polyline")
    pl, off, eps = ("sym", "polyline"), ("sym", "offset"), ("sym", "pos_equal_eps")
    S = call("create_untrimmed_raw_offset_segs", pl, off)
    J = agg("adt", "JoinParams", 0, "JoinParams", (("connection_arcs_ccw", ("flt", off, c(0))), ("pos_equal_eps", eps)))
    e = names(prog)
    e.update({"n": call("vertex_count", pl), "closed": call("is_closed", pl), "S": S, "ln": lambda x: call("len", x), "nth": lambda l, i: ("index", l, i), "J": J, "eps": eps, "count": lambda p: call("vertex_count", p), "at": lambda p, i: call("at", p, i),
              "last": lambda p: ("fld", ("as", call("last", p), "Some"), "0"), "some": lambda p: ("eq", ("discr", call("last", p)), c(1)), "assigned": lambda p, v: call("assign", p, c(0), v), "cut_last": lambda p: call("cut_last", p), "cut": lambda p: call("cut", p, c(0)),
              "wiped": lambda p: call("wipe", p), "putx": lambda p, v: call("put", p, v, eps), "jd": lambda p, a, b: call("joined", p, a, b, J), "ap": lambda p, v: call("append", p, v), "zero": lambda b: sym.feq(b, c(0), EPS0), "bend": lambda a, b: call("bulge_from_angle", sweep(a, b)),
              "is_one": lambda x: ("eq", x, c(1))})
    ctr = lambda p: ("fld", call("seg_arc_radius_and_center", call("at", p, c(0)), call("at", p, c(1))), "1")
    sweep = lambda p, q: call("delta_angle", call("angle", ctr(p), pos(q)), call("angle", ctr(p), pos(call("at", p, c(1)))))
    e["sweep"] = sweep
    env = fenv(f, e)
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, ("seg_arc_radius_and_center", "last", "at", "delta_angle", "angle", "bulge_from_angle", "create_untrimmed_raw_offset_segs"), JMODELS), env, key="raw", kinds=("mut",))
    if not T.bind("result", ("mut", "_result", ":append", "args(nth(S, 0).v1)")):
        return T

    def join(tgt, a, b):
        k = {(x, y): [("mut", tgt, ":%s_%s_join" % (x, y), "args(%s, %s, J)" % (a, b))] for x in ("line", "arc") for y in ("line", "arc")}
        return ("if", "zero(%s.v1.bulge)" % a, [("if", "zero(%s.v1.bulge)" % b, k["line", "line"], k["line", "arc"])], [("if", "zero(%s.v1.bulge)" % b, k["arc", "line"], k["arc", "arc"])])
    go = {"goes": "enter"}
    T.segs = [s for s in T.segs if not (s.end == ("panic", "unwrap"))]
    none = {"return": "empty"}
    env.names["empty"] = call("with_capacity", c(0), c(False))
    T.table("start", [None], flat([("if", "n < 2", [none]), ("if", "ln(S) == 0", [none]), ("if", "ln(S) == 1 and nth(S, 0).collapsed_arc", [none]), ("mut", "result", ":append", "args(nth(S, 0).v1)"), ("if", "ln(S) > 1", [join("result", "nth(S, 0)", "nth(S, 1)")]), go]), part="all")
    sel = ("mut", "result", ":line_line_join", "args(nth(S, _i), _s2, J)")
    loop = lambda a: a["i"][0] != "c"
    idx = {"i": ("1", "ln(S) - 1")}
    T.table("neighbours", sel, flat([join("result", "nth(S, i)", "nth(S, i + 1)")]), index=idx, export=("i",), where=loop)
    env.names["start"] = call("with_capacity", c(0), call("is_closed", pl))
    firsts = [x for x in T.base(env.names["result"], EDITED)]
    rep.check(firsts and all(x[0] == "call" and x[1] == "with_capacity" and x[2][1] == call("is_closed", pl) for x in firsts), "raw:result", "%s: the result must start as an empty polyline that is closed exactly if the input is, but starts as %s" % (T.where, [sym.showt(x) for x in firsts]))
    hs = [h for h, bs in T.headers(sel).items() if any(loop(a) for a in bs)]
    if not hs or not T.bind("closing", ("mut", "_closing", ":append", "args(_v)"), where=lambda a: a["closing"] != env.names["result"]):
        return T
    env.names["R1"] = T.now(hs[0], env.names["result"])
    env.names["CL"] = env.term("jd(ap(empty, last(R1)), nth(S, ln(S) - 1), nth(S, 0))")
    wipe = lambda r: ("if", "count(%s) == 1" % r, [("mut", "result", ":wipe", "args()"), {"return": "wiped(%s)" % r}], [{"return": r}])
    T.table("ends", sel, flat([("if", "closed and count(R1) > 1", [("mut", "closing", ":append", "args(last(R1))"), join("closing", "nth(S, ln(S) - 1)", "nth(S, 0)"), ("mut", "result", ":assign_last", "args(at(CL, 0))"), go],
                                [("mut", "result", ":put", "args(nth(S, ln(S) - 1).v2, eps)"), wipe("putx(R1, nth(S, ln(S) - 1).v2)")])]), part="after", where=loop)
    if not T.entered("replaced", "is_one(count(jd(ap(start, nth(S, 0).v1), nth(S, 0), nth(S, 1))))"):
        return T
    T.entry("first vertex", replaced=[("ln(S) > 1", "is_one(count(jd(ap(start, nth(S, 0).v1), nth(S, 0), nth(S, 1))))"), ("not ln(S) > 1", "is_one(count(ap(start, nth(S, 0).v1)))")])
    sel = ("mut", "result", ":append", "args(at(CL, _i))")
    idx = {"i": ("1", "count(CL)")}
    T.table("closing vertexes", sel, [("", [("mut", "result", ":append", "args(at(CL, i))")], {"end": "back"})], index=idx)
    hs = [h for h, bs in T.headers(sel).items() if any(a["i"][0] != "c" for a in bs)]
    if not hs:
        return T
    env.names["R"] = T.now(hs[0], env.names["result"])
    near = lambda a, b: "same(pos(%s), pos(%s), eps)" % (a, b)
    front = lambda r: ("if", "count({0}) > 1 and {1}".format(r, near("at(%s, 0)" % r, "at(%s, 1)" % r)), [("mut", "result", ":cut", "args(0)"), wipe("cut(%s)" % r)], [wipe(r)])
    tail = lambda r: [("if", "count({0}) > 1".format(r), [("if", near("at(%s, 0)" % r, "last(%s)" % r), [("mut", "result", ":cut_last", "args()"), front("cut_last(%s)" % r)], [front(r)])], [wipe(r)])]
    put0 = lambda b: [("mut", "result", ":assign", "args(0, PV(last(CL).x, last(CL).y, %s))" % b)] + tail("assigned(R, PV(last(CL).x, last(CL).y, %s))" % b)
    keep, th = "at(R, 0).bulge", "sweep(R, last(CL))"
    T.table("meeting", sel, flat([("if", "replaced", tail("R"), [("if", "zero(%s)" % keep, put0(keep), [("if", "count(R) > 1", [
        ("if", "({0} < 0 and {1} > 0) or ({0} > 0 and {1} < 0)".format(th, keep), put0(keep), put0("bulge_of(%s)" % th))], tail("R"))])])]), part="after", index=idx, cover=False)
    return T


def check_pieces(rep, prog, serde, tier):
    """the untrimmed offset of every segment"""
    f = getfn(prog, "pline_offset::create_untrimmed_raw_offset_segs")
    pl, off = ("sym", "polyline"), ("sym", "offset")
    e = names(prog)
    nx = lambda i: call("next_wrapping_index", pl, i)
    piece = lambda a, b, o, cl: agg("adt", "RawPlineOffsetSeg", 0, "RawPlineOffsetSeg", (("v1", a), ("v2", b), ("orig_v2_pos", o), ("collapsed_arc", cl)))
    e.update({"at": lambda i: call("at", pl, i), "nx": nx, "piece": piece, "sqrt": lambda x: call("sqrt", x), "low": lambda x: call("fuzzy_lt_eps", x, c(0), EPS0), "True": A.TRUE if hasattr(A, "TRUE") else c(True), "False": c(False), "E": EMPTY, "segs": call("segment_count", pl)})
    env = fenv(f, e)
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, ("seg_arc_radius_and_center", "segment_count", "next_wrapping_index", "at", "sqrt"), MODELS), env, key="pieces", kinds=("push", "mut"))
    T.segs = [s for s in T.segs if not (s.end[0] == "panic" and s.end[1] != "unwrap")]      # the debug assertion on the capacity of the result
    line = lambda d, p: "PV({0}.x - ({1}.y - {2}.y) / sqrt({3}) * offset, {0}.y + ({1}.x - {2}.x) / sqrt({3}) * offset, 0)".format(p, "at(nx(i))", "at(i)", d)
    Z = "ctr(at(i), at(nx(i)))"
    arc = lambda p, offs, b: "PV({0}.x + ({0}.x - {1}.x) / sqrt({2}) * {3}, {0}.y + ({0}.y - {1}.y) / sqrt({2}) * {3}, {4})".format(p, Z, d2(p, Z), offs, b)
    push = lambda a, b, cl: [("push", "out", "piece(%s, %s, pos(at(nx(i))), %s)" % (a, b, cl))]
    if not T.bind("out", ("push", "_out", "piece(_a, _b, pos(at(nx(_i))), _c)")):
        return T
    bent = lambda offs: [("if", "low(rad(at(i), at(nx(i))) + %s)" % offs, push(arc("at(i)", offs, "0"), arc("at(nx(i))", offs, "at(nx(i)).bulge"), "yes"), push(arc("at(i)", offs, "at(i).bulge"), arc("at(nx(i))", offs, "at(nx(i)).bulge"), "no"))]
    env.names.update({"yes": c(True), "no": c(False)})
    sel = ("push", "out", "piece(_a, _b, pos(at(nx(_i))), _c)")
    idx = {"i": ("0", "segs")}
    D = d2("at(nx(i))", "at(i)")
    T.table("each segment", sel, flat([("if", "feq(at(i).bulge, 0.0, eps0)", push(line(D, "at(i)"), line(D, "at(nx(i))"), "no"), [("if", "at(i).bulge < 0", bent("offset"), bent("(-offset)"))])]), export=("i",), index=idx)
    T.table("all segments", sel, [("", [], {"return": "now(out)"})], part="after", index=idx)
    T.start("no piece yet", out="E")
    T.only("push", "out", "pieces")
    return T


def check_trace(rep, prog, serde, tier):
    check_pieces(rep, prog, serde, tier)
    check_raw(rep, prog, serde, tier)
