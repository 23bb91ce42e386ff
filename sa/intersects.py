"""Self intersects (C10) and intersects between two polylines (C19)."""
import absint as A
import cut
import sym
import lists
from absint import c, agg, some, NONE
from boolean import getfn, MAPM
from cut import flat, match
from lists import LSym, lst, one, many, EMPTY
from tables import fenv, call, conj

MOD = "cavalier_contours::polyline::internal::pline_intersects::"
EPS = ("sym", "pos_equal_eps")
MODELS = {**MAPM, **cut.VISITOR, **cut.SETS}
OPQ = ("pline_seg_intr", "fuzzy_eq", "continuing", "next_wrapping_index", "create_approx_aabb_index", "seg_fast_approx_bounding_box")
VARIANTS = ("NoIntersect", "TangentIntersect", "OneIntersect", "TwoIntersects", "OverlappingLines", "OverlappingArcs")
pos = lambda v: agg("adt", "Vector2", 0, "Vector2", (("x", ("fld", v, "x")), ("y", ("fld", v, "y"))))


def variants(prog):
    ad = [a for d, a in prog.adts.items() if d.endswith("::PlineSegIntr")][0]
    return [v[0] for v in ad["vars"]]


def base(prog, pl):
    vs = variants(prog)
    assert set(vs) == set(VARIANTS), vs
    at = lambda i: call("at", pl, i)
    rec = lambda n: (lambda i, j, *ps: agg("adt", n, 0, n, (("start_index1", i), ("start_index2", j)) + ((("point", ps[0]),) if len(ps) == 1 else (("point1", ps[0]), ("point2", ps[1])))))
    e = {"is%d" % k: (lambda x, k=k: ("eq", ("discr", x), c(vs.index(VARIANTS[k])))) for k in range(6)}
    e.update({"p%d_%s" % (k, f): (lambda x, k=k, f=f: ("fld", ("as", x, VARIANTS[k]), f)) for k in range(6) for f in ("point", "point1", "point2")})
    e.update({"at": at, "pos": pos, "B": rec("PlineBasicIntersect"), "O": rec("PlineOverlappingIntersect"), "intr": lambda *v: call("pline_seg_intr", *v, EPS), "eps": EPS,
              "same": lambda p, q: call("veq", p, q, EPS), "args": lambda *xs: call("args", *xs), "stop": lambda a: call("should_break", a), "el": lambda m: ("elem", m),
              "continuing": lambda: call("continuing"), "ln": lambda x: call("len", x), "got": lambda s, k: call("has", s, k), "T": lambda a, b: A.tup(a, b), "feq": lambda a, b: ("call", "core::traits::fuzzy_eq::FuzzyEq::fuzzy_eq", (a, b))})
    return e


def visit(kind, rec, leave):
    """the visitor gets `rec`; if it asks to stop, `leave` happens"""
    def f(st):
        n = st.get("n", 0)
        st["n"] = n + 1
        return [("mut", "visitor", ":visit_%s_intr" % kind, "args(%s)" % rec), ("if", "stop(answer(%d))" % n, leave(n))]
    return f


def dispatch(x, basic, overlap):
    """by kind of intersection between two segments: basic(point) / overlap(point1, point2) -> steps"""
    return match(x, {"is0(%s)" % x: [], "is1(%s)" % x: basic("p1_point(%s)" % x), "is2(%s)" % x: basic("p2_point(%s)" % x),
                     "is3(%s)" % x: basic("p3_point1(%s)" % x) + basic("p3_point2(%s)" % x),
                     "is4(%s)" % x: overlap("p4_point1(%s)" % x, "p4_point2(%s)" % x), "is5(%s)" % x: overlap("p5_point1(%s)" % x, "p5_point2(%s)" % x)})


def check_local(rep, prog):
    f = getfn(prog, "visit_local_self_intersects")
    pl = ("sym", "polyline")
    env = fenv(f, base(prog, pl))
    n = "vertex_count(polyline)"
    env.names["closed"] = call("is_closed", pl)
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, OPQ, MODELS), env, key="local", kinds=("mut",))
    leave = lambda k: [{"return": "answer(%d)" % k}]

    def pair(i, j, k):
        x = "intr(at(%s), at(%s), at(%s), at(%s))" % (i, j, j, k)
        basic = lambda p: [("if", "same(%s, pos(at(%s)))" % (p, j), [], [visit("basic", "B(%s, %s, %s)" % (i, j, p), leave)])]
        over = lambda p, q: [visit("overlapping", "O(%s, %s, %s, %s)" % (i, j, p, q), leave)]
        return [("if", "same(pos(at({0})), pos(at({1})))".format(i, j), over("pos(at(%s))" % i, "pos(at(%s))" % j), dispatch(x, basic, over))]
    two = [("if", "closed and feq(at(0).bulge, -at(1).bulge)", [("mut", "visitor", ":visit_overlapping_intr", "args(O(0, 1, pos(at(0)), pos(at(1))))"), {"return": "answer(0)"}], [{"return": "continuing()"}])]
    T.table("few vertexes", [None], [(conj(n + " < 2"), [], {"return": "continuing()"})] + [(conj(n + " == 2", x), *y) for x, *y in flat(two)] + [(n + " > 2", "any")], part="all")
    T.table("neighbours", ("mut", "visitor", ":visit_basic_intr", "args(B(_a, _b, p2_point(intr(_c, _d, _e, at(_i)))))"), flat(pair("i - 2", "i - 1", "i") + [{"end": "back"}]), index={"i": ("2", n)}, export=("i",))
    T.table("closing", ("mut", "visitor", ":visit_basic_intr", "*"), flat([("if", "closed", pair(n + " - 2", n + " - 1", "0") + pair(n + " - 1", "0", "1")), {"return": "continuing()"}]), part="after", index={"i": ("2", n)})
    T.only("mut", "visitor", "visits")


def check_global(rep, prog):
    f = getfn(prog, "visit_global_self_intersects")
    pl, ix = ("sym", "polyline"), ("sym", "aabb_index")
    env = fenv(f, base(prog, pl))
    box = ("elem", call("item_boxes", ix))
    q = call("query", ix, *[("bin", o, ("fld", box, k), EPS) for k, o in (("min_x", "Sub"), ("min_y", "Sub"), ("max_x", "Add"), ("max_y", "Add"))])
    env.names.update({"i": ("elem", call("item_indices", ix)), "hit": ("elem", q), "nxt": lambda i: call("next_wrapping_index", pl, i), "query": lambda *a: call("query", *a)})
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, OPQ, MODELS), env, key="global", kinds=("mut", "insert"))
    leave = lambda k: [{"return": "answer(%d)" % k}]
    ends = lambda p: "same(pos(at(nxt(i))), %s) and same(pos(at(nxt(hit))), %s)" % (p, p)
    basic = lambda p: [("if", ends(p), [], [visit("basic", "B(i, hit, %s)" % p, leave)])]
    over = lambda p, q: [("if", ends(p), [], [visit("overlapping", "O(i, hit, %s, %s)" % (p, q), leave)])]
    T.table("few vertexes", [None], [("vertex_count(polyline) < 3", [], {"return": "continuing()"}), ("vertex_count(polyline) == 3", "any"), ("vertex_count(polyline) > 3", [], {"goes": "enter"})], part="all")
    if not T.bind("pairs", ("insert", "_set", "T(i, hit)")):
        return
    T.table("pairs of segments", ("insert", "set", "T(i, hit)"), flat([
        ("if", "i == hit or i == nxt(hit) or nxt(i) == hit", [{"end": "back"}]), ("if", "nxt(i) == nxt(hit)", ["any"]),
        ("if", "got(now(set), T(hit, i))", [{"end": "back"}]),
        ("insert", "set", "T(i, hit)")] + dispatch("intr(at(i), at(nxt(i)), at(hit), at(nxt(hit)))", basic, over) + [{"end": "back"}]))
    if T.carrier("cf", "answer(0)"):
        T.table("next segment", ("insert", "set", "T(i, hit)"), [("stop(cf)", [], {"return": "cf"}), ("not stop(cf)", [], {"goes": "back"})], part="after", cover=False)
        for w in T.outer(env.names["cf"]):
            env.names["cf_"] = w
            T.entry("answer", cf_="continuing()")
            T.ends("result", w[2], [("", "cf_")])
    T.only("mut", "visitor", "visits")
    T.only("insert", "set", "visited pairs")


def check_find(rep, prog):
    f = getfn(prog, MOD + "find_intersects")
    p1, p2 = ("sym", "pline1"), ("sym", "pline2")
    e = base(prog, p1)
    eps = ("fld", ("sym", "options"), "pos_equal_eps")
    bb = lambda i: call("seg_fast_approx_bounding_box", call("at", p2, i), call("at", p2, call("next_wrapping_index", p2, i)))
    e.update({"eps": eps, "intr": lambda *v: call("pline_seg_intr", *v, eps), "same": lambda p, q: call("veq", p, q, eps), "query": lambda *a: call("query", *a), "bb": bb,
              "at1": lambda i: call("at", p1, i), "at2": lambda i: call("at", p2, i), "nx1": lambda i: call("next_wrapping_index", p1, i), "nx2": lambda i: call("next_wrapping_index", p2, i),
              "n1": call("vertex_count", p1), "n2": call("vertex_count", p2), "closed1": call("is_closed", p1), "closed2": call("is_closed", p2),
              "given": ("fld", ("sym", "options"), "pline1_aabb_index"), "payload": lambda o: ("fld", ("as", o, "Some"), "0"), "E": EMPTY, "empty": lambda s_: call("is_empty", s_),
              "coll": lambda a, b: agg("adt", "PlineIntersectsCollection", 0, "PlineIntersectsCollection", (("basic_intersects", a), ("overlapping_intersects", b)))})
    env = fenv(f, e)
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, OPQ, MODELS), env, key="find", kinds=("push", "insert"))
    q = "query(_ix, bb(_i).min_x - eps, bb(_i).min_y - eps, bb(_i).max_x + eps, bb(_i).max_y + eps)"
    if not T.bind("crossings", ("push", "_basic", "B(el(%s), _i, p2_point(intr(at1(el(%s)), at1(nx1(el(%s))), at2(_i), at2(nx2(_i)))))" % (q, q, q))):
        return
    q = q.replace("_i", "i")
    hit = "el(%s)" % q
    if not T.bind("overlaps", ("push", "_over", "O(%s, i, _p, _q)" % hit)):
        return
    ok1, ok2 = T.bind("duplicates 1", ("insert", "_dup1", "nx1(%s)" % hit)), T.bind("duplicates 2", ("insert", "_dup2", "nx2(i)"))
    if not (ok1 and ok2):
        return
    e1, e2 = "pos(at1(nx1(%s)))" % hit, "pos(at2(nx2(i)))"
    skip = lambda p: "(same({e1}, {p}) and (closed1 or {h} != n1 - 2)) or (same({e2}, {p}) and (closed2 or i != n2 - 2))".format(e1=e1, e2=e2, p=p, h=hit)
    basic = lambda p: [("if", skip(p), [], [("push", "basic", "B(%s, i, %s)" % (hit, p))])]
    over = lambda p, q_: [("push", "over", "O(%s, i, %s, %s)" % (hit, p, q_)),
                          ("if", "same(%s, %s) or same(%s, %s)" % (e1, p, e1, q_), [("insert", "dup1", "nx1(%s)" % hit)]), ("if", "same(%s, %s) or same(%s, %s)" % (e2, p, e2, q_), [("insert", "dup2", "nx2(i)")])]
    T.table("segment pairs", ("push", "basic", "B(%s, i, _p)" % hit), flat(dispatch("intr(at1({h}), at1(nx1({h})), at2(i), at2(nx2(i)))".format(h=hit), basic, over) + [{"end": "back"}]))
    env.names["segs"] = ("idxin", c(0), call("segment_count", p2))
    rep.check(T.cn(env.names["i"]) == T.cn(env.names["segs"]), "find:segments", "%s: the segments of the second polyline are visited by index %s instead of 0..segment count" % (T.where, sym.showt(T.cn(env.names["i"]))))
    T.entry("start", ix=[("some(given)", "payload(given)"), ("none(given)", "create_approx_aabb_index(pline1)")])
    T.start("nothing found yet", basic="E", over="E", dup1="E", dup2="E")
    T.table("few vertexes", [None], [("n1 < 2", [], {"return": "coll(E, E)"}), ("n1 >= 2 and n2 < 2", [], {"return": "coll(E, E)"}), ("n1 >= 2 and n2 >= 2", [], {"goes": "enter"})], part="all")
    if T.bind("filtering", ("push", "_final", "el(_src)"), where=lambda a: T.cn(a["src"]) in [T.cn(T.now(h, env.names["basic"])) for h in T.names]):
        m = "el(src)"
        keep = [("push", "final", m)]
        T.table("duplicates", ("push", "final", m), flat([
            ("if", "got(now(dup1), {m}.start_index1) and same({m}.point, pos(at1({m}.start_index1)))".format(m=m), [{"end": "back"}]),
            ("if", "got(now(dup2), {m}.start_index2) and same({m}.point, pos(at2({m}.start_index2)))".format(m=m), [{"end": "back"}]), ("push", "final", m), {"end": "back"}]), entry={})
        T.start("nothing kept yet", final="E")
        T.table("result", ("push", "final", m), [("", [], {"return.basic_intersects": "now(final)", "return.overlapping_intersects": "now(over)"})], part="after")
    outer = [s.start for s in T.segs if s.end[0] == "enter" and s.start is not None and any(x.start == s.end[1] and any(e[0] == "insert" for e in x.events) for x in T.segs)]
    T.table("end of search", list(dict.fromkeys(outer)), [("empty(now(dup1)) and empty(now(dup2))", [], {"returns.basic_intersects": "now(basic)", "returns.overlapping_intersects": "now(over)"}),
                                     ("not (empty(now(dup1)) and empty(now(dup2)))", [], {"goes": "enter"})], part="after")
    T.only("push", "over", "overlaps")
    T.only("insert", "dup1", "duplicates 1")
    T.only("insert", "dup2", "duplicates 2")
    return T


def check_slice(rep, prog):
    """OverlappingSlice::new: the part of the second polyline covered by a chain of overlaps"""
    f = getfn(prog, MOD + "{impl#0}::new")
    p1, p2, eps = ("sym", "pline1"), ("sym", "pline2"), ("sym", "pos_equal_eps")
    S, E = ("sym", "start_intr"), ("fld", ("as", ("sym", "end_intr"), "Some"), "0")
    fld = lambda v, k: ("fld", v, k)
    e = {"s1": fld(S, "start_index1"), "s2": fld(S, "start_index2"), "e1": fld(E, "start_index1"), "e2": fld(E, "start_index2"), "sp1": fld(S, "point1"), "sp2": fld(S, "point2"), "ep1": fld(E, "point1"), "ep2": fld(E, "point2"),
         "nx1": lambda i: call("next_wrapping_index", p1, i), "nx2": lambda i: call("next_wrapping_index", p2, i), "at1": lambda i: call("at", p1, i), "at2": lambda i: call("at", p2, i),
         "n2": call("vertex_count", p2), "T": lambda a, b: A.tup(a, b), "eps": eps, "split": lambda a, b, p: call("seg_split_at_point", a, b, p, eps), "tangent": lambda a, b, p: call("seg_tangent_vector", a, b, p),
         "same": lambda p, q: call("veq", p, q, eps), "fwd": lambda a, b: call("fwd_wrapping_dist", p2, a, b), "single": ("eq", ("discr", ("sym", "end_intr")), c(0))}
    env = fenv(f, e)
    u1, u2 = "at2(s2)", "at2(nx2(s2))"
    env.names["t1"], env.names["t2"] = env.term("tangent(at1(s1), at1(nx1(s1)), sp1)"), env.term("tangent(%s, %s, sp1)" % (u1, u2))
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    sub = lambda q: "split(split(%s, %s, sp1).split_vertex, %s, %s).updated_start" % (u1, u2, u2, q)
    V = lambda off, us, ub, ep: "PlineViewData(start_index=s2, end_index_offset=%s, updated_start=%s, updated_end_bulge=%s, end_point=%s, inverted_direction=False)" % (off, us, ub, ep)
    R = lambda ends, v, loop, opp: "OverlappingSlice(start_indexes=T(s1, s2), end_indexes=%s, view_data=%s, is_loop=%s, opposing_directions=%s)" % (ends, v, loop, opp)
    cases = []
    for opp, oc in (("True", "t1.x * t2.x + t1.y * t2.y < 0"), ("False", "not (t1.x * t2.x + t1.y * t2.y < 0)")):
        cases.append((conj(oc, "single"), R("T(s1, s2)", V("0", sub("sp2"), sub("sp2") + ".bulge", "sp2"), "False", opp)))
        cases.append((conj(oc, "not single", "same(ep2, sp1)"), R("T(s1, s2)", V("n2 - 1", u1, "at2(n2 - 1).bulge", "ep2"), "True", opp)))
        cases.append((conj(oc, "not single", "not same(ep2, sp1)", "s2 == e2"), R("T(e1, e2)", V("fwd(s2, e2)", sub("ep2"), sub("ep2") + ".bulge", "ep2"), "False", opp)))
        ue = "split(split(at2(e2), at2(nx2(e2)), ep1).split_vertex, at2(nx2(e2)), ep2).updated_start.bulge"
        cases.append((conj(oc, "not single", "not same(ep2, sp1)", "s2 != e2"), R("T(e1, e2)", V("fwd(s2, e2)", "split(%s, %s, sp1).split_vertex" % (u1, u2), ue, "ep2"), "False", opp)))
    sym.check_table(rep, prog, f, cases, env, opaque=("seg_split_at_point", "seg_tangent_vector", "next_wrapping_index", "fwd_wrapping_dist"), models=sym.VEQ, key="overlapping slice", pre="n2 >= 1")


def check_join(rep, prog):
    f = getfn(prog, MOD + "sort_and_join_overlapping_intersects")
    p2, eps = ("sym", "pline2"), ("sym", "pos_equal_eps")
    X = ("sym", "intersects")
    e = base(prog, p2)
    e.update({"mk": lambda s_, en: call("new", ("sym", "pline1"), p2, s_, en, eps), "X": X, "some_": some, "none_": NONE, "E": EMPTY, "plus": lambda l, *x: lst(*([many(l)] + [one(y) for y in x])), "nth": lambda l, i: ("index", l, i),
              "d2": lambda a, b: call("dist_squared", a, b), "tcmp": lambda a, b: call("total_cmp", a, b), "slot": lambda v, i: ("slot", v, i), "edited": lambda v, i: call("edited", v, i)})
    env = fenv(f, e)
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, ("dist_squared", "pline_intersects::new", "next_wrapping_index"), MAPM), env, key="join", kinds=("push", "sort", "write"))
    T.table("nothing to join", [None], [("ln(X) == 0", [], {"return": "E"}), ("ln(X) != 0", "any")], part="all")
    T.ordering("along the second polyline", [("qa.start_index2 < qb.start_index2", "Less"), ("qa.start_index2 > qb.start_index2", "Greater"),
                                             ("qa.start_index2 == qb.start_index2", "tcmp(d2(pos(at(qa.start_index2)), qa.point1), d2(pos(at(qb.start_index2)), qb.point1))")])
    if not T.bind("slices", ("push", "_result", "mk(_first, _last)"), where=lambda a: a["last"][0] == "loop") or not T.carrier("tip", "_m.point2"):
        return
    env.names["m"] = env.names["_m"] if "_m" in env.names else env.names["m"]
    m = "m"
    joins = "same(%s.point1, tip)" % m
    T.table("joining", ("push", "result", "mk(first, last)"), [
        ("not " + joins, [("push", "result", "mk(first, last)")], {"first": m, "last": "none_", "tip": m + ".point2", "end": "back"}),
        (joins, [], {"last": "some_(%s)" % m, "tip": m + ".point2", "first": "first", "end": "back"})])
    if not T.bind("sorted", ("sort", "X", "X", "_order")):
        return
    env.names["sorted"] = call("sorted", X, env.names["order"])
    tails = [T.cn(("elem", call("skip", ("iter", x), c(1)))) for x in (("now", env.names["sorted"], X), env.names["sorted"])]
    rep.check(T.cn(env.names["m"]) in tails, "join:rest", "%s: the overlaps joined after the first are %s instead of all the others, in order" % (T.where, sym.showt(env.names["m"])))
    T.entry("first", first="nth(sorted, 0)", tip="nth(sorted, 0).point2", last="none_")
    T.start("nothing joined yet", result="E")
    last = "mk(first, last)"
    ring = "same({0}.view_data.end_point, pos(nth(now(result), 0).view_data.updated_start))".format(last)
    w = lambda p, v: ("write", "slot(result, 0)", p, v)
    head = [("push", "result", last), w(".start_indexes", last + ".start_indexes"), w(".view_data.start_index", last + ".view_data.start_index"), w(".view_data.updated_start", last + ".view_data.updated_start")]
    off = "slot(result, 0).view_data.end_index_offset + {0}.view_data.end_index_offset".format(last)
    corner = "same(%s.view_data.end_point, pos(at(0)))" % last
    join = {"return": "edited(plus(now(result)), 0)"}
    T.table("closing", ("push", "result", last), [
        ("ln(now(result)) == 0", [("push", "result", last)], {"return": "plus(now(result), %s)" % last}),
        (conj("ln(now(result)) > 0", "not " + ring), [("push", "result", last)], {"return": "plus(now(result), %s)" % last}),
        (conj("ln(now(result)) > 0", ring, "not " + corner), head + [w(".view_data.end_index_offset", off)], join),
        (conj("ln(now(result)) > 0", ring, corner), head + [w(".view_data.end_index_offset", off + " + 1")], join)], part="after")
    T.only("push", "result", "slices")
    return T


def check_entry(rep, prog):
    """the ways in: which kinds of self intersects are visited, with which index and tolerance"""
    pl, o = ("sym", "self"), ("sym", "options")
    incl = [v[0] for v in [a for d, a in prog.adts.items() if d.endswith("::SelfIntersectsInclude")][0]["vars"]]
    LOC, GLO = "visit_local_self_intersects", "visit_global_self_intersects"
    M = {**MAPM, "should_break": cut.m_should_break, LOC: cut.m_answer(LOC, 1), GLO: cut.m_answer(GLO, 2)}
    e = {"eps": ("fld", o, "pos_equal_eps"), "args": lambda *xs: call("args", *xs), "given": ("fld", o, "aabb_index"), "payload": lambda x: ("fld", ("as", x, "Some"), "0"), "n": call("vertex_count", pl),
         "want": lambda k: ("eq", ("discr", ("fld", o, "include")), c(incl.index(k[1]))), "stop": lambda a: call("should_break", a), "continuing": lambda: call("continuing"), "built": call("create_approx_aabb_index", pl)}
    e.update({k: ("const", k) for k in incl})
    f = prog.one("visit_self_intersects_opt", trait_default="PlineSource")
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, (LOC, GLO, "create_approx_aabb_index"), M), fenv(f, e), key="visit", kinds=("mut",))
    loc = ("mut", "visitor", ":" + LOC, "args(self, eps)")
    cases = [("n < 2", [], {"return": "continuing()"}), ("n >= 2 and want(Local)", [loc], {"return": "answer(0)"})]
    for g, ix in (("some(given)", "payload(given)"), ("none(given)", "built")):
        glo = ("mut", "visitor", ":" + GLO, "args(self, %s, eps)" % ix)
        cases += [(conj("n >= 2 and want(Global)", g), [glo], {"return": "answer(0)"}),
                  (conj("n >= 2 and want(All)", g, "stop(answer(0))"), [loc], {"return": "answer(0)"}), (conj("n >= 2 and want(All)", g, "not stop(answer(0))"), [loc, glo], {"return": "answer(1)"})]
    T.table("kinds", [None], cases, part="all")

    f = getfn(prog, "all_self_intersects_as_basic")
    env = fenv(f, {"args": lambda *xs: call("args", *xs), "loc": lambda *xs: ("after", call(LOC, *xs), 1), "glo": lambda *xs: ("after", call(GLO, *xs), 2)})
    T = cut.SegTable(rep, prog, f, cut.Cut(prog, (LOC, GLO), MAPM), env, key="all as basic", kinds=("mut",))
    if not T.bind("both kinds", ("mut", "_v", ":" + LOC, "args(_vis, pos_equal_eps)")):
        return
    vis = env.names["vis"]
    flds = dict(vis[5]) if vis[0] == "agg" else {}
    acc, flag = [k for k, v in flds.items() if v == T.cn(EMPTY)], [k for k, v in flds.items() if v == ("sym", "include_overlapping")]
    rep.check(len(acc) == 1 and len(flag) == 1 and len(flds) == 2, "all as basic:visitor", "%s: the visitor must start with nothing collected and the given include_overlapping, but is %s" % (T.where, sym.showt(vis)))
    if not (acc and flag):
        return
    T.table("both kinds", [None], [("", [("mut", "v", ":" + LOC, "args(vis, pos_equal_eps)"), ("mut", "v", ":" + GLO, "args(aabb_index, loc(polyline, vis, pos_equal_eps), pos_equal_eps)")],
                                    {"return": "glo(polyline, aabb_index, loc(polyline, vis, pos_equal_eps), pos_equal_eps)." + acc[0]})], part="all")
    # the collecting visitor
    for kind, cases in (("basic", [("", [("push", "part(self, acc)", "intr")])]),
                        ("overlapping", [("self." + flag[0], [("push", "part(self, acc)", "B(intr.start_index1, intr.start_index2, intr.point1)"), ("push", "part(self, acc)", "B(intr.start_index1, intr.start_index2, intr.point2)")]),
                                         ("not self." + flag[0], [])])):
        g = [x for x in prog.fns.values() if x.n == "visit_%s_intr" % kind and "all_self_intersects_as_basic" in x.d]
        rep.check(len(g) == 1, "collect:" + kind, "the visitor of all_self_intersects_as_basic has no visit_%s_intr" % kind)
        for x in g:
            env = fenv(x, {"B": base(prog, pl)["B"], "part": lambda s_, k: ("part", s_, (("f", k[1]),)), "acc": ("const", acc[0])})
            T = cut.SegTable(rep, prog, x, cut.Cut(prog, (), MAPM), env, key="collect " + kind, kinds=("push",))
            T.table("pushes", [None], cases, part="all")


def check_defaults(rep, prog, serde, tier):
    """the variants without options"""
    incl = [v[0] for v in [a for d, a in prog.adts.items() if d.endswith("::SelfIntersectsInclude")][0]["vars"]]
    ALL = agg("adt", "SelfIntersectsInclude", incl.index("All"), "All", ())
    F = c(False)
    mk = {"find": lambda a, b: agg("adt", "FindIntersectsOptions", 0, "FindIntersectsOptions", (("pline1_aabb_index", a), ("pos_equal_eps", b))),
          "boolean": lambda a, b: agg("adt", "PlineBooleanOptions", 0, "PlineBooleanOptions", (("pline1_aabb_index", a), ("pos_equal_eps", b))),
          "offset": lambda a, h, b, s, d: agg("adt", "PlineOffsetOptions", 0, "PlineOffsetOptions", (("aabb_index", a), ("handle_self_intersects", h), ("pos_equal_eps", b), ("slice_join_eps", s), ("offset_dist_eps", d))),
          "self": lambda a, b, i: agg("adt", "PlineSelfIntersectOptions", 0, "PlineSelfIntersectOptions", (("aabb_index", a), ("pos_equal_eps", b), ("include", i))),
          "shape": lambda b, d, s: agg("adt", "ShapeOffsetOptions", 0, "ShapeOffsetOptions", (("pos_equal_eps", b), ("offset_dist_eps", d), ("slice_join_eps", s)))}
    o = {"PlineBooleanOptions": "opts(none_, 1/100000)", "FindIntersectsOptions": "opts(none_, 1/100000)", "PlineOffsetOptions": "opts(none_, false_, 1/100000, 1/10000, 1/10000)",
         "PlineSelfIntersectOptions": "opts(none_, 1/100000, all_)", "ShapeOffsetOptions": "opts(1/100000, 1/10000, 1/10000)"}
    kind = {"PlineBooleanOptions": "boolean", "FindIntersectsOptions": "find", "PlineOffsetOptions": "offset", "PlineSelfIntersectOptions": "self", "ShapeOffsetOptions": "shape"}
    for k, want in o.items():
        fs = [f for n in ("new", "default") for f in prog.by_name(n, impl_adt=k) if not f.argc]
        rep.check(len(fs) == 2, "defaults:%s:constructors" % k, "%s has %d constructors without arguments, expected new and default" % (k, len(fs)))
        for f in fs:
            env = fenv(f, {"none_": NONE, "false_": F, "all_": ALL, "opts": mk[kind[k]]})
            sym.check_table(rep, prog, f, [("", want)], env, key="%s::%s" % (k, f.n))
    D = (("find_intersects_opt", "pline_intersects::find_intersects", "call_(self, other, options)", None), ("boolean_opt", "polyline_boolean", "call_(self, other, operation, options)", None),
         ("parallel_offset_opt", "pline_offset::parallel_offset", "call_(self, offset, options)", None),
         ("find_intersects", "find_intersects_opt", "call_(self, other, %s)", "FindIntersectsOptions"), ("boolean", "boolean_opt", "call_(self, other, operation, %s)", "PlineBooleanOptions"),
         ("parallel_offset", "parallel_offset_opt", "call_(self, offset, %s)", "PlineOffsetOptions"), ("visit_self_intersects", "visit_self_intersects_opt", "call_(self, visitor, %s)", "PlineSelfIntersectOptions"))
    for n, to, want, k in D:
        f = prog.one(n, trait_default="PlineSource")
        env = fenv(f, {"none_": NONE, "false_": F, "all_": ALL, "call_": lambda *a, to=to: call(to.split("::")[-1], *a), **({"opts": mk[kind[k]]} if k else {})})
        sym.check_table(rep, prog, f, [("", want % o[k] if k else want)], env, opaque=(to,), key=n)


def check_intersects(rep, prog, serde, tier):
    check_find(rep, prog)
    check_slice(rep, prog)
    check_join(rep, prog)


def check_visits(rep, prog, serde, tier):
    check_local(rep, prog)
    check_global(rep, prog)
    check_entry(rep, prog)
