"""Offset slices joined into polylines, and the offset as a whole (C28)."""
import cut
import sym
from absint import Out, c, NONE
from boolean import getfn, MAPM, STITCH_OPQ
from lists import LSym, lst, one, many, EMPTY
from tables import fenv, call, conj
from slices import OFF, pos

SL, RAW, OPTS = ("sym", "slices"), ("sym", "raw_offset_pline"), ("sym", "options")
EPS, JOIN = ("fld", OPTS, "pos_equal_eps"), ("fld", OPTS, "slice_join_eps")
AF = lambda n, *xs: ("after", call(n, *xs), 0)


def check_stitch(rep, prog):
    f = getfn(prog, OFF + "stitch_slices_together")
    view = lambda s: call("view", s, RAW)
    last = lambda p: call("at", p, ("bin", "Sub", call("vertex_count", p), c(1)))
    e = {"S": ("elem", SL), "sl": lambda i: ("index", SL, i), "idx": lambda v, i: ("index", v, i), "nth": lambda v, i: ("index", v, i), "el": lambda m: ("elem", m), "args": lambda *xs: call("args", *xs), "slot": lambda v, i: ("slot", v, i), "E": EMPTY,
         "plus": lambda l, x: lst(many(l), one(x)), "query": lambda *a: call("query", *a), "ln": lambda x: call("len", x), "count": lambda p: call("vertex_count", p), "pos": pos, "last_": last,
         "at0": lambda p: call("at", p, c(0)), "eps": EPS, "jeps": JOIN, "added": lambda p, s: AF("extend_remove_repeat", p, view(s), EPS), "shut": lambda p: AF("set_is_closed", AF("remove_last", p), c(True)),
         "shut1": lambda p: AF("remove_last", AF("set_is_closed", p, c(True))), "cut_": lambda p: AF("remove_last", p), "lone": call("create_from_remove_repeat", view(("index", SL, c(0))), EPS), "view": view,
         "falses": lambda n: call("from_elem", c(False), n), "new_": lambda n: call("new", n), "built": lambda b: ("fld", ("as", call("build", b), "Ok"), "0"), "L1": lambda x: lst(one(x)), "n": call("len", SL),
         "same": lambda a, b, t: call("veq", a, b, t), "empty_": call("with_capacity", c(0), c(False))}
    env = fenv(f, e)
    env.FLOATS = env.FLOATS | {"x", "y", "bulge"}
    I = cut.Cut(prog, STITCH_OPQ, MAPM)
    T = cut.SegTable(rep, prog, f, I, env, key="stitch", kinds=("push",))
    T.segs = [s for s in T.segs if s.end != ("panic", "unwrap")]
    guards(rep, T)
    one_ = "n != 0 and n == 1"
    meet = "same(pos(at0(lone)), pos(last_(lone)), jeps)"
    T.table("few slices", [None], [("n == 0", [], {"return": "E"}), (conj(one_, "not is_closed"), [("push", "*", "lone")], {"return": "L1(lone)"}), (conj(one_, "is_closed", "not " + meet), [("push", "*", "lone")], {"return": "L1(lone)"}),
                                 (conj(one_, "is_closed", meet), [("push", "*", "shut(lone)")], {"return": "L1(shut(lone))"}),
                                 ("n != 0 and n != 1", [], {"goes": "enter"})], part="all")
    if not T.bind("start points", ("mut", "_b", ":add", "*")):
        return
    T.kinds = ("mut",)
    box = "S.updated_start.x - jeps, S.updated_start.y - jeps, S.updated_start.x + jeps, S.updated_start.y + jeps"
    T.table("start points", ("mut", "_b", ":add", "*"), [("", [("mut", "b", ":add", "args(%s)" % box)], {"end": "back"})])
    T.start("index", b="new_(n)")
    T.kinds = ("push", "write")
    ok_ = T.bind("slices", ("write", "slot(_vis, _k)", "*", "True"), where=lambda a: a["k"][0] in ("iv", "loop"))
    if not (ok_ and T.bind("candidates", ("push", "_qr", "el(query(_ix, sl(_ci).end_point.x - jeps, _q2, _q3, _q4))")) and T.bind("order", ("sort", "qr", "_v", "_order"))
            and T.bind("result", ("push", "_result", "added(_cur, sl(ci))"))):
        return
    env.names["S1"] = call("sorted", env.names["v"], env.names["order"])
    q = "el(query(ix, sl(ci).end_point.x - jeps, sl(ci).end_point.y - jeps, sl(ci).end_point.x + jeps, sl(ci).end_point.y + jeps))"
    rep.check(any(T.cn(env.names["ix"]) == T.cn(("fld", ("as", call("build", w), "Ok"), "0")) for s_ in T.segs for w in s_.vals if T.cn(("local",) + tuple(w[3])) == T.cn(env.names["b"])), "stitch:index",
              "%s: the spatial index searched is not the one of the slice start points but %s" % (T.where, sym.showt(env.names["ix"])))
    T.table("slices", ("write", "slot(vis, _i)", "*", "True"), [("idx(now(vis), i)", []), ("not idx(now(vis), i)", [("write", "slot(vis, i)", "*", "True")])], where=lambda a: a["i"][0] in ("iv", "loop"), export=("i",), index={"i": ("0", "n")})
    T.start("nothing joined yet", vis="falses(n)", result="E")
    T.table("candidates", ("push", "qr", q), [("not idx(now(vis), %s)" % q, [("push", "qr", q)]), ("idx(now(vis), %s)" % q, [])])
    A, B, C, M = "sl(qa).start_index", "sl(qb).start_index", "sl(ci).start_index", "orig_max_index"
    ends = lambda x: "same(sl(%s).end_point, pos(sl(i).updated_start), eps)" % x
    cases = []
    for wa, da in (("{0} <= {1}", "({1} - {0})"), ("not {0} <= {1}", "({2} - {0} + {1})")):
        for wb, db in (("{0} <= {1}", "({1} - {0})"), ("not {0} <= {1}", "({2} - {0} + {1})")):
            w, x, y = conj(wa.format(C, A), wb.format(C, B)), da.format(C, A, M), db.format(C, B, M)
            cases += [(conj(w, "%s < %s" % (x, y)), "Less"), (conj(w, "%s > %s" % (x, y)), "Greater")]
            w = conj(w, "%s == %s" % (x, y))
            cases += [(conj(w, "not " + ends("qa"), ends("qb")), "Less"), (conj(w, ends("qa"), "not " + ends("qb")), "Greater"), (conj(w, "not " + ends("qa"), "not " + ends("qb")), "Equal"), (conj(w, ends("qa"), ends("qb")), "Equal")]
    T.ordering("preference", cases, "qr")
    T.entry("start", cur="empty_", ci="i")
    k = "nth(S1, 0)"
    bad = [(s_, T.value(s_.vals, env.names["qr"])) for s_ in T.segs if s_.end[0] == "enter" and s_.end[1] in T.headers(("push", "qr", q))]
    for s_, x in bad:
        rep.check(x is None or x == T.cn(EMPTY), "stitch:append:cleared", "%s: candidates of the slice before are left in the list on the path [%s]" % (T.where, cut.short_facts(s_, T.cn)))
    rep.check(bool(bad), "stitch:append:none", "%s: no search for candidates" % T.where)
    p = "added(cur, sl(ci))"
    back = "is_closed and same(pos(at0({0})), pos(last_({0})), eps)".format(p)
    T.table("joining", ("sort", "qr", "*", "*"), [
        ("ln(now(qr)) == 0 and count(%s) <= 1" % p, []),
        (conj("ln(now(qr)) == 0", "count(%s) > 1" % p, back), [("push", "result", "shut(%s)" % p)]),
        (conj("ln(now(qr)) == 0", "count(%s) > 1" % p, "not (%s)" % back), [("push", "result", p)]),
        ("ln(now(qr)) != 0", [("write", "slot(vis, %s)" % k, "*", "True")], {"ci": k, "cur": "cut_(%s)" % p})], part="after")
    return T


def guards(rep, T, size=call("len", SL)):
    """the bound on the rounds of the inner loop is out of reach: a panic needs the round counter to exceed the number of slices"""
    for s in [s for s in T.segs if s.end[0] == "panic" and s.end[1] == "panic_fmt"]:
        ok_ = False
        for w in {x for k in s.facts for x in sym.subterms(k) if isinstance(x, tuple) and x and x[0] == "loop"}:
            starts = [T.cn(t.vals[w]) for t in T.segs if t.end[0] == "enter" and w in t.vals and T.cn(t.vals[w]) != T.cn(w)]
            steps = [t.vals.get(w) for t in T.segs if t.end[0] == "back" and w in t.vals]
            for limit, first, step in ((("lt", w, size), lambda x: x == {}, "Add"), (("lt", c(0), w), lambda x: not any(sym.P.sub(x, T.cn.poly(size)).keys() - {()}) and sym.P.sub(x, T.cn.poly(size)).get((), 0) >= 0, "Sub")):
                x = s.ctx.copy()
                x.add_lit(T.cn(limit), True)        # the counter has not reached its limit ...
                if not x.feasible() and starts and steps and all(first(T.cn.poly(y)) for y in starts) and all(T.cn(y) in (T.cn(("bin", step, w, c(1))), T.cn(w)) for y in steps):
                    ok_ = True                      # ... which each round brings one nearer, and there are at most as many rounds as slices
        rep.check(ok_, T.key + ":rounds", "%s: it panics on the path [%s], which needs no more rounds than there are slices" % (T.where, cut.short_facts(s, T.cn)))
        T.segs.remove(s)


def check_offset(rep, prog):
    """which raw offsets, slices and joining the offset of a polyline is made of"""
    f = getfn(prog, OFF + "parallel_offset")
    pl, off = ("sym", "polyline"), ("sym", "offset")
    raw = call("create_raw_offset_polyline", pl, off, EPS)
    dual = call("create_raw_offset_polyline", pl, ("bin", "Sub", c(0), off), EPS)
    n = call("vertex_count", raw)

    def spec(ix, o):
        single = call("slices_from_raw_offset", pl, raw, ix, off, OPTS)
        both = call("slices_from_dual_raw_offsets", pl, raw, dual, ix, off, OPTS)
        return {"single": call("stitch_slices_together", raw, single, c(True), ("bin", "Sub", n, c(1)), OPTS), "both": call("stitch_slices_together", raw, both, call("is_closed", pl), n, OPTS)}
    given = spec(("fld", ("as", ("fld", OPTS, "aabb_index"), "Some"), "0"), 0)
    built = spec(call("create_approx_aabb_index", pl), 0)
    env = fenv(f, {"n": call("vertex_count", pl), "raw": raw, "m": n, "closed": call("is_closed", pl), "E": EMPTY, **{k + "g": v for k, v in given.items()}, **{k + "b": v for k, v in built.items()}})
    few = "n < 2 or m == 0"
    alone = "closed and not options.handle_self_intersects"
    rows = [("n < 2", "E"), ("n >= 2 and m == 0", "E")]
    for o, k in (("some(options.aabb_index)", "g"), ("none(options.aabb_index)", "b")):
        rows += [(conj("n >= 2", "m > 0", o, alone), "single" + k), (conj("n >= 2", "m > 0", o, "not (%s)" % alone), "both" + k)]
    no_repeats = lambda I, fn, fr, b, t, st, args, stack: iter([Out("ret", NONE, st)])       # the debug assertions: neither the input nor the result has repeated positions
    sym.check_table(rep, prog, f, rows, env, I=LSym(prog, ("create_raw_offset_polyline", "create_approx_aabb_index", "slices_from_raw_offset", "slices_from_dual_raw_offsets", "stitch_slices_together"), {"remove_repeat_pos": no_repeats}), key="offset")


def check(rep, prog, serde, tier):
    check_stitch(rep, prog)
    check_offset(rep, prog)
