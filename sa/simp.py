"""Simplification of polylines (C09)."""
import absint as A
import cut
import sym
import lists
import edits
from absint import Out, c, agg, some, NONE
from edits import MODELS as EM, OPQ as EO, PV, V2, pos, base_env
from boolean import getfn
from cut import flat, target
from tables import fenv, call, conj


def m_insert_with(I, fn, fr, b, t, st, args, stack):
    """Option::get_or_insert_with: a place inside the option"""
    root, proj = I.deref(st, args[0])
    slot = proj + (("d", "Some"), ("f", "0"))

    def g():
        v = I.read(st, root, proj)
        for i, s in I.split_variant(v, st):
            if i == 1:
                yield Out("ret", ("ref", root, slot), s)
                continue
            for o in I.apply(fn, fr, b, t, s, args[1], [], stack):
                if o.kind == "ret":
                    I.write(o.st, root, proj, some(I.term(o.val, o.st)))
                    yield Out("ret", ("ref", root, slot), o.st)
                else:
                    yield o
    return g()


def m_as_mut(I, fn, fr, b, t, st, args, stack):
    if args[0][0] != "ref":
        return NotImplemented
    root, proj = I.deref(st, args[0])

    def g():
        v = I.read(st, root, proj)
        for i, s in I.split_variant(v, st):
            yield Out("ret", some(("ref", root, proj + (("d", "Some"), ("f", "0")))) if i == 1 else NONE, s)
    return g()


def made(closed, parts):
    return call("made", closed, ("call", "parts", tuple(parts)))


def m_with_capacity(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", made(I.term(args[1], st), ()), st)])


def m_from_iter(I, fn, fr, b, t, st, args, stack):
    ts = [I.term(a, st) for a in args]
    s = edits.seqs(I.cn, I.ctx(st), ts[0])
    if s is None:
        return NotImplemented
    return iter([Out("ret", made(ts[1], [("call", p[0], tuple(p[1:])) for p in s]), st)])


MODELS = {**EM, "option::get_or_insert_with": m_insert_with, "option::as_mut": m_as_mut, "PlineCreation::with_capacity": m_with_capacity, "plinecreation::with_capacity": m_with_capacity,
          "PlineCreation::from_iter": m_from_iter, "plinecreation::from_iter": m_from_iter}
OPQ = tuple(x for x in EO if x not in ("from_iter", "with_capacity", "seg_split_at_point")) + ("bulge_from_angle", "base_math::angle", "base_math::delta_angle", "point_on_circle")


class Simp(edits.Ed):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cn = sym.Canon()

    def ctx(self, st):
        x = sym.Ctx(self.cn)
        x.add_facts(st)
        return x

    def update(self, base, pr, v):
        if len(pr) >= 2 and pr[0] == ("d", "Some") and pr[1] == ("f", "0") and base[0] != "agg":
            return some(v if len(pr) == 2 else self.update(self.payload(base, "Some"), pr[2:], v))
        return super().update(base, pr, v)

    def elem(self, st, it):
        """vertexes met with their index"""
        k, x = c(0), it
        if x[0] == "iter" and x[1][0] == "call" and sym.last(x[1][1]) == "skip":
            x, k = x[1][2]
        if x[0] == "enum" and x[1][0] == "iter" and x[1][1][0] == "verts":
            p = x[1][1][1]
            i = ("idxin", k, call("vertex_count", p))
            return A.tup(i, call("at", p, i))
        return super().elem(st, it)


# ------------------------------------------------------------------------------------------------ values of polylines
def parts(cn, ctx, v):
    """a polyline value -> (closed or None, [parts]); ("is", value) stands for all vertexes of a known polyline"""
    if v[0] != "call":
        return None, [("is", v)]
    n, a = sym.last(v[1]), v[2]
    if n == "made":
        return a[0], [(p[1],) + tuple(p[2]) for p in a[1][2]]
    if n == "from_iter":
        s = edits.seqs(cn, ctx, a[0])
        return (a[1], [tuple(p) for p in s]) if s is not None else (None, [("is", v)])
    if n == "append":
        k, ps = parts(cn, ctx, a[0])
        return k, ps + [("one", a[1])]
    return None, [("is", v)]


def same_value(cn, ctx, g, w):
    (k1, p1), (k2, p2) = parts(cn, ctx, g), parts(cn, ctx, w)
    eq = lambda x, y: ctx.equal(cn(x), cn(y))
    return (k1 is None) == (k2 is None) and (k1 is None or eq(k1, k2)) and len(p1) == len(p2) and all(a[0] == b[0] and all(eq(x, y) for x, y in zip(a[1:], b[1:])) for a, b in zip(p1, p2))


def inner(t):
    return ("fld", ("as", t, "Some"), "0")


def is_some(s, t, cn):
    """what the path knows about an option: True, False or None"""
    for v, w in ((1, True), (0, False)):
        r = dict(s.facts).get(("int", ("discr", t)))
        if r is not None and (r == ("eq", v) or r[0] == "ne" and 1 - v in r[1]):
            return w
    return None


def check_repeat(rep, prog):
    f = prog.one("remove_repeat_pos", trait_default="PlineSource")
    I = Simp(prog, OPQ, MODELS)
    T = cut.SegTable(rep, prog, f, I, base_env(f, {"V": V2}), key="remove_repeat_pos", kinds=("mut",), ignore=("reserve",))
    cn, key, env = T.cn, T.key, T.env
    n = call("vertex_count", ("sym", "self"))
    T.segs = [s for s in T.segs if s.end != ("panic", "unwrap")]            # the new polyline has a last vertex
    hs = [h for h in T.names]
    rs = {s.val for s in T.segs if s.end[0] == "ret" and s.val is not None and s.val[0] == "loop"}
    if not rep.check(len(hs) == 1 and len(rs) == 1, key + ":loop", "%s: one loop over the vertexes that builds the result is expected" % T.where):
        return
    h, R = hs[0], rs.pop()
    prevs = {t for s in T.segs if s.start == h for k in s.facts for v in sym.subterms(k) if isinstance(v, tuple) and v and v[0] == "call" and sym.last(v[1]) == "veq" for t in sym.subterms(v) if isinstance(t, tuple) and t and t[0] == "loop" and t != R and t[0] == "loop" and t[2] == h[1]}
    ats = {t[2][1] for s in T.segs if s.start == h and s.end[0] == "back" for k in s.facts for v in sym.subterms(k) if isinstance(v, tuple) and v and v[0] == "call" and sym.last(v[1]) == "veq" for t in sym.subterms(v) if isinstance(t, tuple) and t and t[0] == "call" and sym.last(t[1]) == "at" and t[2][0] == ("sym", "self")}
    ats = {a for a in ats if a[0] != "c"}
    prevs -= ats
    if not rep.check(len(prevs) == 1 and len(ats) == 1, key + ":compared", "%s: each vertex must be compared with the last one kept (compared: %s with %s)" % (T.where, [sym.showt(a) for a in ats], [sym.showt(a) for a in prevs])):
        return
    prev, i = prevs.pop(), ats.pop()
    env.names.update(prev=prev, i=i)
    T.used.add(h)
    base, k = T.counter(i)
    one_ = lambda lo, hi: cn.poly(lo) == cn.poly(c(1)) and cn.poly(hi) == cn.poly(cn(n))
    if base[0] in ("idxin", "iv"):
        rep.check(one_(("bin", "Add", base[1], k), ("bin", "Add", base[2], k)), key + ":range", "%s: the loop must look at every vertex after the first, but runs over %s" % (T.where, sym.showt(i)))
    else:
        for s in T.segs:
            if s.end == ("enter", h):
                rep.check(s.ctx.equal(cn(("bin", "Add", s.vals.get(base, base), k)), cn(c(1))), key + ":range", "%s: the loop must start at the second vertex" % T.where)
            if s.end == ("back", h):
                rep.check(s.ctx.equal(cn(s.vals.get(base, base)), cn(("bin", "Add", base, c(1)))), key + ":range", "%s: the loop must go to the next vertex" % T.where)
                x = s.ctx.copy()
                x.add_lit(cn(("lt", i, n)), False)
                rep.check(not x.feasible(), key + ":range", "%s: the loop runs past the last vertex" % T.where)
    kept = lambda v, x: all(cn(("fld", v, d)) == cn(("fld", x, d)) for d in "xy")
    at = lambda j: call("at", ("sym", "self"), j)
    upto = lambda hi: made(call("is_closed", ("sym", "self")), [("call", "rng", (("sym", "self"), c(0), hi))])
    nrm = lambda v: v if v is None else cn(v)
    hit = set()

    def fail(what, s, msg):
        rep.fail(key + ":" + what, "%s: %s, on the path [%s]" % (T.where, msg, cut.short_facts(s, cn)))

    def asks(s, cond):
        """True / False / None: whether the path decided a condition"""
        r = []
        if isinstance(cond, str):
            sym.walk_trie(sym.build_trie([(cond, True), ("not (%s)" % cond, False)], env, cn), s.ctx, lambda ctx, _, v: r.append(v))
            r = sorted(set(r))
        else:
            for v in (True, False):
                x = s.ctx.copy()
                x.add_lit(cn(cond), v)
                if x.feasible():
                    r.append(v)
        return r[0] if len(r) == 1 else None
    for s in T.segs:
        rep.ob()
        if s.end[0] == "panic":
            fail("panic", s, "can panic (%s)" % s.end[1])
        elif s.start is None and s.end[0] == "ret":
            if not (asks(s, "n(self) < 2") is True and nrm(s.val) == cn(NONE)):
                fail("short", s, "with two or more vertexes the loop must be reached, with fewer the result must be None, but it is %s" % sym.showt(s.val))
            hit.add("short")
        elif s.end[0] == "enter":
            if nrm(s.vals.get(R)) != cn(NONE) or prev not in s.vals or not kept(s.vals[prev], at(c(0))):
                fail("start", s, "the loop must start with no result and at the first vertex, but starts with %s, %s" % (sym.showt(s.vals.get(R, R)), sym.showt(s.vals.get(prev, prev))))
            hit.add("start")
        elif s.end[0] == "back":
            rpt = asks(s, "same(V(at(self, i).x, at(self, i).y), V(prev.x, prev.y), eps)")
            o = is_some(s, R, cn)
            g, p = s.vals.get(R, R), s.vals.get(prev, prev)
            if rpt is None:
                fail("vertex:asks", s, "whether the vertex repeats the position of the last one kept must decide")
            elif not rpt:
                good = (g == R or cn(g) == cn(NONE)) if o is False else g == R if o is None else g[0] == "agg" and g[4] == "Some" and same_value(cn, s.ctx, g[5][0][1], call("append", inner(R), at(i)))
                if o is None or not good:
                    fail("vertex:kept", s, "a vertex at a new position must be added to the result if there is one yet (state now: %s)" % sym.showt(g))
                if not kept(p, at(i)):
                    fail("vertex:next", s, "the next vertex must be compared with this one, but it is compared with %s" % sym.showt(p))
            else:
                ok_ = o is not None and g[0] == "agg" and g[4] == "Some"
                a = g[5][0][1] if ok_ else None
                ok_ = ok_ and a[0] == "call" and a[1] == "assign" and same_value(cn, s.ctx, a[2][0], inner(R) if o else upto(i))
                if ok_:
                    B = a[2][0]
                    last = ("bin", "Sub", call("vertex_count", B), c(1))
                    x = call("at", B, last)
                    ok_ = cn(a[2][1]) == cn(last) and cn(a[2][2]) in (cn(PV(("fld", x, "x"), ("fld", x, "y"), ("fld", at(i), "bulge"))),)
                if not ok_:
                    fail("vertex:dropped", s, "a vertex that repeats the position of the last one kept must be left out and give its bulge to that one (result so far, or the vertexes before), but the result is %s" % sym.showt(g))
                if not kept(p, prev):
                    fail("vertex:next", s, "the last vertex kept must stay the one compared with, but it is %s" % sym.showt(p))
            hit.add((rpt, o))
        elif s.end[0] == "ret":
            o = is_some(s, R, cn)
            cl = asks(s, "closed(self)")
            on = asks(s, "same(V(at(self, 0).x, at(self, 0).y), V(prev.x, prev.y), eps)")
            many_ = asks(s, ("lt", c(1), call("vertex_count", inner(R)))) if o else True if o is False else None
            g = s.val
            if g == R or o is False and cn(g) == cn(NONE):
                few = False
                if o:
                    # the second of two vertexes was compared with the first one already
                    x = s.ctx.copy()
                    x.add_lit(cn(("lt", c(2), call("vertex_count", inner(R)))), True)
                    few = not x.feasible()
                if not (cl is False or on is False or few):
                    fail("closing:kept", s, "the last vertex of a closed polyline that lies on the first one must be removed (unless it is the only one)")
                hit.add("as is")
            else:
                good = cl and on and many_ and o is not None and g[0] == "agg" and g[4] == "Some" and g[5][0][1][0] == "call" and g[5][0][1][1] == "cut"
                if good:
                    B, j = g[5][0][1][2]
                    good = same_value(cn, s.ctx, B, inner(R) if o else upto(n)) and cn(j) == cn(("bin", "Sub", call("vertex_count", B), c(1)))
                if not good:
                    fail("closing:removed", s, "only the last vertex may be removed, and only when the polyline is closed, it lies on the first vertex and is not the only one; the result is %s" % sym.showt(g))
                hit.add(("closing", o))
    for x, msg in (("short", "fewer than two vertexes"), ("start", "the loop"), ((True, True), "a repeat vertex after the first removed"), ((True, False), "the first repeat vertex"), ((False, True), "a vertex that is kept"), (("closing", True), "a repeat vertex at the end"), (("closing", False), "a single repeat vertex at the end"), ("as is", "nothing more to remove")):
        rep.check(x in hit, key + ":never:" + sym.short(str(x)), "%s: no code path for: %s" % (T.where, msg))


def check_arcs(rep, prog):
    f = prog.one("arcs_to_approx_lines", trait_default="PlineSource")
    I = Simp(prog, OPQ, MODELS)
    rc = lambda a, b: call("seg_arc_radius_and_center", a, b)
    e = base_env(f, {"V": V2, "rad": lambda a, b: ("fld", rc(a, b), "0"), "cen": lambda a, b: ("fld", rc(a, b), "1"), "ang": lambda a, b: call("base_math::angle", a, b), "dang": lambda a, b: call("base_math::delta_angle", a, b)})
    T = cut.SegTable(rep, prog, f, I, e, key="arcs_to_approx_lines", kinds=("mut",), ignore=("reserve",))
    cn, key, env = T.cn, T.key, T.env
    fail = lambda what, s, msg: rep.fail(key + ":" + what, "%s: %s, on the path [%s]" % (T.where, msg, cut.short_facts(s, cn)))
    evs = lambda s: [x for x in s.events if x[0] == "mut" and x[2] not in ("reserve",)]
    n = call("vertex_count", ("sym", "self"))
    # the loops: one over the segments, and one over the inner points of one arc
    inner_ = {s.start for s in T.segs if s.end[0] == "back" and s.end[1] == s.start and any(sym.last(t[1]) == "point_on_circle" for x in evs(s) for t in sym.subterms(x) if isinstance(t, tuple) and t and t[0] == "call")}
    outer = {h for h in T.names if h not in inner_}
    if not rep.check(len(inner_) == 1 and len(outer) == 1, key + ":loops", "%s: a loop over the segments and one over the points along an arc are expected (%d, %d)" % (T.where, len(outer), len(inner_))):
        return
    h2, h1 = inner_.pop(), outer.pop()
    T.used |= {h1, h2}
    tgs = {x[1] for s in T.segs for x in evs(s)}
    if not rep.check(len(tgs) == 1, key + ":result", "%s: one polyline must be built, but the edits are made to %s" % (T.where, [sym.showt(t) if isinstance(t, tuple) else t for t in tgs])):
        return
    tg = tgs.pop()
    ats = {t[2][1] for s in T.segs if s.start == h1 and s.end[0] in ("back", "enter") for k in s.facts for t in sym.subterms(k) if isinstance(t, tuple) and t and t[0] == "call" and sym.last(t[1]) == "at" and t[2][0] == ("sym", "self")}
    ats = {a for a in ats if a[0] in ("idxin", "iv")}
    if not rep.check(len(ats) == 1 and cn(list(ats)[0]) == cn(("idxin", c(0), call("segment_count", ("sym", "self")))), key + ":segments", "%s: the loop must go over the segments, once each, but reads vertexes at %s" % (T.where, [sym.showt(a) for a in ats])):
        return
    i = ats.pop()
    v1, v2 = call("at", ("sym", "self"), i), call("at", ("sym", "self"), call("next_wrapping_index", ("sym", "self"), i))
    line = lambda v: PV(("fld", v, "x"), ("fld", v, "y"), c(0))
    env.names.update(v1=v1, v2=v2, e=call("abs", ("sym", "error_distance")))
    r, ce = "rad(v1, v2)", "cen(v1, v2)"
    a0, a1 = "ang(%s, pos(v1))" % ce, "ang(%s, pos(v2))" % ce
    env.names["abs"] = lambda x: call("abs", x)
    env.names["acos"] = lambda x: call("acos", x)
    env.names["ceil"] = lambda x: call("ceil", x)
    diff = "abs(dang(%s, %s))" % (a0, a1)
    count = "ceil(%s / (2 * abs(acos(1 - e / %s))))" % (diff, r)
    env.names["r"], env.names["diff"], env.names["count"], env.names["a0"] = env.term(r), env.term(diff), env.term(count), env.term(a0)
    env.names["flt"] = lambda a, b: call("fuzzy_lt_eps", a, b, call("fuzzy_epsilon"))
    usize = ("call", "to_usize")

    def case(s):
        """which kind of segment the path is about: line, small (arc), neg, pos"""
        out = []
        zero = "feq(v1.bulge, 0, call_eps)"
        cases = [("bz", "line"), ("not bz and small", "small"), ("not bz and not small and v1.bulge < 0", "neg"), ("not bz and not small and v1.bulge >= 0", "pos")]
        sym.walk_trie(sym.build_trie(cases, env, cn), s.ctx, lambda ctx, _, v: out.append(v))
        return set(out)
    env.names["bz"] = sym.feq(env.term("v1.bulge"), c(0), call("fuzzy_epsilon"))
    env.names["small"] = call("fuzzy_lt_eps", env.term("r"), env.term("e"), call("fuzzy_epsilon"))
    start = {}
    hit = set()
    for s in T.segs:
        rep.ob()
        es = evs(s)
        what = [x[2] for x in es]
        if any(w != "append" for w in what):
            fail("edits", s, "vertexes may only be added, but the code does %s" % [cut.show_event(x) for x in es])
            continue
        vs = [cn(x[3][2][0]) for x in es]
        if s.end[0] == "panic":
            if s.end[1] == "unwrap" and s.start == h1 and not es and any(k[0] == "b" and k[1][0] == "lt" for k in s.facts):
                # last() of a polyline that is not empty
                x = s.ctx.copy()
                x.add_lit(cn(("lt", n, c(1))), True)
                ok_ = True
                y = s.ctx.copy()
                y.add_lit(cn(("lt", n, c(1))), False)
                if not y.feasible():
                    continue
            fail("panic", s, "can panic (%s)" % (s.end[1],))
        elif s.start is None:
            if s.end[0] == "ret":
                empty = s.ctx.copy()
                empty.add_lit(cn(("lt", c(0), n)), True)
                v = s.val
                good = not empty.feasible() and v is not None and v[0] == "agg" and v[4] == "Some" and same_value(cn, s.ctx, v[5][0][1], made(call("is_closed", ("sym", "self")), ())) and not es
                if not good:
                    fail("empty", s, "only an empty polyline may be skipped, and gives an empty result as closed as it is, but the result is %s" % (sym.showt(v) if v else None))
                hit.add("empty")
            else:
                xs = [x for k, x in s.vals.items() if parts(cn, s.ctx, x)[0] is not None]
                good = s.end == ("enter", h1) and not es and any(same_value(cn, s.ctx, x, made(call("is_closed", ("sym", "self")), ())) for x in xs)
                if not good:
                    fail("start", s, "the result must start empty and as closed as the polyline")
                hit.add("start")
        elif s.start == h1:
            if s.end[0] == "ret" and (s.val is None or cn(s.val) == cn(NONE)):
                # the number of points cannot be represented
                k = [k for k in s.facts if k[0] == "int" and k[1][0] == "discr" and any(isinstance(t, tuple) and t and t[0] == "call" and sym.last(t[1]) in ("to_usize", "from") for t in sym.subterms(k[1][1]))]
                if not k:
                    fail("gives up", s, "None may be returned only when a number cannot be converted")
                continue
            if s.end[0] == "ret":
                ask = []
                sym.walk_trie(sym.build_trie([("closed(self)", True), ("not closed(self)", False)], env, cn), s.ctx, lambda ctx, _, v: ask.append(v))
                want = [] if set(ask) == {True} else [cn(call("at", ("sym", "self"), ("bin", "Sub", n, c(1))))]
                v = s.val[5][0][1] if s.val is not None and s.val[0] == "agg" and s.val[4] == "Some" else None
                base = v
                while base is not None and base[0] == "call" and base[1] == "append":
                    base = base[2][0]
                if len(set(ask)) != 1 or vs != want or base is None or base[0] != "loop":
                    fail("end", s, "at the end the last vertex must be added if the polyline is open, nothing if it is closed, and the result returned; but the code does %s and returns %s" % ([cut.show_event(x) for x in es], sym.showt(s.val)))
                hit.add(("end", tuple(sorted(set(ask)))))
                continue
            for k in case(s):
                hit.add((k, s.end[0]))
                if k == "line":
                    good = s.end == ("back", h1) and (vs == [cn(v1)] or vs == [cn(line(v1))])
                elif k == "small":
                    good = s.end == ("back", h1) and vs == [cn(line(v1))]
                else:
                    good = s.end == ("enter", h2) and vs == [cn(line(v1))]
                    start.setdefault(k, []).append(s)
                if not good:
                    fail("segment:" + k, s, "%s, but the code does %s and %s" % ({"line": "the start of a line must be added as it is", "small": "an arc smaller than the error becomes one line from its start", "neg": "an arc starts with its first vertex, followed by the points along it", "pos": "an arc starts with its first vertex, followed by the points along it"}[k], [cut.show_event(x) for x in es], s.end[0]))
        elif s.start == h2:
            if s.end[0] == "ret" and s.val is not None and cn(s.val) == cn(NONE):
                k = [k for k in s.facts if k[0] == "int" and k[1][0] == "discr"]
                if not k or es:
                    fail("gives up", s, "None may be returned only when a number cannot be converted")
            elif s.end == ("back", h2):
                hit.add("point")
                env.names["m"] = None
                good = len(vs) == 1
                poc = [t for t in sym.subterms(es[0]) if isinstance(t, tuple) and t and t[0] == "call" and sym.last(t[1]) == "point_on_circle"] if good else []
                if not poc:
                    fail("point", s, "one point along the arc must be added, but the code does %s" % [cut.show_event(x) for x in es])
                    continue
                p = poc[0]
                if vs[0] != cn(PV(("fld", p, "x"), ("fld", p, "y"), c(0))) or cn(p[2][0]) != cn(env.term("r")) or cn(p[2][1]) != cn(env.term(ce)):
                    fail("point", s, "the point added must lie on the circle of the arc, with a line to the next one, but is %s" % sym.showt(vs[0]))
                want = lambda hi: hi[0] == "fld" and hi[1][0] == "as" and sym.last(hi[1][1][1]) == "to_usize" and cn(hi[1][1][2][0]) == cn(env.term("count"))
                steady = lambda x: s.vals.get(x, x) == x
                ctr = {g for g in sym.subterms(p[2][2]) if isinstance(g, tuple) and g and (g[0] in ("idxin", "iv") and cn(g) != cn(i) or g[0] == "loop" and g[2] == h2[1] and not steady(g))}
                if not rep.check(len(ctr) == 1, key + ":points", "%s: the angle of a point must depend on its number only (%s)" % (T.where, sym.showt(p[2][2]))):
                    continue
                j = ctr.pop()
                if j[0] == "loop":
                    over = [t[2] for k, v in s.facts.items() if k[0] == "b" for t in [k[1]] if t[0] == "lt" and v is True and cn(t[1]) == cn(j)]
                    good = len(over) == 1 and want(over[0]) and cn.poly(s.vals[j]) == cn.poly(("bin", "Add", j, c(1))) and all(s0.vals.get(j) == c(1) for ss in start.values() for s0 in ss)
                else:
                    good = cn.poly(j[1]) == cn.poly(c(1)) and want(j[2])
                if not good:
                    fail("points", s, "the points 1 .. number of lines must be added, where the number is the angle of the arc over that of a line within the error, rounded up; but the loop runs over %s" % sym.showt(j))
                for k, ss in start.items() or [(None, [])]:
                    for s0 in ss:
                        m = {x: y for x, y in s0.vals.items() if x[0] == "loop" and x[2] == h2[1] and s.vals.get(x, x) == x}
                        q = cn.poly(p[2][2])
                        for x, y in m.items():
                            q = sym.substitute(q, x, cn.poly(y))
                        env.names["j"] = j
                        exp = cn.poly(env.term("a0 + j * %sdiff / count" % ("-" if k == "neg" else "")))
                        if q != exp:
                            fail("angle:" + k, s0, "point number j of an arc must lie at start angle %s j * angle / number of lines, but lies at %s" % ("-" if k == "neg" else "+", sym.showt(p[2][2])))
            elif s.end == ("back", h1) and not es:
                hit.add("next")
            else:
                fail("point:other", s, "after the points the next segment follows, but the code does %s and %s" % ([cut.show_event(x) for x in es], s.end[0]))
    for x, msg in (("empty", "an empty polyline"), ("start", "the loop"), (("line", "back"), "a line"), (("small", "back"), "an arc smaller than the error"), (("neg", "enter"), "a clockwise arc"), (("pos", "enter"), "a counter clockwise arc"), ("point", "a point along an arc"), ("next", "the next segment"), (("end", (True,)), "the end of a closed polyline"), (("end", (False,)), "the end of an open polyline")):
        rep.check(x in hit, key + ":never:" + sym.short(str(x)), "%s: no code path for: %s" % (T.where, msg))



# ---------------------------------------------------------------------------------------------- redundant vertexes
class Facts:
    def __init__(self, facts):
        self.facts = facts


PI_ = sym.PI


def sure(*vs):
    """three valued and"""
    return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True


def inv(v):
    return None if v is None else not v


def either(*vs):
    return inv(sure(*[inv(v) for v in vs]))


class Redundant:
    """the three vertexes looked at are p1 (last one kept), p2 (the one in question) and v3 (the next one); a vertex is
    discarded, merged into the arc before it, or included"""

    def __init__(self, rep, prog):
        f = prog.one("remove_redundant", trait_default="PlineSource")
        I = Simp(prog, OPQ, MODELS)
        self.rep, self.key = rep, "remove_redundant"
        self.T = T = cut.SegTable(rep, prog, f, I, base_env(f, {"V": V2}), key=self.key, kinds=("mut",), ignore=("reserve",))
        self.cn, self.env = T.cn, T.env
        self.n = call("vertex_count", ("sym", "self"))
        T.segs = [s for s in T.segs if s.end != ("panic", "unwrap")]            # the new polyline has a last vertex
        self.eps0 = call("fuzzy_epsilon")
        self.hit = set()

    def at(self, i):
        return call("at", ("sym", "self"), i)

    def fail(self, what, s, msg):
        self.rep.fail("%s:%s" % (self.key, what), "%s: %s, on the path [%s]" % (self.T.where, msg, cut.short_facts(s, self.cn)))

    def asks(self, ctx, t):
        r = set()
        for v in (True, False):
            x = ctx.copy()
            x.add_lit(self.cn(t), v)
            if x.feasible() and not self.opposed(ctx, self.cn(t), v):
                r.add(v)
        return r.pop() if len(r) == 1 else None

    def opposed(self, ctx, t, v):
        while t[0] == "not":
            t, v = t[1], not v
        k = ctx.lits.get(t)
        if k is None and t[0] == "call":
            k = ctx.lits.get(("call", t[1], tuple(ctx.simp(x) for x in t[2])))
        return k is not None and k is not v

    # the questions asked about vertexes
    def zero(self, v):
        return sym.feq(("fld", v, "bulge"), c(0), self.eps0)

    def posb(self, v):
        return ("flt", c(0), ("fld", v, "bulge"))

    def same(self, a, b):
        return self.env.names["same"](pos(a), pos(b), self.env.names["eps"])

    def collinear(self, a, b, d):
        e = sym.Env(dict(self.env.names, a=a, b=b, d=d))
        return (e.term("feq(a.x * (b.y - d.y) + b.x * (d.y - a.y) + d.x * (a.y - b.y), 0, eps)"), ("lt", e.term("-eps"), e.term("(d.x - b.x) * (b.x - a.x) + (d.y - b.y) * (b.y - a.y)")))

    def arc(self, r1, c1, a, b, d):
        """radius and center of a-b -> (conditions to merge, sweep of both)"""
        rc = call("seg_arc_radius_and_center", b, d)
        r2, c2 = ("fld", rc, "0"), ("fld", rc, "1")
        ang = lambda v: call("base_math::angle", c1, pos(v))
        d_ = lambda x, y: call("abs", call("base_math::delta_angle", x, y))
        eps = self.env.names["eps"]
        sweep = ("bin", "Add", d_(ang(a), ang(b)), d_(ang(b), ang(d)))
        avg = ("bin", "Div", ("bin", "Add", r1, r2), c(2))
        return (sym.feq(r1, r2, eps), call("veq", c1, c2, eps), call("fuzzy_lt_eps", ("bin", "Mul", avg, sweep), ("bin", "Mul", avg, PI_), eps)), call("bulge_from_angle", sweep)

    def run(self):
        T, cn = self.T, self.cn
        if not T.ok:
            return
        hs = list(T.names)
        rets = {}
        for s in T.segs:
            if s.end[0] == "ret" and s.start is not None:
                rets.setdefault(s.start, []).append(s)
        big = [h for h in hs if sum(s.start == h and s.end == ("back", h) for s in T.segs) >= 3]
        if not self.rep.check(len(hs) == 2 and len(big) == 1, self.key + ":loops", "%s: a loop over the repeats at the start and one over all vertexes are expected" % T.where):
            return
        h2 = big[0]
        h1 = [h for h in hs if h != h2][0]
        T.used |= {h1, h2}
        self.h1, self.h2 = h1, h2
        if self.roles() and self.start_loop():
            self.flags()
            self.iteration()
            self.after()
        self.short()
        for x, msg in (("short", "fewer than two vertexes"), ("two", "two vertexes that coincide"), ("two apart", "two vertexes"), ("repeat at start", "a vertex that repeats the first one"), ("all repeat", "nothing but repeats of the first one"), ("discard", "a vertex removed without trace"), ("include", "a vertex kept"), ("merge", "a vertex merged into the arc before it"), ("end open", "the end of an open polyline"), ("end closed", "the end of a closed polyline"), ("first line", "the first vertex within a line"), ("first arc", "the first vertex within an arc")):
            self.rep.check(x in self.hit, self.key + ":never:" + x, "%s: no code path for: %s" % (T.where, msg))

    def roles(self):
        T, cn, h2 = self.T, self.cn, self.h2
        backs = [s for s in T.segs if s.start == h2 and s.end == ("back", h2)]
        ls = {k for s in backs for k in s.vals if k[0] == "loop" and k[2] == h2[1]}
        val = lambda s, k: s.vals.get(k, k)
        p2 = [(k, cn(val(backs[0], k))) for k in ls if val(backs[0], k)[0] in ("fld", "call", "agg") and len({cn(val(s, k)) for s in backs}) == 1 and val(backs[0], k) != k and (val(backs[0], k)[0] == "fld" or sym.last(val(backs[0], k)[1]) == "at")]
        if not self.rep.check(len(p2) == 1, self.key + ":next", "%s: after every vertex the next one must be in question (found %d variables that always advance)" % (T.where, len(p2))):
            return False
        self.P2, self.v3 = p2[0]
        p1 = [k for k in ls if k != self.P2 and any(val(s, k) == self.P2 for s in backs)]
        if not self.rep.check(len(p1) == 1, self.key + ":kept", "%s: a vertex that is kept must become the one before (found %d variables)" % (T.where, len(p1))):
            return False
        self.P1 = p1[0]
        rs = {s.val for s in T.segs if s.start == h2 and s.end[0] == "ret" and s.val is not None and s.val[0] == "loop"}
        if not self.rep.check(len(rs) == 1, self.key + ":result", "%s: one result is expected" % T.where):
            return False
        self.R = rs.pop()
        # what may be kept about the arc between the two
        arcs = [k for k in ls if k not in (self.R, self.P1, self.P2) and any(x[0] == "int" and x[1] == ("discr", k) for s in T.segs for x in s.facts)]
        self.A = arcs[0] if len(arcs) == 1 else None
        self.rep.check(len(arcs) <= 1, self.key + ":arc kept", "%s: more than one optional value is kept between the vertexes" % T.where)
        # the index of v3
        self.i = None
        if self.v3[0] == "fld" and self.v3[1][0] == "elem":
            self.it = self.v3[1][1]
            self.i = ("fld", self.v3[1], "0")
        elif self.v3[0] == "call" and sym.last(self.v3[1]) == "at" and self.v3[2][0] == ("sym", "self") and self.v3[2][1][0] == "rem":
            # an index that wraps around
            _, e, m = self.v3[2][1]
            if e[0] == "elem" and cn(m) == cn(self.n):
                self.i, self.it = e, e[1]
        return True

    def start_loop(self):
        T, cn, h1, h2 = self.T, self.cn, self.h1, self.h2
        if not self.rep.check(self.i is not None, self.key + ":order", "%s: the vertexes must be visited in order, with their index (found %s)" % (T.where, sym.showt(self.v3))):
            return False
        ent = [s for s in T.segs if s.end == ("enter", h2)]
        e1 = [s for s in T.segs if s.end == ("enter", h1)]
        if not self.rep.check(ent and e1 and all(s.start == h1 for s in ent), self.key + ":start", "%s: the repeats at the start must be removed first" % T.where):
            return False
        first = self.at(c(0))
        for s in ent:
            self.rep.ob()
            p1, p2 = s.vals.get(self.P1), s.vals.get(self.P2)
            ok_ = p1 is not None and p2 is not None and p2[0] == "loop" and all(cn(("fld", p1, d)) == cn(("fld", first, d)) for d in "xy")
            b = cn(("fld", p1, "bulge")) if ok_ else None
            it = s.vals.get(self.it)
            x = self.walk(it)
            if not (ok_ and b[0] == "loop" and x is not None):
                self.fail("start:vertexes", s, "the loop must start with the first vertex, the first one after its repeats and the vertex after that, but starts with %s, %s, %s" % (sym.showt(p1) if p1 else None, sym.showt(p2) if p2 else None, sym.showt(it) if it else None))
                return False
            self.q2, self.b1, self.k = p2, b, x[0]
            a1 = ("upd", first, (("f", "bulge"),), b)
            self.a1 = a1
            cl = self.asks(s.ctx, call("is_closed", ("sym", "self")))
            m = ("bin", "Sub", self.n, self.k)
            m = ("bin", "Add", m, c(1)) if cl else m
            if cl is None or not s.ctx.equal(cn(x[1]), cn(m)):
                self.fail("start:count", s, "the vertex after the one in question must go up to %s, but the loop makes %s rounds from index %s" % ("the first vertex again" if cl else "the last vertex", sym.showt(x[1]), sym.showt(x[0])))
            z = s.ctx.copy()
            z.add_lit(cn(("lt", self.k, c(2))), False)             # it starts with 2 and only grows (below)
            none = self.decide_eq(z, self.k, c(2))
            r = s.vals.get(self.R)
            if none is None:
                self.fail("start:result", s, "whether vertexes have been removed must decide if there is a result yet")
            elif none:
                if cn(r) != cn(NONE):
                    self.fail("start:result", s, "with nothing removed there must be no result yet, but it is %s" % sym.showt(r))
            elif not (r[0] == "agg" and r[4] == "Some" and self.is_single(s, r[5][0][1], p1)):
                self.fail("start:result", s, "with repeats of the first vertex removed the result must be that vertex alone, as closed as the polyline, but is %s" % sym.showt(r))
            if self.A is not None and cn(s.vals.get(self.A, self.A)) != cn(NONE):
                self.fail("start:arc", s, "no arc is known at the start")
            self.rep.check(self.differs(s.ctx, first, self.q2), self.key + ":start:repeats", "%s: the loop over the repeats must end only at a vertex with another position" % T.where)
        for s in e1:
            self.rep.ob()
            if not (cn(s.vals.get(self.q2)) == cn(self.at(c(1))) and cn(s.vals.get(self.b1)) == cn(("fld", first, "bulge")) and cn(s.vals.get(self.k)) == cn(c(2))):
                self.fail("start:first", s, "the search for repeats must start with the first two vertexes and go on with the third")
        for s in T.segs:
            if s.start != h1 or s.end == ("enter", h2):
                continue
            self.rep.ob()
            rpt = self.asks(s.ctx, self.same(first, self.q2))
            more = self.asks(s.ctx, ("lt", self.k, self.n))
            if s.end == ("back", h1):
                v = s.vals
                if not (rpt and more and cn(v.get(self.b1, self.b1)) == cn(("fld", self.q2, "bulge")) and cn(v.get(self.q2)) == cn(self.at(self.k)) and s.ctx.equal(cn(v.get(self.k)), cn(("bin", "Add", self.k, c(1))))):
                    self.fail("start:repeat", s, "a vertex that repeats the first one must give it its bulge, the next one follows; but the code goes on with bulge %s, vertex %s, index %s" % tuple(sym.showt(v.get(x, x)) for x in (self.b1, self.q2, self.k)))
                self.hit.add("repeat at start")
            elif s.end[0] == "ret":
                v = s.val
                want = ("upd", first, (("f", "bulge"),), ("fld", self.q2, "bulge"))
                if not (rpt and more is False and v[0] == "agg" and v[4] == "Some" and self.is_single(s, v[5][0][1], want)):
                    self.fail("start:all", s, "only when all vertexes repeat the first one that one is left, with the bulge of the last, but the result is %s" % sym.showt(v))
                self.hit.add("all repeat")
            else:
                self.fail("start:other", s, "unexpected: %s" % (s.end,))
        return True

    def decide_eq(self, ctx, a, b):
        cn = self.cn
        x, y = ctx.copy(), ctx.copy()
        d = sym.P.sub(cn.poly(a), cn.poly(b))
        x.cons.append((d, "eq"))
        y.cons.append((d, "ne"))
        r = [v for v, z in ((True, x), (False, y)) if z.feasible()]
        return r[0] if len(r) == 1 else None

    def differs(self, ctx, a, b):
        return self.asks(ctx, self.same(a, b)) is False

    def is_single(self, s, g, v):
        k, ps = parts(self.cn, s.ctx, g)
        cn = self.cn
        return k is not None and s.ctx.equal(cn(k), cn(call("is_closed", ("sym", "self")))) and len(ps) == 1 and ps[0][0] == "one" and self.same_vertex(s.ctx, ps[0][1], v)

    def same_vertex(self, ctx, a, b):
        cn = self.cn
        return all(ctx.equal(cn(("fld", a, d)), cn(("fld", b, d))) for d in ("x", "y", "bulge"))

    def walk(self, it):
        """vertexes around, with index, from k, m of them -> (k, m)"""
        strip = lambda t: t[1] if t[0] == "iter" else t
        t = strip(it) if it is not None else ("?",)
        if self.v3[0] == "call" and t[0] == "range":
            return t[1], ("bin", "Sub", t[2], t[1])
        if t[0] != "call" or sym.last(t[1]) != "take":
            return None
        u, m = strip(t[2][0]), t[2][1]
        if u[0] != "call" or sym.last(u[1]) != "skip":
            return None
        e, k = strip(u[2][0]), u[2][1]
        if e[0] != "enum":
            return None
        y = strip(e[1])
        if y[0] != "call" or sym.last(y[1]) != "cycle" or strip(y[2][0]) != ("verts", ("sym", "self")):
            return None
        return k, m

    def flags(self):
        """loop variables that always equal a question about the two vertexes"""
        T, cn, h2 = self.T, self.cn, self.h2
        P1, P2 = self.P1, self.P2
        cand = {"z1": lambda a, b: self.zero(a), "z2": lambda a, b: self.zero(b), "p1": lambda a, b: self.posb(a), "p2": lambda a, b: self.posb(b)}
        ent = [s for s in T.segs if s.end == ("enter", h2)]
        backs = [s for s in T.segs if s.start == h2 and s.end == ("back", h2)]
        fl = {}
        for k in {k for s in ent for k in s.vals if k[0] == "loop"} - {P1, P2, self.R, self.A}:
            for n_, g in cand.items():
                if all(cn(s.vals[k]) == cn(g(s.vals[P1], s.vals[P2])) for s in ent):
                    fl[k] = n_
        m = {k: cn(cand[n_](P1, P2)) for k, n_ in fl.items()}
        self.m = m
        for s in T.segs:
            if s.start == h2:
                s.facts = {sym.replace(k, m): v for k, v in s.facts.items()}
                x = sym.Ctx(cn)
                x.add_facts(Facts(s.facts))
                s.ctx = x
                i = self.i
                if s.end[0] == "back":
                    x.add_lit(cn(("lt", self.n, i)), False)
                    if self.asks(x, call("is_closed", ("sym", "self"))) is False:
                        x.add_lit(cn(("lt", i, self.n)), True)
        T.segs = [s for s in T.segs if s.start != h2 or s.ctx.feasible()]
        for s in [s for s in backs if s in T.segs]:
            for k, n_ in fl.items():
                self.rep.ob()
                v, w = sym.replace(s.vals.get(k, k), m), cand[n_](s.vals.get(P1, P1), s.vals.get(P2, P2))
                if cn(v) == cn(w):
                    continue
                a, b = self.asks(s.ctx, v), self.asks(s.ctx, w)
                if a is not None and a == b:
                    continue
                if n_ in ("z1", "p1") and self.merged(s):
                    # the bulge of an arc merged of two: not zero, with their sign
                    want = False if n_ == "z1" else self.asks(s.ctx, self.posb(P1))
                    if a is not None and a == want:
                        continue
                    if cn(v) in (cn(cand[n_](P1, P2)), cn(cand[n_[0] + "2"](P1, P2))) and self.equal_bools(s.ctx, cand[n_[0] + "1"](P1, P2), cand[n_[0] + "2"](P1, P2)):
                        continue
                    if cn(v) == cn(cand[n_](P1, P2)):
                        continue
                self.fail("flag:" + n_, s, "what is remembered about %s must stay true, but becomes %s" % ("the vertex before" if n_[1] == "1" else "the vertex in question", sym.showt(v)))

    def merged(self, s):
        p = s.vals.get(self.P1, self.P1)
        b = self.cn(("fld", p, "bulge"))
        return p != self.P1 and p != self.P2 and any(isinstance(t, tuple) and t and t[0] == "call" and sym.last(t[1]) == "bulge_from_angle" for t in sym.subterms(b))

    def equal_bools(self, ctx, a, b):
        x, y = self.asks(ctx, a), self.asks(ctx, b)
        if x is not None and y is not None:
            return x == y
        cn = self.cn
        for op in ("eq", "Eq"):
            for u, v in ((a, b), (b, a)):
                for k in ((op, cn(u), cn(v)), ("bin", op, cn(u), cn(v))):
                    if k in ctx.lits:
                        return ctx.lits[k]
        r = self.asks(ctx, ("eq", a, b))
        if r is None:
            r = inv(self.asks(ctx, ("bin", "Ne", a, b)))
        return r

    def judge(self, ctx, v1, v2, v3, arc1, facts):
        """what must happen to v2 -> ("discard" | "merge" | "include", bulge) or None when the path does not tell"""
        z1, z2 = self.asks(ctx, self.zero(v1)), self.asks(ctx, self.zero(v2))
        rpt = self.asks(ctx, self.same(v2, v3))
        col = [self.asks(ctx, t) for t in self.collinear(v1, v2, v3)]
        line = sure(z1, z2, either(rpt, sure(*col)))
        pe = self.equal_bools(ctx, self.posb(v1), self.posb(v2))
        cs, bulge = self.arc(arc1[0], arc1[1], v1, v2, v3)
        merge = sure(inv(z1), inv(z2), pe, inv(rpt), *[self.asks(ctx, t) for t in cs])
        return z1, z2, rpt, line, merge, bulge

    def arc1(self, s, v1, v2):
        if self.A is not None and is_some(s, self.A, self.cn):
            p = inner(self.A)
            return ("fld", p, "0"), ("fld", p, "1")
        rc = call("seg_arc_radius_and_center", v1, v2)
        return ("fld", rc, "0"), ("fld", rc, "1")

    def iteration(self):
        T, cn, h2 = self.T, self.cn, self.h2
        P1, P2, v3, R = self.P1, self.P2, self.v3, self.R
        upto = ("bin", "Sub", self.i, c(1))

        def copied(g):
            strip = lambda t: t[1] if t[0] == "iter" else t
            if g[0] == "call" and g[1] == "made" and len(g[2][1][2]) == 1:
                p = g[2][1][2][0]
                return p[1] == "rng" and p[2][0] == ("sym", "self") and p[2][1] == c(0) and cn(p[2][2]) == cn(upto) and cn(g[2][0]) == cn(call("is_closed", ("sym", "self")))
            if not (g[0] == "call" and sym.last(g[1]) == "from_iter" and cn(g[2][1]) == cn(call("is_closed", ("sym", "self")))):
                return False
            t = strip(g[2][0])
            return t[0] == "call" and sym.last(t[1]) == "take" and strip(t[2][0]) == ("verts", ("sym", "self")) and cn(t[2][1]) == cn(upto)
        for s in T.segs:
            if s.start != h2 or s.end[0] == "ret":
                continue
            self.rep.ob()
            if s.end != ("back", h2):
                self.fail("vertex:other", s, "unexpected: %s" % (s.end,))
                continue
            g, p = s.vals.get(R, R), s.vals.get(P1, P1)
            o = is_some(s, R, cn)
            z1, z2, rpt, line, merge, bulge = self.judge(s.ctx, P1, P2, v3, self.arc1(s, P1, P2), s.facts)
            some_ = g[0] == "agg" and g[4] == "Some"
            new = g[5][0][1] if some_ else None
            base_ok = lambda B: cn(B) == cn(inner(R)) if o else o is False and copied(B)
            A = s.vals.get(self.A, self.A) if self.A is not None else NONE
            if p == P2:
                what = "include"
                if not (rpt is False and line is False and merge is False):
                    self.fail("vertex:include", s, "a vertex that repeats the next one, lies within a line or can be merged into the arc before it must not be kept")
                good = g == R if o is not True else some_ and same_value(cn, s.ctx, new, call("append", inner(R), P2))
                if o is False and cn(g) == cn(NONE):
                    good = True
                if o is None or not good:
                    self.fail("vertex:include:result", s, "a vertex that is kept must be added to the result, if there is one yet, but it becomes %s" % sym.showt(g))
                self.arc_after(s, A, keep=False)
            elif self.merged(s):
                what = "merge"
                if not (rpt is False and merge):
                    self.fail("vertex:merge", s, "a vertex may be merged into the arc before it only if both segments lie on one circle, in the same direction, with less than a half circle in total")
                neg = inv(self.asks(s.ctx, self.posb(P1)))
                b = ("un", "Neg", bulge) if neg else bulge
                ok_ = neg is not None and all(cn(("fld", p, d)) == cn(("fld", P1, d)) for d in "xy") and cn(("fld", p, "bulge")) == cn(b)
                if not ok_:
                    self.fail("vertex:merge:arc", s, "the arc merged must run from the vertex before with the bulge of both sweeps in their direction, but is %s" % sym.showt(p))
                good = some_ and new[0] == "call" and new[1] == "assign" and base_ok(new[2][0])
                if good:
                    B = new[2][0]
                    last = ("bin", "Sub", call("vertex_count", B), c(1))
                    x = call("at", B, last)
                    good = cn(new[2][1]) == cn(last) and cn(new[2][2]) in (cn(PV(("fld", x, "x"), ("fld", x, "y"), b)), cn(PV(("fld", P1, "x"), ("fld", P1, "y"), b)))
                if not good:
                    self.fail("vertex:merge:result", s, "the last vertex of the result (or of the vertexes before) must take the bulge of the merged arc, but the result becomes %s" % sym.showt(g))
                self.arc_after(s, A, keep=True)
            else:
                what = "discard"
                if not (either(rpt, line) and all(cn(("fld", p, d)) == cn(("fld", P1, d)) for d in ("x", "y", "bulge"))):
                    self.fail("vertex:discard", s, "a vertex may be dropped without trace only if it repeats the next one or lies within a line")
                if not (g == R if o else some_ and base_ok(new)):
                    self.fail("vertex:discard:result", s, "when a vertex is dropped the result stays as it is, or is the vertexes before, but it becomes %s" % sym.showt(g))
                self.arc_after(s, A, keep=False)
            self.hit.add(what)

    def arc_after(self, s, A, keep):
        cn = self.cn
        if self.A is None:
            return
        self.rep.ob()
        ok_ = cn(A) == cn(NONE)
        if not ok_ and A == self.A:
            ok_ = is_some(s, self.A, cn) is False or keep
        if not ok_ and keep and A[0] == "agg" and A[4] == "Some":
            rc = call("seg_arc_radius_and_center", self.P1, self.P2)
            ok_ = cn(A[5][0][1]) == cn(rc) or all(cn(("fld", A[5][0][1], d)) == cn(("fld", rc, d)) for d in "01")
        if not ok_:
            self.fail("vertex:arc", s, "the arc remembered must be forgotten when one of its two ends changes, but becomes %s" % sym.showt(A))

    def plain(self, t):
        """a vertex that was removed is the one that was there"""
        if not isinstance(t, tuple):
            return t
        t = tuple(self.plain(x) for x in t)
        if len(t) == 3 and t[0] == "call" and t[1] == "removed":
            return call("at", t[2][0], t[2][1])
        return t

    def all_of(self, ctx):
        return made(call("is_closed", ("sym", "self")), [("call", "rng", (("sym", "self"), c(0), self.n))])

    def after(self):
        T, cn, h2 = self.T, self.cn, self.h2
        R, P1, P2 = self.R, self.P1, self.P2
        L = self.at(("bin", "Sub", self.n, c(1)))
        nv = lambda B: call("vertex_count", B)
        lastidx = lambda B: ("bin", "Sub", nv(B), c(1))
        first = self.at(c(0))
        for s in T.segs:
            if s.start != h2 or s.end[0] != "ret":
                continue
            self.rep.ob()
            cl = self.asks(s.ctx, call("is_closed", ("sym", "self")))
            o = is_some(s, R, cn)
            g = self.plain(s.val)
            new = g[5][0][1] if g[0] == "agg" and g[4] == "Some" else None
            if cl is None or o is None:
                self.fail("end:asks", s, "the end of a closed polyline differs from that of an open one, and both from no result yet")
                continue
            if not cl:
                self.hit.add("end open")
                if not o:
                    # the last two vertexes do not coincide here (one would have been dropped)
                    K = self.at(("bin", "Sub", self.n, c(2)))
                    dead = self.asks(s.ctx, self.same(K, L)) or all(self.asks(s.ctx, sym.feq(("fld", K, d), ("fld", L, d), self.env.names["eps"])) for d in "xy")
                    ok_ = cn(g) == cn(NONE) or g == R or dead and new is not None and new[0] == "call" and new[1] == "cut" and same_value(cn, s.ctx, new[2][0], self.all_of(s.ctx)) and cn(new[2][1]) == cn(lastidx(new[2][0]))
                    if not ok_:
                        self.fail("end:open", s, "with nothing removed there must be no result, but it is %s" % sym.showt(g))
                    continue
                B = inner(R)
                rpt = self.asks(s.ctx, self.same(call("at", B, lastidx(B)), L))
                some0 = self.asks(s.ctx, ("lt", c(0), nv(B)))
                ok_ = new is not None
                if ok_ and new[0] == "call" and new[1] == "append":
                    ok_ = (rpt is False or some0 is False) and cn(new[2][0]) == cn(B) and self.same_vertex(s.ctx, new[2][1], L)
                elif ok_ and new[0] == "call" and new[1] == "assign":
                    x = call("at", B, lastidx(B))
                    ok_ = bool(rpt) and cn(new[2][0]) == cn(B) and cn(new[2][1]) == cn(lastidx(B)) and cn(new[2][2]) == cn(PV(("fld", x, "x"), ("fld", x, "y"), ("fld", L, "bulge")))
                else:
                    ok_ = False
                if not ok_:
                    self.fail("end:open", s, "the last vertex of an open polyline must be added (or give its bulge to the last one there when that coincides), but the result is %s" % sym.showt(g))
                continue
            self.hit.add("end closed")
            if o:
                B0 = inner(R)
                many = self.asks(s.ctx, ("lt", c(1), nv(B0)))
                rep_ = sure(many, self.asks(s.ctx, self.same(call("at", B0, lastidx(B0)), call("at", B0, c(0)))))
                if rep_ is None:
                    self.fail("end:repeat", s, "whether the last vertex left repeats the first one must decide")
                    continue
                B = call("cut", B0, lastidx(B0)) if rep_ else B0
                v1 = call("at", B, lastidx(B)) if rep_ else P1
                few = self.asks(s.ctx, ("lt", nv(B), c(2)))
                if few is None and not rep_ and many is False:
                    few = True
                # one vertex left
                if few or few is None:
                    if not (few and new is not None and cn(new) == cn(B) or few and g == R and not rep_):
                        self.fail("end:single", s, "a single vertex that is left is the result, but it is %s" % sym.showt(g))
                    continue
                v2 = ("upd", P2, (("f", "bulge"),), ("fld", call("at", B, c(0)), "bulge"))
                v3 = call("at", B, c(1))
                arc1 = self.arc1(s, v1, v2) if not rep_ else tuple(("fld", call("seg_arc_radius_and_center", v1, v2), d) for d in "01")
            else:
                rpt = self.asks(s.ctx, self.same(L, first))
                if rpt:
                    continue                                  # then it would have been dropped
                rep_ = False
                B, v1, v2, v3 = self.all_of(s.ctx), P1, P2, self.at(c(1))
                arc1 = self.arc1(s, v1, v2)
            z1, z2, rpt, line, merge, bulge = self.judge(s.ctx, v1, v2, v3, arc1, s.facts)
            same_as_B = new is not None and (cn(new) == cn(B) or same_value(cn, s.ctx, new, B)) or not rep_ and (g == R or not o and cn(g) == cn(NONE))
            if same_as_B:
                if not (line is False and merge is False):
                    self.fail("first:kept", s, "the first vertex must be removed when it lies within a line or can be merged into the arc before it (line: %s, arc: %s)" % (line, merge))
                continue
            ok_ = new is not None and new[0] == "call" and new[1] == "assign" and new[2][1] == c(0) and new[2][0][0] == "call" and new[2][0][1] == "cut"
            if ok_:
                C = new[2][0][2][0]
                ok_ = (cn(C) == cn(self.plain(B)) or same_value(cn, s.ctx, C, self.plain(B))) and cn(new[2][0][2][1]) == cn(lastidx(C))
            if not ok_:
                self.fail("first:result", s, "the first vertex may only be replaced by the last one, but the result is %s" % sym.showt(g))
                continue
            x = call("at", C, lastidx(C))
            b = cn(("fld", new[2][2], "bulge"))
            at_ = lambda v: all(cn(self.plain(("fld", new[2][2], d))) == cn(self.plain(("fld", v, d))) for d in "xy")
            if not (at_(x) or at_(v1)):
                self.fail("first:position", s, "the first vertex must be replaced by the last one, but becomes %s" % sym.showt(new[2][2]))
            if b in (cn(("fld", x, "bulge")), cn(self.plain(("fld", v1, "bulge")))):
                if not line:
                    self.fail("first:line", s, "the first vertex may be dropped without trace only within a line")
                self.hit.add("first line")
            else:
                neg = inv(self.asks(s.ctx, self.posb(v1)))
                w = self.plain(("un", "Neg", bulge) if neg else bulge)
                if not (merge and neg is not None and b == cn(w)):
                    self.fail("first:arc", s, "the first vertex may be merged into the arc before it only if both lie on one circle in the same direction with less than a half circle in total, and the arc takes the bulge of both sweeps; but it takes %s (allowed: %s)" % (sym.showt(b), merge))
                self.hit.add("first arc")

    def short(self):
        T, cn = self.T, self.cn
        for s in T.segs:
            if s.start is not None or s.end[0] != "ret":
                if s.end[0] == "panic":
                    self.fail("panic", s, "can panic (%s)" % (s.end[1],))
                continue
            self.rep.ob()
            few = self.asks(s.ctx, ("lt", self.n, c(2)))
            two = self.decide_eq(s.ctx, self.n, c(2))
            v = s.val
            if few:
                ok_ = cn(v) == cn(NONE)
                self.hit.add("short")
            elif two:
                rpt = self.asks(s.ctx, self.same(self.at(c(0)), self.at(c(1))))
                ok_ = rpt is not None and (v[0] == "agg" and v[4] == "Some" and self.is_single(s, v[5][0][1], self.at(c(1))) if rpt else cn(v) == cn(NONE))
                self.hit.add("two" if rpt else "two apart")
            else:
                ok_ = False
            if not ok_:
                self.fail("short", s, "fewer than two vertexes give none, two that coincide the second one alone; but the result is %s" % sym.showt(v))


def check_redundant(rep, prog, serde=None, tier=None):
    Redundant(rep, prog).run()


def check(rep, prog, serde, tier):
    check_repeat(rep, prog)
    check_arcs(rep, prog)
