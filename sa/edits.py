"""Edits and creation of polylines (C15)."""
import absint as A
import cut
import sym
import lists
from absint import Out, c, agg, some, NONE
from boolean import getfn, MAPM
from offset import GEOM, PV, V2, pos
from cut import flat, match, target
from lists import lst, one, many, EMPTY
from tables import fenv, call, conj

TR = "cavalier_contours::polyline::traits::"


def m_edit(name, ret=None):
    """an edit through a required method: the event, and the new value of the polyline"""
    def h(I, fn, fr, b, t, st, args, stack):
        ts = [I.term(a, st) for a in args]
        tg = target(I, st, args[0])
        root, proj = I.deref(st, args[0])
        old = I.term(I.read(st, root, proj), st)
        I.event(st, "mut", tg, name, ("call", "args", tuple(ts[1:])))
        if name != "reserve":
            I.write(st, root, proj, ("call", name, (old,) + tuple(ts[1:])))
        return iter([Out("ret", ret(old, ts) if ret else A.UNIT, st)])
    return h


RAW = {}
for _n, _to in (("add_vertex", "append"), ("set_vertex", "assign"), ("insert_vertex", "insert"), ("clear", "wipe"), ("reserve", "reserve"), ("set_is_closed", "close"), ("extend_vertexes", "extend")):
    RAW["PlineSourceMut::" + _n] = RAW["plinesourcemut::" + _n] = m_edit(_to)
RAW["PlineSourceMut::remove"] = RAW["plinesourcemut::remove"] = m_edit("cut", lambda old, ts: call("removed", old, ts[1]))
MODELS = {**MAPM, **RAW}
OPQ = GEOM + ("at", "iter_vertexes", "is_closed", "vertex_count", "from_iter", "with_capacity", "seg_split_at_point", "next_wrapping_index")
OPQ = tuple(x for x in OPQ if x not in ("last", "next_wrapping_index"))
COUNTED = ("append", "insert", "wipe", "cut", "extend")


class Ed(cut.Cut):
    """closedness and number of vertexes do not depend on edits that leave them alone (`fixed`: what the function never changes, checked by table())"""
    fixed = ()

    def term(self, v, st, depth=0):
        t = super().term(v, st, depth)
        return t[1] if t[0] == "now" and t[2][0] == "sym" else t       # its value now

    def opaque(self, fn, fr, b, t, st, nk, args):
        o = super().opaque(fn, fr, b, t, st, nk, args)
        n = nk.split("::")[-1]
        if n in self.fixed and o.val[0] == "call":
            x = o.val[2][0]
            while x[0] == "loop" or x[0] == "call" and x[1] in ("append", "assign", "insert", "cut", "extend", "wipe"):
                if x[0] == "loop":
                    x = x[3][0][1] if x[3][0][0] == "O" and len(x[3]) == 1 else None
                    break
                x = x[2][0]
            if x is not None and x[0] == "sym":
                o.val = ("call", o.val[1], (x,) + tuple(o.val[2][1:]))
        return o


def table(rep, prog, f, key, env, fixed=(), pre=(), kinds=("mut",), ignore=("reserve",), models=MODELS, opq=OPQ):
    I = Ed(prog, opq, models)
    I.fixed = fixed
    T = cut.SegTable(rep, prog, f, I, env, key=key, kinds=kinds, pre=pre, ignore=ignore)
    for s in T.segs:
        s.events = tuple(e for e in s.events if not (e[0] == "mut" and e[2] in ignore))
        for e in s.events:
            if e[0] == "mut" and e[1] == ("sym", "self") and ("is_closed" in fixed and e[2] == "close" or "vertex_count" in fixed and e[2] in COUNTED):
                rep.fail(key + ":changes", "%s: the edit %s is not expected here" % (T.where, cut.show_event(e)))
    rep.ob()
    return T


def seqs(cn, ctx, t):
    """a sequence of vertexes -> [("one", v) | ("rng", polyline, lo, hi)]; None when not understood"""
    if t[0] == "iter":
        return seqs(cn, ctx, t[1])
    if t[0] == "verts":
        return [("rng", t[1], c(0), call("vertex_count", t[1]))]
    if t[0] in ("skip", "take", "chain", "cycle", "rev") and len(t) > 1:
        t = ("call", t[0], tuple(t[1:]))
    if lists.is_list(t):
        out = []
        for k, x in items_kinds(t):
            if k == "one":
                out.append(("one", x))
            else:
                s = seqs(cn, ctx, x)
                if s is None:
                    return None
                out += s
        return out
    if t[0] != "call":
        return None
    n = sym.last(t[1])
    if n in ("into_iter", "copied", "cloned") and len(t[2]) == 1:
        return seqs(cn, ctx, t[2][0])
    if n == "once" and len(t[2]) == 1:
        return [("one", t[2][0])]
    if n == "chain":
        a, b = seqs(cn, ctx, t[2][0]), seqs(cn, ctx, t[2][1])
        return None if a is None or b is None else a + b
    if n in ("skip", "take") and len(t[2]) == 2:
        x, k = t[2]
        if n == "take" and x[0] in ("call", "iter"):
            # cycle().skip(k).take(n) walks around once
            y = x[1] if x[0] == "iter" else x
            if y[0] == "call" and sym.last(y[1]) == "skip":
                z = y[2][0][1] if y[2][0][0] == "iter" else y[2][0]
                if z[0] == "call" and sym.last(z[1]) == "cycle":
                    s = seqs(cn, ctx, z[2][0])
                    if s and len(s) == 1 and s[0][0] == "rng" and ctx.equal(cn(k), cn(s[0][3])) and s[0][2] == c(0) and within(cn, ctx, y[2][1], s[0][3]):
                        return [("rng", s[0][1], y[2][1], s[0][3]), ("rng", s[0][1], c(0), y[2][1])]
                    return None
        s = seqs(cn, ctx, x)
        if s is None or len(s) != 1 or s[0][0] != "rng":
            return None
        _, p, lo, hi = s[0]
        if not within(cn, ctx, k, ("bin", "Sub", hi, lo)):
            return None
        m = ("bin", "Add", lo, k)
        return [("rng", p, m, hi)] if n == "skip" else [("rng", p, lo, m)]
    return None


def within(cn, ctx, k, n):
    """0 <= k <= n on this path"""
    x = ctx.copy()
    x.add_lit(cn(("lt", n, k)), True)
    return not x.feasible()


def items_kinds(t):
    return [(x[1], x[2][0]) for x in lists.items_of(t)]


def poly_value(cn, ctx, v):
    """value of a polyline under construction -> (closed, [parts]) ; the last vertex may be replaced: ("last", v)"""
    if v[0] != "call":
        return None
    n, a = sym.last(v[1]), v[2]
    if n == "with_capacity":
        return a[1], []
    if n == "from_iter":
        s = seqs(cn, ctx, a[0])
        return None if s is None else (a[1], s)
    r = poly_value(cn, ctx, a[0]) if a else None
    if r is None:
        return None
    closed, ps = r
    if n == "append":
        return closed, ps + [("one", a[1])]
    if n == "extend":
        s = seqs(cn, ctx, a[1])
        return None if s is None else (closed, ps + s)
    if n == "close":
        return a[1], ps
    if n == "assign" and cn.poly(cn(a[1])) == cn.poly(cn(("bin", "Sub", call("vertex_count", a[0]), c(1)))):
        return closed, ps + [("last", a[2])]
    return None


def same_parts(cn, ctx, a, b):
    """equal vertex sequences (empty ranges left out)"""
    def clean(ps):
        out = []
        for p in ps:
            if p[0] == "last":                      # replaces what is there
                q = out.pop() if out else None
                if q is None:
                    return [("?",)]
                out += ([("rng", q[1], q[2], ("bin", "Sub", q[3], c(1)))] if q[0] == "rng" else []) + [("one", p[1])]
            elif p[0] != "rng" or not ctx.equal(cn(p[2]), cn(p[3])):
                out.append(p)
        return [p for p in out if p[0] != "rng" or not ctx.equal(cn(p[2]), cn(p[3]))]
    a, b = clean(a), clean(b)
    return len(a) == len(b) and all(x[0] == y[0] and (x[0] != "rng" or cn(x[1]) == cn(y[1])) and all(ctx.equal(cn(s), cn(t)) for s, t in zip(x[-2:] if x[0] == "rng" else x[1:], y[-2:] if y[0] == "rng" else y[1:])) for x, y in zip(a, b))


def base_env(f, extra=None):
    n = lambda p: call("vertex_count", p)
    e = {"PV": PV, "n": n, "args": lambda *xs: call("args", *xs), "at": lambda p, i: call("at", p, i), "closed": lambda p: call("is_closed", p), "pos": pos, "vt": lambda p: ("iter", ("verts", p)),
         "same": lambda a, b, ep: call("veq", a, b, ep), "nth": lambda l, i: ("index", l, i), "eps": ("sym", "pos_equal_eps"), "feq": sym.feq, "E": EMPTY, "cutoff": lambda p: call("cut", p, ("bin", "Sub", call("vertex_count", p), c(1))), "put": lambda p, i, v: call("assign", p, i, v)}
    e["turned"] = lambda p, i, b: PV(("fld", call("at", p, i), "x"), ("fld", call("at", p, i), "y"), b)
    e.update(extra or {})
    return fenv(f, e)


ev = lambda kind, a, tg="self": ("mut", tg, ":" + kind, "args(%s)" % a)


def put(p, v, x, y, b, tail, tg="self"):
    """added, unless it is where the last vertex is: then that takes its bulge"""
    return flat([("if", "n({0}) == 0".format(p), [ev("append", v, tg), tail], [
        ("if", "same(pos(at({0}, n({0}) - 1)), V({1}, {2}), eps)".format(p, x, y), [ev("assign", "n({0}) - 1, turned({0}, n({0}) - 1, {1})".format(p, b), tg), tail], [ev("append", v, tg), tail])])])


def check_simple(rep, prog):
    M = lambda n: prog.one(n, trait_default="PlineSourceMut")
    new = "PV(x, y, bulge)"
    V = {"V": V2}
    for name, pre, cases in (("set", "", [("", [ev("assign", "index, " + new)])]), ("set_last", "n(self) > 0", [("", [ev("assign", "n(self) - 1, vertex")])]),
                             ("insert", "", [("", [ev("insert", "index, " + new)])]), ("remove_last", "n(self) > 0", [("", [ev("cut", "n(self) - 1")], {"return": "removed(self, n(self) - 1)"})]),
                             ("add", "", [("", [ev("append", new)])]), ("add_from_array", "", [("", [ev("append", "PV(nth(data, 0), nth(data, 1), nth(data, 2))")])]),
                             ("extend", "", [("", [ev("extend", "vt(other)")])]),
                             ("add_or_replace", "", put("self", new, "x", "y", "bulge", {})), ("add_or_replace_vertex", "", put("self", "PV(vertex.x, vertex.y, vertex.bulge)", "vertex.x", "vertex.y", "vertex.bulge", {}))):
        f = M(name)
        T = table(rep, prog, f, name, base_env(f, {**V, "removed": lambda p, i: call("removed", p, i)}), pre=pre)
        T.table("effect", [None], cases, part="all")
    # every vertex of the other polyline is put, in order
    f = M("extend_remove_repeat")
    T = table(rep, prog, f, "extend_remove_repeat", base_env(f, V))
    T.table("vertexes", ("mut", "self", ":append", "args(at(other, _i))"), put("now(self)", "at(other, i)", "at(other, i).x", "at(other, i).y", "at(other, i).bulge", {"end": "back"}), index={"i": ("0", "n(other)")})
    T.only("mut", "self", "vertexes")
    # each vertex is moved, once
    for name, x, y in (("scale_mut", "scale_factor * at(now(self), i).x", "scale_factor * at(now(self), i).y"), ("translate_mut", "at(now(self), i).x + x", "at(now(self), i).y + y")):
        f = M(name)
        T = table(rep, prog, f, name, base_env(f), fixed=("vertex_count", "is_closed"))
        T.table("vertexes", ("mut", "self", ":assign", "args(_i, _v)"), [("", [ev("assign", "i, PV(%s, %s, at(now(self), i).bulge)" % (x, y))], {"end": "back"})], index={"i": ("0", "n(self)")})
        T.only("mut", "self", "vertexes")


def check_creation(rep, prog):
    f = prog.one("create_from", trait_default="PlineCreation")
    T = table(rep, prog, f, "create_from", base_env(f))
    values(T, "copy", [("", "closed(pline)", [("rng", "pline", "0", "n(pline)")])])
    f = prog.one("empty", trait_default="PlineCreation")
    T = table(rep, prog, f, "empty", base_env(f))
    values(T, "value", [("", "False", [])])
    # create_from_remove_repeat: every vertex is put, then a last vertex on the first one is removed
    f = prog.one("create_from_remove_repeat", trait_default="PlineCreation")
    T = table(rep, prog, f, "create_from_remove_repeat", base_env(f, {"V": V2}))
    T.segs = [s for s in T.segs if s.end != ("panic", "unwrap")]        # two vertexes have a last one
    if T.bind("result", ("mut", "_r", ":append", "args(at(pline, _i))")):
        T.env.names.pop("i", None)
        sel = ("mut", "r", ":append", "args(at(pline, _i))")
        T.table("vertexes", sel, put("now(r)", "at(pline, i)", "at(pline, i).x", "at(pline, i).y", "at(pline, i).bulge", {"end": "back"}, "r"), index={"i": ("0", "n(pline)")})
        hs = list(T.headers(sel))
        T.table("closing vertex", hs, flat([("if", "closed(pline) and n(now(r)) >= 2 and same(pos(at(now(r), n(now(r)) - 1)), pos(at(now(r), 0)), eps)", [("mut", "r", ":cut", "args(n(now(r)) - 1)"), {"return": "cutoff(now(r))"}],
                                                     [{"return": "now(r)"}])]), part="after")
        T.only("mut", "r", "vertexes")
        for s in T.segs:
            if s.end[0] == "enter" and s.end[1] in hs:
                v = [x for k, x in s.vals.items() if k[0] == "loop" and k[2] == s.end[1][1]]
                ok_ = len(v) == 1 and (poly_value(T.cn, s.ctx, v[0]) or (None, 1))[1] == [] and T.cn(poly_value(T.cn, s.ctx, v[0])[0]) == T.cn(T.env.term("closed(pline)"))
                rep.check(ok_, "create_from_remove_repeat:start", "%s: the new polyline must start empty and as closed as the source, but starts as %s" % (T.where, [sym.showt(x) for x in v]))


def values(T, name, cases):
    """the polyline returned is made of the given parts (closed, [("one", vertex) | ("rng", polyline, from, to)])"""
    trie = sym.build_trie([(x[0], x) for x in cases], T.env, T.cn)
    hit = set()
    for s in T.segs:
        if s.end[0] == "panic":
            T.rep.fail("%s:%s:panic" % (T.key, name), "%s: can panic (%s) on the path [%s]" % (T.where, s.end[1], cut.short_facts(s, T.cn)))
            continue
        found = [0]

        def leaf(ctx, cond, case):
            found[0] += 1
            hit.add(cond)
            T.rep.ob()
            g = s.val
            tm = lambda x: T.env.term(x)
            if case[1] is None:
                ok_ = g is not None and T.cn(g) == T.cn(NONE)
                want = "None"
            else:
                if len(case) > 3 and g is not None and g[0] == "agg" and g[4] == "Some":
                    g = g[5][0][1]
                r = poly_value(T.cn, ctx, g) if g is not None else None
                want = "closed = %s, vertexes %s" % (case[1], case[2])
                ok_ = r is not None and ctx.equal(T.cn(r[0]), T.cn(tm(case[1]))) and same_parts(T.cn, ctx, [(p[0],) + tuple(tm(x) for x in p[1:]) for p in case[2]], r[1])
            if not ok_:
                T.rep.fail("%s:%s:%s" % (T.key, name, sym.short(cond)), "%s, %s: when %s the result must be %s, but on the path [%s] it is %s" % (T.where, name, cond or "always", want, cut.short_facts(s, T.cn), sym.showt(s.val) if s.val else None))
        sym.walk_trie(trie, s.ctx, leaf)
        T.rep.check(found[0] > 0, "%s:%s:uncovered" % (T.key, name), "%s: the path [%s] matches no specified case" % (T.where, cut.short_facts(s, T.cn)))
    for x in cases:
        T.rep.check(x[0] in hit, "%s:%s:%s:never" % (T.key, name, sym.short(x[0])), "%s, %s: no path for the case %s" % (T.where, name, x[0] or "always"))


def check_rotate(rep, prog):
    f = prog.one("rotate_start", trait_default="PlineSource")
    split = lambda a, b: call("seg_split_at_point", a, b, ("sym", "point"), ("sym", "pos_equal_eps"))
    e = base_env(f, {"split": split})
    T = table(rep, prog, f, "rotate_start", e)
    ok_ = "closed(self) and n(self) >= 2 and start_index < n(self)"
    rot = lambda k: [("rng", "self", k, "n(self)"), ("rng", "self", "0", k)]
    at_start = "same(pos(at(self, start_index)), point, eps)"
    cases = [("not (%s)" % ok_, None), ("%s and %s" % (ok_, at_start), "True", rot("start_index"), 1)]
    for cond, nx in (("start_index + 1 < n(self)", "start_index + 1"), ("start_index + 1 >= n(self)", "0")):
        at_end = "same(pos(at(self, %s)), point, eps)" % nx
        sp = "split(at(self, start_index), at(self, %s))" % nx
        cases += [("%s and not %s and %s and %s" % (ok_, at_start, cond, at_end), "True", rot(nx), 1),
                  ("%s and not %s and %s and not %s" % (ok_, at_start, cond, at_end), "True", [("one", sp + ".split_vertex")] + rot(nx) + [("last", sp + ".updated_start")], 1)]
    values(T, "start moved", cases)


def check_equal(rep, prog):
    f = prog.one("fuzzy_eq_eps", trait_default="PlineSource")
    T = table(rep, prog, f, "fuzzy_eq_eps", base_env(f, {"eps": ("sym", "eps")}))
    same = "feq(at(self, i).x, at(other, j).x, eps) and feq(at(self, i).y, at(other, j).y, eps) and feq(at(self, i).bulge, at(other, j).bulge, eps)"
    hs = [h for h in T.names]
    at = lambda p: sorted({t[2][1] for s in T.segs if s.start in hs for k in s.facts for t in sym.subterms(k) if isinstance(t, tuple) and t and t[0] == "call" and sym.last(t[1]) == "at" and T.cn(t[2][0]) == ("sym", p)}, key=repr)
    i, j = at("self"), at("other")
    rep.check(len(hs) == 1, "fuzzy_eq_eps:loop", "%s: one loop over the vertexes is expected" % T.where)
    same_n = "closed(self) == closed(other) and n(self) == n(other)"
    T.table("kinds differ", [None], [(same_n, [], {"goes": "enter"}), ("closed(self) != closed(other)", [], {"return": "False"}), ("closed(self) == closed(other) and n(self) != n(other)", [], {"return": "False"})], part="all")
    if rep.check(len(hs) == len(i) == len(j) == 1, "fuzzy_eq_eps:pairs", "%s: each vertex must be compared with the one at the same index" % T.where):
        # (a zip walks both sequences with one index each)
        both = i == j or (i[0][0] in ("iv", "idxin") and i[0][0] == j[0][0] and i[0][1] == j[0][1])
        rep.check(both, "fuzzy_eq_eps:pairs", "%s: vertex %s is compared with vertex %s" % (T.where, sym.showt(i[0]), sym.showt(j[0])))
        T.env.names.update(i=i[0], j=j[0])
        T.table("vertexes", hs, [(same_n + " and " + same, [], {"end": "back"}), (same_n + " and not (%s)" % same, [], {"return": "False"})], index={"i": ("0", "n(self)")})
        T.rep.check(T.counter(j[0])[0][0] == "loop" or T.cn(j[0]) != T.cn(i[0]) and T.cn(j[0][2]) == T.cn(call("vertex_count", ("sym", "other"))) or T.cn(j[0]) == T.cn(i[0]), "fuzzy_eq_eps:pairs", "%s: the other polyline is read at %s" % (T.where, sym.showt(j[0])))
        T.table("all equal", hs, [(same_n, [], {"return": "True"})], part="after")


def check_invert(rep, prog):
    f = prog.one("invert_direction_mut", trait_default="PlineSourceMut")
    T = table(rep, prog, f, "invert_direction_mut", base_env(f), fixed=("vertex_count", "is_closed"))
    key, cn = T.key, T.cn
    ev_ = lambda s: [e for e in s.events if e[0] == "mut"]
    # the vertexes trade places, first with last, second with second to last, ...
    swaps = [s for s in T.segs if s.start is not None and len(ev_(s)) == 2]
    hs = {s.start for s in swaps}
    if not rep.check(len(hs) == 1, key + ":exchange", "%s: one loop that exchanges two vertexes at a time is expected" % T.where):
        return
    h = hs.pop()
    now = T.now(h, ("sym", "self"))
    n = call("vertex_count", ("sym", "self"))
    last = ("bin", "Sub", n, c(1))
    T.used.add(h)
    for s in swaps:
        a, b = ev_(s)
        (i, x), (j, y) = a[3][2], b[3][2]
        at = lambda k: cn(call("at", now, k))
        rep.check(a[2] == b[2] == "assign" and cn(x) == at(j) and cn(y) == at(i), key + ":exchange:values", "%s: the two vertexes must trade places, but the code does %s, %s" % (T.where, cut.show_event(a), cut.show_event(b)))
        # i + j = n - 1 on every way around, i < j
        def var(t):
            b_, k = T.counter(t)
            return b_, k
        sums = ("bin", "Add", i, j)
        ok_ = s.ctx.equal(cn(sums), cn(last))
        start = step = None
        if not ok_:
            vs = [v for v in (i, j)]
            lo = [e for e in T.segs if e.end == ("enter", h)]
            ok_ = bool(lo) and all(v[0] == "loop" for v in vs) and all(e.ctx.equal(cn(("bin", "Add", *[e.vals.get(v, v) for v in vs])), cn(last)) for e in lo) and \
                all(e.ctx.equal(cn(("bin", "Add", *[e.vals.get(v, v) for v in vs])), cn(sums)) for e in T.segs if e.end == ("back", h))
        rep.check(ok_, key + ":exchange:mirror", "%s: the vertexes exchanged must lie equally far from the two ends" % T.where)
        # i runs 0, 1, ... as long as i < j
        lo_i = i if cn(i)[0] in ("idxin", "iv") else None
        if lo_i is None:
            good = all(e.ctx.equal(cn(e.vals.get(i, i)), cn(c(0))) for e in T.segs if e.end == ("enter", h)) and all(e.ctx.equal(cn(e.vals.get(i, i)), cn(("bin", "Add", i, c(1)))) for e in T.segs if e.end == ("back", h))
            for e in T.segs:
                if e.start == h:
                    x_ = e.ctx.copy()
                    x_.add_lit(cn(("lt", i, j)), e.end != ("back", h))
                    if e.end == ("back", h):
                        # an exchange of a vertex with itself is harmless
                        x_.add_lit(cn(("lt", j, i)), True)
                    good = good and (not x_.feasible())
        else:
            # a range 0 .. n / 2 (the middle one may be exchanged with itself)
            p = cn(lo_i)
            half = [cn(("bin", "Div", n, c(2))), cn(("idiv", n, c(2)))]
            good = p[1] == c(0) and (cn(p[2]) in half)
        rep.check(good, key + ":exchange:all", "%s: every pair of vertexes from the ends to the middle must be exchanged once" % T.where)
    # then each vertex takes the negated bulge of the next one
    turn = [s for s in T.segs if s.start is not None and s.start != h and s.end[0] == "back"]
    th = {s.start for s in turn}
    if not rep.check(len(th) == 1 and all(len(ev_(s)) == 1 for s in turn), key + ":bulges", "%s: one loop that turns the bulges is expected" % T.where):
        return
    h2 = th.pop()
    first = ev_(turn[0])[0][3][2][0]
    k, off = T.counter(first)
    off = off[1]
    T.env.names["k"] = k
    T.env.names["i"] = ("bin", "Add", k, c(off)) if off else k
    T.table("bulges", [h2], [("", [ev("assign", "i, turned(now(self), i, -at(now(self), i + 1).bulge)")], {"end": "back"})], index={"k": (str(-off), "n(self) - 1 + %d" % -off)})
    # the last one gets that of the first
    for s in T.segs:
        if s.start == h2 and s.end[0] == "ret":
            es = ev_(s)
            rep.ob()
            is_ = []
            for v_ in (True, False):
                x_ = s.ctx.copy()
                x_.add_lit(cn(T.env.term("closed(self)")), v_)
                is_ += [v_] if x_.feasible() else []
            closed = is_[0] if len(is_) == 1 else None
            if closed is None:
                rep.fail(key + ":last:closed", "%s: the last bulge depends on whether the polyline is closed, but the path [%s] does not ask" % (T.where, cut.short_facts(s, cn)))
            elif closed is False:
                rep.check(not es, key + ":last:open", "%s: the last vertex of an open polyline must keep its bulge: %s" % (T.where, [cut.show_event(e) for e in es]))
            else:
                cur = T.now(h2, ("sym", "self"))
                at_ = call("at", cur, last)
                good = len(es) == 1 and es[0][2] == "assign" and cn(es[0][3][2][0]) == cn(last) and cn(es[0][3][2][1]) == cn(PV(("fld", at_, "x"), ("fld", at_, "y"), ("un", "Neg", ("fld", call("at", T.now(h, ("sym", "self")), c(0)), "bulge"))))
                rep.check(good, key + ":last:bulge", "%s: the last vertex of a closed polyline must get the negated bulge the first one had: %s" % (T.where, [cut.show_event(e) for e in es]))
    # nothing else is edited; fewer than two vertexes: nothing to do
    for s in T.segs:
        if s.start is None or s.start not in (h, h2):
            rep.check(not ev_(s), key + ":elsewhere", "%s: edits outside of the loops: %s" % (T.where, [cut.show_event(e) for e in ev_(s)]))
        if s.start is None and s.end[0] == "ret":
            x_ = s.ctx.copy()
            x_.add_lit(cn(("lt", n, c(2))), False)
            rep.check(not x_.feasible(), key + ":skipped", "%s: the direction is not inverted on the path [%s]" % (T.where, cut.short_facts(s, cn)))
        if s.end[0] == "panic":
            rep.fail(key + ":panic", "%s: can panic (%s) on the path [%s]" % (T.where, s.end[1], cut.short_facts(s, cn)))


def v_edit(name, ret=None):
    def h(I, fn, fr, b, t, st, args, stack):
        ts = [I.term(a, st) for a in args]
        root, proj = I.deref(st, args[0])
        old = I.term(I.read(st, root, proj), st)
        I.event(st, "mut", target(I, st, args[0]), name, ("call", "args", tuple(ts[1:])))
        return iter([Out("ret", ret(old, ts) if ret else A.UNIT, st)])
    return h


VEC = {}
for _n, _to in (("push", "append"), ("insert", "insert"), ("clear", "wipe"), ("extend", "extend"), ("reserve", "reserve")):
    for _p in ("vec::", "Vec::"):
        VEC[_p + _n] = v_edit(_to)
VEC["Extend::extend"] = v_edit("extend")
VEC["vec::remove"] = VEC["Vec::remove"] = v_edit("cut", lambda old, ts: call("removed", old, ts[1]))


def check_polyline(rep, prog):
    """the Vec based polyline: each required method is exactly the operation on its vertex list"""
    P = lambda n, tr=None: [f for f in prog.by_name(n) if f.d.startswith("cavalier_contours::polyline::pline::")]
    D = ("part", ("sym", "self"), (("f", "vertex_data"),))
    S = ("sym", "self")
    cap = lambda e: e[0] == "mut" and e[2] in ("reserve", "shrink_to_fit")
    fld = ("fld", S, "vertex_data")
    make = lambda d, cl: agg("adt", "Polyline", 0, "Polyline", (("vertex_data", d), ("is_closed", cl)))
    s = lambda x: ("sym", x)
    rows = {
        "set_vertex": ([("write", ("slot", D, s("index")), (), s("vertex"))], None),
        "insert_vertex": ([("mut", D, "insert", call("args", s("index"), s("vertex")))], None),
        "remove": ([("mut", D, "cut", call("args", s("index")))], call("removed", fld, s("index"))),
        "add_vertex": ([("mut", D, "append", call("args", s("vertex")))], None),
        "reserve": ([], None),
        "set_is_closed": ([("write", S, (("f", "is_closed"),), s("is_closed"))], None),
        "clear": ([("mut", D, "wipe", call("args"))], None),
        "extend_vertexes": ([("mut", D, "extend", call("args", s("vertexes")))], None),
        "vertex_count": ([], call("len", fld)),
        "is_closed": ([], ("fld", S, "is_closed")),
        "get": ([], call("get", fld, s("index"))),
        "at": ([], ("index", fld, s("index"))),
        "index": ([], ("index", fld, s("index"))),
        "index_mut": ([], ("slot", D, s("index"))),
        "with_capacity": ([], make(EMPTY, s("is_closed"))),
        "from_iter": ([], make(lst(many(s("iter"))), s("is_closed"))),
        "new": ([], make(EMPTY, c(False))),
        "new_closed": ([], make(EMPTY, c(True))),
        "default": ([], make(EMPTY, c(False))),
    }
    for name, (want, ret) in rows.items():
        fs = P(name)
        if not rep.check(len(fs) == 1, "polyline:%s" % name, "Polyline::%s: expected one function, found %d" % (name, len(fs))):
            continue
        f = fs[0]
        # parameters by position, whatever they are called
        pn = {"set_vertex": ("self", "index", "vertex"), "insert_vertex": ("self", "index", "vertex"), "with_capacity": ("capacity", "is_closed"), "from_iter": ("iter", "is_closed"), "add_vertex": ("self", "vertex"), "set_is_closed": ("self", "is_closed"),
              "extend_vertexes": ("self", "vertexes")}.get(name, ("self", "index"))
        args = [("sym", pn[i]) for i in range(f.argc)] if name != "reserve" else [S, s("additional")]
        I = cut.Cut(prog, (), {**cut.VECS, **VEC} if args and args[0] == S else {})
        T = cut.SegTable(rep, prog, f, I, fenv(f), key="polyline:" + name, args=args)
        segs = [x for x in T.segs if x.end[0] != "panic"]
        cn = T.cn
        rep.check(len(segs) == 1 and segs[0].end[0] == "ret" and len(segs) == len(T.segs), "polyline:%s:paths" % name, "%s: the effect must not depend on anything" % T.where)
        for x in segs:
            drop = lambda e: e[0] == "write" and e[1] == S and e[2] == (("f", "vertex_data"),) or cap(e)
            got = [e for e in x.events if args and args[0] == S and e[0] in ("mut", "write", "push", "sort", "clear", "insert") and not drop(e)]
            rep.check([e[:3] + (cn(e[3]),) for e in want] == [tuple(e[:3]) + (cn(e[3]),) for e in got if len(e) > 3] and len(got) == len(want), "polyline:%s:effect" % name, "%s: must do %s but does %s" % (T.where, [cut.show_event(e) for e in want] or "nothing", [cut.show_event(e) for e in got] or "nothing"))
            if ret is not None:
                g, w = cn(x.val), cn(ret)
                if name == "get" and g[0] == "call" and g[1].split("::")[-1] in ("copied", "cloned"):
                    g = g[2][0]
                same = g == w or g[0] == w[0] == "call" and g[1].split("::")[-1] == w[1].split("::")[-1] and g[2] == w[2]
                if name in ("index_mut",):
                    same = w == g or g == cn(("obj", w))
                rep.check(same, "polyline:%s:value" % name, "%s: must return %s but returns %s" % (T.where, sym.showt(w), sym.showt(g)))


def check(rep, prog, serde, tier):
    check_polyline(rep, prog)
    check_equal(rep, prog)
    check_invert(rep, prog)
    check_creation(rep, prog)
    check_rotate(rep, prog)
    check_simple(rep, prog)
