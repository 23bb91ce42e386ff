"""Case tables decided with sym.py."""
import re
import sym, poly as PL
import absint as A
from absint import State
import mir

S = ("sym", "self")
TRP = sym.TRAIT


def pcall(name, *args):
    return ("call", TRP + "PlineSource::" + name, (S,) + args)


def pline_env(extra=None, selfname="self"):
    s = ("sym", selfname)
    names = {
        "n": ("call", TRP + "PlineSource::vertex_count", (s,)),
        "closed": ("call", TRP + "PlineSource::is_closed", (s,)),
        "at": lambda i: ("call", TRP + "PlineSource::at", (s, i)),
        "self": s,
    }
    names.update(extra or {})
    return sym.Env(names)


def fenv(fn, extra=None, base=None):
    """environment with the parameter names of fn"""
    e = dict(base.names if base else {})
    for a in sym.argsyms(fn):
        e[a[1]] = a
    e.update(extra or {})
    env = sym.Env(e)
    env.floatsyms = {fn.lname(i) for i in range(1, fn.argc + 1) if fn.prog.tstr(fn.crate, fn.locals[i][0]) in ("T", "f64", "f32")}
    return env


def check_index(rep, prog, serde, tier):
    T = lambda n: prog.one(n, trait_default="PlineSource")
    rows = [
        ("segment_count", "", [("n < 2", "0"), ("n >= 2 and closed", "n"), ("n >= 2 and not closed", "n - 1")]),
        ("next_wrapping_index", "i < n", [("i + 1 < n", "i + 1"), ("i + 1 == n", "0")]),
        ("prev_wrapping_index", "i < n", [("i == 0", "n - 1"), ("i > 0", "i - 1")]),
        ("fwd_wrapping_dist", "start_index < n and end_index < n", [("start_index <= end_index", "end_index - start_index"), ("start_index > end_index", "n - start_index + end_index")]),
        ("fwd_wrapping_index", "start_index < n and offset <= n", [("start_index + offset < n", "start_index + offset"), ("start_index + offset >= n", "start_index + offset - n")]),
        ("is_empty", "", [("n == 0", "True"), ("n > 0", "False")]),
        ("last", "", [("n == 0", "None"), ("n > 0", "Some(at(n - 1))")]),
    ]
    for name, pre, cases in rows:
        f = T(name)
        env = fenv(f, base=pline_env())
        sym.check_table(rep, prog, f, cases, env, pre)
    check_iterators(rep, prog)


# ------------------------------------------------------------------------------------- iterators
def run_self(prog, I, cn, fn, content, cons, nonneg, args=()):
    """paths of a &self / &mut self method on a receiver with the given content, under constraints;
    yields (kind, value, receiver content afterwards, ctx)"""
    st = State()
    root = ("H", ("recv",))
    st.mem[(root, ())] = content
    ty = fn.lty(1)
    selfv = ("ref", root, ()) if ty["k"] == "ref" else content
    for o in I.run(fn, [selfv] + list(args), st):
        ctx = sym.Ctx(cn, cons, (), nonneg)
        ctx.add_facts(o.st)
        if o.kind == "panic":
            ps = [e for e in o.st.events if e[0] == "panic"]
            if ps and ps[-1][1].startswith(("assert overflow Add", "assert overflow Mul")):
                continue
        if not ctx.feasible():
            continue
        new = cn(I.term(("ref", root, ()), o.st))
        yield o.kind, (cn(I.term(o.val, o.st)) if o.val is not None else None), new, ctx


def field_poly(content):
    return {n: v for n, v in content[5]}


def iterator_sim(rep, prog, key, new_fn, next_fn, hint_fn, env, count_of, item, back=None, new_args=None):
    """The iterator state produced by the constructor, advanced k times, yields item(k) for k < count and
    None afterwards, and size_hint is count - k.  The state after k steps is derived from the code: the
    constructor's state plus k times the difference made by one step; each step is then checked from it."""
    cn = sym.Canon()
    I = sym.Sym(prog)
    for f in (new_fn, next_fn, hint_fn, back):
        if f is not None:
            rep.fn(f)
    k = ("sym", "k")
    kb = ("sym", "kb")
    where = "%s (%s:%s)" % (next_fn.d, next_fn.file, next_fn.line)
    for np in sym.paths(prog, new_fn, I, new_args, cn=cn):
        if np.kind != "ret" or np.val[0] != "agg":
            rep.check(False, key + ":new", "%s does not return an iterator on every path" % new_fn.d)
            continue
        for cond, cnt in count_of:
            for conj in env.dnf(cond):
                base = np.ctx.copy()
                for t, v in conj:
                    base.add_lit(t, v)
                if not base.feasible():
                    continue
                count = cn.poly(env.term(cnt))
                base.int_atoms(count)
                rep.count("iterator states")

                def one(fn_, content, ctx, what):
                    rs = list(run_self(prog, I, cn, fn_, content, ctx.cons, ctx.nonneg))
                    if not rs:
                        rep.check(False, "%s:%s" % (key, what), "%s: no feasible path in %s" % (fn_.d, what))
                    return rs

                # ---- empty iterator
                s0 = np.val
                e = base.copy()
                e.cons.append((count, "eq"))
                ends = []
                if e.feasible():
                    ends.append((s0, e, "of an empty iterator"))
                # ---- one step from the start, with at least two items left, gives the stride
                m = base.copy()
                m.cons.append((PL.add(count, PL.const(-2)), "ge"))
                if not m.feasible():
                    m = base.copy()
                    m.cons.append((PL.add(count, PL.const(-1)), "ge"))
                    if not m.feasible():
                        self_ends(rep, prog, I, cn, key, next_fn, hint_fn, ends)
                        continue
                strides = []
                for fn_ in (next_fn, back) if back is not None else (next_fn,):
                    d = None
                    for kind, val, new, ctx in one(fn_, s0, m, "first step"):
                        if kind != "ret" or new[0] != "agg":
                            continue
                        if val[0] == "agg" and val[4] == "None":
                            continue
                        dd = {}
                        for (n, a), (_, b) in zip(s0[5], new[5]):
                            if a == b or sym.booly(a) or sym.booly(b) or not sym.numericish(a):
                                continue
                            df = PL.sub(cn.poly(b), cn.poly(a))
                            if PL.is_const(df):
                                dd[n] = df
                        d = dd if d is None or len(dd) > len(d) else d
                    strides.append(d or {})

                def state(i, j=None):
                    fs = []
                    for n, a in s0[5]:
                        v = None
                        if n in strides[0]:
                            v = PL.add(cn.poly(a), PL.mul(strides[0][n], i))
                        if j is not None and n in strides[1]:
                            v = PL.add(v if v is not None else cn.poly(a), PL.mul(strides[1][n], j))
                        fs.append((n, cn.ofpoly(v) if v is not None else a))
                    return s0[:5] + (tuple(fs),)

                kp = PL.atom(k)
                jp = PL.atom(kb) if back is not None else None
                g = base.copy()
                g.nonneg |= {k} | ({kb} if back is not None else set())
                total = PL.add(kp, jp) if jp is not None else kp
                left = PL.sub(count, total)
                g.cons.append((PL.add(left, PL.const(-1)), "ge"))
                g.cons.append((kp, "ge"))
                if jp is not None:
                    g.cons.append((jp, "ge"))
                sk = state(kp, jp)
                steps = [(next_fn, PL.add(kp, PL.const(1)), jp, kp, "next")]
                if back is not None:
                    bi = PL.sub(PL.add(count, PL.const(-1)), jp)
                    steps.append((back, kp, PL.add(jp, PL.const(1)), bi, "next_back"))
                for fn_, nk, nj, idx, nm in steps:
                    want = item(env, cn.ofpoly(idx), base)
                    for kind, val, new, ctx in one(fn_, sk, g, nm):
                        rep.ob()
                        if kind != "ret":
                            rep.fail("%s:%s:panic" % (key, nm), "%s can panic before the last item (%s)" % (fn_.d, cond))
                            continue
                        ws = [(c_, cn(w)) for c_, w in want]
                        for conj2, w in ws:
                            c2 = ctx.copy()
                            for t, v in conj2:
                                c2.add_lit(t, v)
                            if not c2.feasible():
                                continue
                            rep.ob()
                            if not c2.equal(val, w):
                                rep.fail("%s:%s:item" % (key, nm), "%s (%s:%s): item number k of the iterator must be %s but %s returns %s when %s" % (fn_.d, fn_.file, fn_.line, sym.showt(w), nm, sym.showt(val), cond or "always"))
                        more = ctx.copy()
                        more.cons.append((PL.add(left, PL.const(-2)), "ge"))
                        if more.feasible():
                            rep.ob()
                            if not more.equal(new, cn(state(nk, nj))):
                                rep.fail("%s:%s:step" % (key, nm), "%s (%s:%s): the step does not advance the iterator by exactly one item: from %s it leaves %s" % (fn_.d, fn_.file, fn_.line, sym.showt(sk), sym.showt(new)))
                        done = ctx.copy()
                        done.cons.append((PL.add(left, PL.const(-1)), "eq"))
                        if done.feasible():
                            ends.append((new, done, "after the last item"))
                if hint_fn is not None:
                    for kind, val, new, ctx in one(hint_fn, sk, g, "size_hint"):
                        rep.ob()
                        w = cn(A.tup(cn.ofpoly(left), A.some(cn.ofpoly(left))))
                        if kind != "ret" or not ctx.equal(val, w):
                            rep.fail(key + ":hint", "%s (%s:%s): with k of the %s items delivered size_hint must be exactly the rest, got %s" % (hint_fn.d, hint_fn.file, hint_fn.line, cnt, sym.showt(val) if val else "a panic"))
                self_ends(rep, prog, I, cn, key, next_fn, hint_fn, ends, back)


def self_ends(rep, prog, I, cn, key, next_fn, hint_fn, ends, back=None):
    for content, ctx, what in ends:
        for fn_ in (next_fn, back) if back is not None else (next_fn,):
            for kind, val, new, c2 in run_self(prog, I, cn, fn_, content, ctx.cons, ctx.nonneg):
                rep.ob(2)
                w = "%s (%s:%s)" % (fn_.d, fn_.file, fn_.line)
                if kind != "ret" or not c2.equal(val, cn(A.NONE)):
                    rep.fail(key + ":end", "%s: %s it must return None, but it %s" % (w, what, "can panic" if kind != "ret" else "returns " + sym.showt(val)))
                elif not c2.equal(new, content):
                    rep.fail(key + ":fused", "%s: %s None changes the iterator state to %s, a later call may yield items again" % (w, what, sym.showt(new)))
        if hint_fn is not None:
            for kind, val, new, c2 in run_self(prog, I, cn, hint_fn, content, ctx.cons, ctx.nonneg):
                rep.ob()
                if kind != "ret" or not c2.equal(val, cn(A.tup(A.c(0), A.some(A.c(0))))):
                    rep.fail(key + ":endhint", "%s: %s size_hint must be (0, Some(0)), got %s" % (hint_fn.d, what, sym.showt(val) if val else "a panic"))


def check_iterators(rep, prog):
    def m(name, adt):
        r = [f for f in prog.by_name(name, impl_adt=adt)]
        if len(r) != 1:
            raise mir.MissingAnchor("%s::%s" % (adt, name))
        return r[0]
    env = pline_env(selfname="pline")
    at = env.names["at"]
    iterator_sim(rep, prog, "VertexIter", m("new", "VertexIter"), m("next", "VertexIter"), m("size_hint", "VertexIter"), env,
                 [("", "n")], lambda e, i, b: [([], A.some(at(i)))], back=m("next_back", "VertexIter"))

    def seg_items(pair):
        def item(e, i, b):
            n = e.names["n"]
            lastp = ("eq", ("bin", "Add", i, A.c(1)), n)
            return [([(lastp, False)], A.some(pair(i, ("bin", "Add", i, A.c(1))))), ([(lastp, True)], A.some(pair(i, A.c(0))))]
        return item
    counts = [("n < 2", "0"), ("n >= 2 and closed", "n"), ("n >= 2 and not closed", "n - 1")]
    iterator_sim(rep, prog, "SegmentIter", m("new", "SegmentIter"), m("next", "SegmentIter"), m("size_hint", "SegmentIter"), env,
                 counts, seg_items(lambda i, j: A.tup(at(i), at(j))))
    env2 = sym.Env({"n": ("sym", "vertex_count"), "closed": ("sym", "is_closed")})
    iterator_sim(rep, prog, "PlineSegIndexIterator", m("new", "PlineSegIndexIterator"), m("next", "PlineSegIndexIterator"), m("size_hint", "PlineSegIndexIterator"), env2,
                 counts, seg_items(lambda i, j: A.tup(i, j)))
    # the polyline methods hand out fresh iterators over the polyline itself
    for name, adt in (("iter_vertexes", "VertexIter"), ("iter_segments", "SegmentIter"), ("iter_segment_indexes", "PlineSegIndexIterator")):
        f = prog.one(name, trait_default="PlineSource")
        rep.fn(f)
        cn = sym.Canon()
        I = sym.Sym(prog, opaque=("%s::new" % adt,), inline=lambda g, adt=adt: not (g.n == "new" and g.j.get("impl_self") is not None and mir.adt_name(prog.ty(g.crate, g.j["impl_self"])) == adt) and sym.Sym.want(I0, g))
        ps = sym.paths(prog, f, I, cn=cn)
        s = ("sym", "self")
        exp = (s,) if adt != "PlineSegIndexIterator" else (cn(pcall("vertex_count")), cn(pcall("is_closed")))
        rep.check(len(ps) >= 1 and all(p.kind == "ret" and p.val == ("call", "new", exp) for p in ps), "make:" + name,
                  "%s (%s:%s) must return a fresh %s over the polyline, got %s" % (f.d, f.file, f.line, adt, "; ".join(sym.showt(p.val) for p in ps if p.val)))


class _I0:
    opq = set()


I0 = _I0()


# ------------------------------------------------------------------------------------- views (slices)
def m_valid(I, fn, fr, b, t, st, args, stack):
    """debug-only validation: modelled as passing"""
    ty = I.prog.place_ty(fn, t["dst"])
    adt = I.prog.adts.get(ty.get("d"))
    vi = [v[0] for v in adt["vars"]].index("IsValid")
    return iter([A.Out("ret", A.agg("adt", ty.get("d"), vi, "IsValid", ()), st)])


VIEWMODELS = {"validate_for_source": m_valid}


def nxt(i):
    return [("%s + 1 < n" % i, "%s + 1" % i), ("%s + 1 == n" % i, "0")]


def prv(i):
    return [("%s > 0" % i, "%s - 1" % i), ("%s == 0" % i, "n - 1")]


def fwd(e):
    return [("%s < n" % e, e), ("%s >= n" % e, "%s - n" % e)]


def conj(*cs):
    return " and ".join(x for x in cs if x)


def vdata(start, off, us, ueb, ep, inv="False"):
    return ("PlineViewData(start_index=%s, end_index_offset=%s, updated_start=%s, updated_end_bulge=%s, end_point=%s, inverted_direction=%s)"
            % (start, off, us, ueb, ep, inv))


def xy(v):
    return "Vector2(x=%s.x, y=%s.y)" % (v, v)


def check_view(rep, prog, serde, tier):
    def m(name):
        r = [f for f in prog.by_name(name, impl_adt="PlineViewData") if f.j.get("impl_trait") is None]
        if len(r) != 1:
            raise mir.MissingAnchor("PlineViewData::" + name)
        return r[0]
    base = pline_env(selfname="source")
    fs = {"x", "y", "bulge"}

    # ---- reading
    f = m("vertex_count")
    sym.check_table(rep, prog, f, [("", "self.end_index_offset + 2")], fenv(f))
    f = m("get_vertex")
    e = {"off": ("fld", ("sym", "self"), "end_index_offset"), "start": ("fld", ("sym", "self"), "start_index"),
         "inv": ("fld", ("sym", "self"), "inverted_direction")}
    env = fenv(f, e, base)
    V = "Some(PlineVertex(x=%s.x, y=%s.y, bulge=%s))"
    cases = [("index >= off + 2", "None"),
             ("not inv and index == 0", "Some(self.updated_start)"),
             ("not inv and index > 0 and index == off + 1", V % ("self.end_point", "self.end_point", "0.0")),
             ("inv and index == 0", V % ("self.end_point", "self.end_point", "-self.updated_end_bulge")),
             ("inv and index > 0 and index == off + 1", V % ("self.updated_start", "self.updated_start", "0.0"))]
    for c1, i in fwd("start + index"):
        cases.append((conj("not inv and 0 < index and index < off", c1), "Some(at(%s))" % i))
        cases.append((conj("not inv and 0 < index and index == off", c1), V % ("at(%s)" % i, "at(%s)" % i, "self.updated_end_bulge")))
    for c1, b in fwd("start + off - index"):
        for c2, i in nxt("(%s)" % b):
            cases.append((conj("inv and 0 < index and index < off", c1, c2), V % ("at(%s)" % i, "at(%s)" % i, "-at(%s).bulge" % b)))
    for c1, i in fwd("start + 1"):
        cases.append((conj("inv and 0 < index and index == off", c1), V % ("at(%s)" % i, "at(%s)" % i, "-self.updated_start.bulge")))
    sym.check_table(rep, prog, f, cases, env, "n >= 2 and start < n and off <= n and index >= 0", key="get_vertex")

    # ---- the view as a polyline
    for name, cs in (("vertex_count", [("", "self.data.end_index_offset + 2")]), ("is_closed", [("", "False")])):
        f = prog.one(name, impl_adt="PlineView", trait="PlineSource")
        sym.check_table(rep, prog, f, cs, fenv(f), key="PlineView::" + name)
    for name, cs in (("get", [("", "get_vertex(self.data, self.source, index)")]),
                     ("at", [("some(get_vertex(self.data, self.source, index))", "unwrapped(get_vertex(self.data, self.source, index))"), ("none(get_vertex(self.data, self.source, index))", "panic")])):
        f = prog.one(name, impl_adt="PlineView", trait="PlineSource")
        sym.check_table(rep, prog, f, cs, fenv(f, {"unwrapped": lambda o: ("fld", ("as", o, "Some"), "0")}), opaque=("get_vertex",), key="PlineView::" + name)
    f = [g for g in prog.by_name("view", impl_adt="PlineViewData") if g.j.get("impl_trait") is None][0]
    sym.check_table(rep, prog, f, [("", "PlineView(source=source, data=self)")], fenv(f), models=VIEWMODELS, key="view")

    # ---- construction
    eps = "pos_equal_eps"
    SP = ("seg_split_at_point",)

    def single(src, start, us, end, pre=""):
        """cases of a slice that lies on one segment"""
        return [(conj(pre, "peq(%s, %s, %s)" % (us, end, eps)), "None"),
                (conj(pre, "not peq(%s, %s, %s)" % (us, end, eps)), "Some(%s)" % vdata(start, "0", us, "%s.bulge" % us, end))]

    def multi(start, end, isect, us, tc, pre="", wrap="%s"):
        out = []
        on = "peq(%s, at(%s), %s)" % (end, isect, eps)
        for c1, p in prv("(%s)" % isect):
            out.append((conj(pre, on, "%s != 1" % tc, c1), wrap % vdata(start, "%s - 1" % tc, us, "at(%s).bulge" % p, end)))
        out.append((conj(pre, on, "%s == 1" % tc), wrap % vdata(start, "0", us, "%s.bulge" % us, end)))
        for c1, nx in nxt("(%s)" % isect):
            out.append((conj(pre, "not " + on, c1), wrap % vdata(start, tc, us, "seg_split_at_point(at(%s), at(%s), %s, %s).updated_start.bulge" % (isect, nx, end, eps), end)))
        return out
    f = m("create_on_single_segment")
    sym.check_table(rep, prog, f, single("source", "start_index", "updated_start", "end_intersect"), fenv(f, base=base), models=VIEWMODELS, key="create_on_single_segment")
    f = m("create")
    sym.check_table(rep, prog, f, [("traverse_count == 0", "panic")] + multi("start_index", "end_intersect", "intersect_index", "updated_start", "traverse_count", "traverse_count > 0"),
                    fenv(f, base=base), "n >= 2 and start_index < n and intersect_index < n and traverse_count >= 0", models=VIEWMODELS, opaque=SP, key="create")
    f = m("from_entire_pline")
    sym.check_table(rep, prog, f, [("n < 2", "panic"), ("n >= 2 and closed", vdata("0", "n - 1", "at(0)", "at(n - 1).bulge", xy("at(0)"))),
                                   ("n >= 2 and not closed", vdata("0", "n - 2", "at(0)", "at(n - 2).bulge", xy("at(n - 1)")))],
                    fenv(f, base=base), models=VIEWMODELS, key="from_entire_pline")

    f = m("from_new_start")
    cases = []
    OPEN = "from_slice_points(source, start_point, start_index, %s, n - 1, pos_equal_eps)" % xy("at(n - 1)")
    cases.append(("not closed and n == 0", "None"))
    cases.append(("not closed and n > 0", OPEN))
    cases.append(("closed and n < 2", "panic"))
    for c1, ni in nxt("start_index"):
        snapped = "peq(at(%s), start_point, %s)" % (ni, eps)
        for c2, si in ((snapped, ni), ("not " + snapped, "start_index")):
            for c3, sn in nxt("(%s)" % si):
                split = "seg_split_at_point(at(%s), at(%s), start_point, %s)" % (si, sn, eps)
                on = "peq(at(%s), start_point, %s)" % (si, eps)
                for c4, pi in prv("(%s)" % si):
                    cases.append((conj("closed and n >= 2", c1, c2, c3, on, c4), "Some(%s)" % vdata(si, "n - 1", split + ".split_vertex", "at(%s).bulge" % pi, "start_point")))
                cases.append((conj("closed and n >= 2", c1, c2, c3, "not " + on), "Some(%s)" % vdata(si, "n", split + ".split_vertex", split + ".updated_start.bulge", "start_point")))
    sym.check_table(rep, prog, f, cases, fenv(f, base=base), "n >= 0 and start_index >= 0 and (start_index < n or n == 0 or not closed)", models=VIEWMODELS, opaque=SP + ("from_slice_points",), key="from_new_start")

    f = m("from_slice_points")
    cases = []
    wrapok = "(closed or start_index < end_index)"
    starts = [("not closed and start_index == end_index", "start_index", False)]
    for c1, ni in nxt("start_index"):
        sn = "peq(at(%s), start_point, %s)" % (ni, eps)
        starts.append((conj(wrapok, c1, sn), ni, True))
        starts.append((conj(wrapok, c1, "not " + sn), "start_index", False))
    for c1, si, snapped in starts:
        same = "(%s) == end_index" % si
        back = "dist_squared({0}, end_point) <= dist_squared({0}, start_point)".format(xy("at(%s)" % si))
        apart = "not peq(start_point, end_point, %s)" % eps
        tcs = [(conj(same, "closed", apart, "near"), "0"), (conj(same, "closed", apart, "not near"), "n"),
               (conj(same, "closed", "not " + apart), "0"), (conj(same, "not closed"), "0"),
               ("(%s) < end_index" % si, "end_index - (%s)" % si), ("(%s) > end_index" % si, "n - (%s) + end_index" % si)]
        for c2, tc in tcs:
            # start point is nearer to the start of its segment than the end point
            c2 = c2.replace("not near", "not lessf(d(%s, start_point), d(%s, end_point))" % (si, si)).replace("near", "lessf(d(%s, start_point), d(%s, end_point))" % (si, si)) if "near" in c2 else c2
            for c3, nx in nxt("(%s)" % si):
                a, b = "at(%s)" % si, "at(%s)" % nx
                if snapped:
                    us = a
                else:
                    us = "seg_split_at_point(%s, %s, start_point, %s).split_vertex" % (a, b, eps)
                pre = conj(c1, c2, c3)
                if tc == "0":
                    us0 = "seg_split_at_point(%s, %s, end_point, %s).updated_start" % (us, b, eps)
                    cases += single("source", si, us0, "end_point", pre)
                else:
                    cases += multi(si, "end_point", "end_index", us, "(%s)" % tc, pre, "Some(%s)")
    env = fenv(f, {"d": lambda i, q: dist2(("call", TRP + "PlineSource::at", (("sym", "source"), i)), q),
                   "lessf": lambda a, b: ("flt", a, b)}, base)
    sym.check_table(rep, prog, f, cases, env, "n >= 2 and start_index >= 0 and start_index < n and end_index >= 0 and end_index < n and (closed or start_index <= end_index)",
                    models=VIEWMODELS, opaque=SP, key="from_slice_points")
    # ---- validation
    f = m("validate_for_source")
    vs = ("SourceHasNoSegments", "OffsetOutOfRange", "UpdatedStartNotOnSegment", "EndPointNotOnSegment", "EndPointOnFinalOffsetVertex", "UpdatedBulgeDoesNotMatch", "IsValid")
    W = {v: A.agg("adt", "ViewDataValidation", i, v, ()) for i, v in enumerate(vs)}

    def variant(i, *names):
        return lambda *xs: A.agg("adt", "ViewDataValidation", i, vs[i], tuple(zip(names, xs)))
    W.update({"Offset": variant(1, "offset", "source_length"), "Start": variant(2, "start_point"), "End": variant(3, "end_point"),
              "Final": variant(4, "end_point", "final_offset_vertex"), "Bulge": variant(5, "updated_bulge", "expected"), "feq": sym.feq, "veq": lambda a, b, e_: ("call", "veq", (a, b, e_)), **e})
    pe, oe = "0.00001", "0.001"
    on = lambda i, nx, q: "(veq({q}, at({i}), {oe}) or veq({q}, at({nx}), {oe}) or veq(seg_closest_point(at({i}), at({nx}), {q}, {pe}), {q}, {oe}))".format(i=i, nx=nx, q=q, oe=oe, pe=pe)
    cases = [("n < 2", "SourceHasNoSegments"), ("n >= 2 and off > n", "Offset(off, n)")]
    okc = "n >= 2 and off <= n"
    us, ep = xy("self.updated_start"), "self.end_point"
    for c1, nx in nxt("start"):
        st_on = on("start", nx, us)
        cases.append((conj(okc, c1, "not " + st_on), "Start(%s)" % us))
        for c2, ei in fwd("start + off"):
            for c3, ne in nxt("(%s)" % ei):
                en_on = on(ei, ne, ep)
                pre = conj(okc, c1, c2, c3, st_on)
                final = "veq(%s, at(%s), %s)" % (ep, ei, pe)
                diff = "feq(self.updated_end_bulge, self.updated_start.bulge, %s)" % pe
                cases.append((conj(pre, "not " + en_on), "End(%s)" % ep))
                pre = conj(pre, en_on)
                cases.append((conj(pre, final), "Final(%s, at(%s))" % (ep, ei)))
                cases.append((conj(pre, "not " + final, "off == 0", "not " + diff), "Bulge(self.updated_end_bulge, self.updated_start.bulge)"))
                cases.append((conj(pre, "not " + final, "off == 0", diff), "IsValid"))
                cases.append((conj(pre, "not " + final, "off > 0"), "IsValid"))
    sym.check_table(rep, prog, f, cases, fenv(f, W, base), "start >= 0 and off >= 0 and n >= 0 and (start < n or n < 2)", opaque=("seg_closest_point",), models=sym.VEQ, key="validate_for_source")
    rep.floor("table functions", 13)


def dist2(a, b):
    dx = ("bin", "Sub", ("fld", a, "x"), ("fld", b, "x"))
    dy = ("bin", "Sub", ("fld", a, "y"), ("fld", b, "y"))
    return ("bin", "Add", ("bin", "Mul", dx, dx), ("bin", "Mul", dy, dy))


# ------------------------------------------------------------------------------------- base math
BM = "cavalier_contours::core::math::base_math::"
PERP = "((p1.x - p0.x) * (point.y - p0.y) - (p1.y - p0.y) * (point.x - p0.x))"
DOT = "((point.x - p0.x) * (p1.x - p0.x) + (point.y - p0.y) * (p1.y - p0.y))"
LEN2 = "((p1.x - p0.x) * (p1.x - p0.x) + (p1.y - p0.y) * (p1.y - p0.y))"


def check_math(rep, prog, serde, tier):
    def fn(name):
        f = prog.fns.get(BM + name)
        if f is None:
            raise mir.MissingAnchor(BM + name)
        return f

    def T(f, cases, pre="", opaque=(), extra=None, key=None):
        ex = {"V": lambda a, b: A.agg("adt", "Vector2", 0, "Vector2", (("x", a), ("y", b))),
              "eps0": ("call", "fuzzy_epsilon", ())}
        ex.update(extra or {})
        sym.check_table(rep, prog, f, cases, fenv(f, ex), pre, opaque=opaque, key=key)
    T(fn("min_max"), [("lessf(v1, v2)", "(v1, v2)"), ("not lessf(v1, v2)", "(v2, v1)")], extra={"lessf": lambda a, b: ("flt", a, b)})
    T(fn("normalize_radians"), [("angle >= 0.0 and angle <= 2 * pi", "angle"),
                                ("angle < 0.0", "angle - floor(angle / (2 * pi)) * 2 * pi"), ("angle > 2 * pi", "angle - floor(angle / (2 * pi)) * 2 * pi")])
    NR = ("normalize_radians",)
    D = "normalize_radians(angle2 - angle1)"
    T(fn("delta_angle"), [(D + " > pi", D + " - 2 * pi"), (D + " <= pi", D)], opaque=NR)
    DA = "delta_angle(angle1, angle2)"
    T(fn("delta_angle_signed"), [("negative", "-abs(%s)" % DA), ("not negative", "abs(%s)" % DA)], opaque=("delta_angle",))
    LT = {"lessf": lambda a, b: ("flt", a, b)}
    btw = "lessf(normalize_radians({t} - {a}), normalize_radians({b} - {a}) + {e})"
    for nm, e in (("angle_is_between_eps", "epsilon"), ("angle_is_between", "eps0")):
        T(fn(nm), [("", btw.format(t="test_angle", a="start_angle", b="end_angle", e=e))], opaque=NR, extra=LT)
    for nm, e in (("angle_is_within_sweep_eps", "epsilon"), ("angle_is_within_sweep", "eps0")):
        T(fn(nm), [("sweep_angle < 0.0", btw.format(t="test_angle", a="(start_angle + sweep_angle)", b="start_angle", e=e)),
                   ("sweep_angle >= 0.0", btw.format(t="test_angle", a="start_angle", b="(start_angle + sweep_angle)", e=e))], opaque=NR, extra=LT)
    T(fn("dist_squared"), [("", "(p0.x - p1.x) * (p0.x - p1.x) + (p0.y - p1.y) * (p0.y - p1.y)")])
    T(fn("angle"), [("", "atan2(p1.y - p0.y, p1.x - p0.x)")])
    T(fn("midpoint"), [("", "V((p0.x + p1.x) / 2, (p0.y + p1.y) / 2)")])
    T(fn("point_on_circle"), [("", "V(center.x + radius * cos(angle), center.y + radius * sin(angle))")])
    T(fn("point_from_parametric"), [("", "V(p0.x + t * (p1.x - p0.x), p0.y + t * (p1.y - p0.y))")])
    T(fn("quadratic_solutions"), [("b < 0.0", "((-b + sqrt_discriminant) / (2 * a), c / a * (2 * a) / (-b + sqrt_discriminant))"),
                                  ("b >= 0.0", "((-b - sqrt_discriminant) / (2 * a), c / a * (2 * a) / (-b - sqrt_discriminant))")],
      "call_ok", extra={"call_ok": sym.feq(("bin", "Sub", ("call", "sqrt", (("bin", "Sub", ("bin", "Mul", ("sym", "b"), ("sym", "b")), ("bin", "Mul", ("bin", "Mul", A.c(4), ("sym", "a")), ("sym", "c"))),)), ("sym", "sqrt_discriminant")), A.c(0), ("call", "fuzzy_epsilon", ()))})
    f = fn("parametric_from_point")
    onl = sym.feq(("bin", "Div", fenv(f).term("(p1.x - p0.x) * (p0.y - point.y) - (p0.x - point.x) * (p1.y - p0.y)"), ("call", "sqrt", (fenv(f).term(LEN2),))), A.c(0), ("sym", "epsilon"))
    T(f, [("lessf(abs(p1.x - p0.x), abs(p1.y - p0.y))", "(point.y - p0.y) / (p1.y - p0.y)"),
          ("not lessf(abs(p1.x - p0.x), abs(p1.y - p0.y))", "(point.x - p0.x) / (p1.x - p0.x)")], "on_line", extra=dict(LT, on_line=onl))
    T(fn("line_seg_closest_point"), [
        (DOT + " < eps0", "p0"),
        ("%s >= eps0 and %s < %s + eps0" % (DOT, LEN2, DOT), "p1"),
        ("%s >= eps0 and %s >= %s + eps0" % (DOT, LEN2, DOT), "V(p0.x + {d} / {l} * (p1.x - p0.x), p0.y + {d} / {l} * (p1.y - p0.y))".format(d=DOT, l=LEN2))])
    T(fn("is_left"), [("", "lessf(0.0, %s)" % PERP)], extra=LT)
    T(fn("is_left_or_equal"), [("", "not lessf(%s, 0.0)" % PERP)], extra=LT)
    for nm, e in (("_eps", "epsilon"), ("", "eps0")):
        pre = "lessf(0.0, %s)" % e
        T(fn("is_left_or_coincident" + nm), [("", "lessf(-%s, %s)" % (e, PERP))], pre, extra=LT)
        T(fn("is_right_or_coincident" + nm), [("", "lessf(%s, %s)" % (PERP, e))], pre, extra=LT)
    L = "lessf(-epsilon, (%s.x - center.x) * (point.y - center.y) - (%s.y - center.y) * (point.x - center.x))"
    R = "lessf((%s.x - center.x) * (point.y - center.y) - (%s.y - center.y) * (point.x - center.x), epsilon)"
    rs, le_, ls, re_ = R % (("arc_start",) * 2), L % (("arc_end",) * 2), L % (("arc_start",) * 2), R % (("arc_end",) * 2)
    T(fn("point_within_arc_sweep"), [
        ("is_clockwise and %s and %s" % (rs, le_), "True"), ("is_clockwise and not (%s and %s)" % (rs, le_), "False"),
        ("not is_clockwise and %s and %s" % (ls, re_), "True"), ("not is_clockwise and not (%s and %s)" % (ls, re_), "False")], "lessf(0.0, epsilon)", extra=LT)
    T(fn("bulge_from_angle"), [("", "tan(angle / 4)")])
    T(fn("angle_from_bulge"), [("", "4 * atan(bulge)")])

    # ---- fuzzy comparison of numbers
    for ty in ("f32", "f64"):
        def impl(name):
            r = [f for f in prog.by_name(name) if f.j.get("impl_trait", "") and f.j["impl_trait"].split("::")[-1] in ("FuzzyEq", "FuzzyOrd") and prog.tstr(f.crate, f.j["impl_self"]) == ty]
            if len(r) != 1:
                raise mir.MissingAnchor("%s for %s" % (name, ty))
            return r[0]
        d = {"lessf": lambda a, b: ("flt", a, b)}
        for name, spec in (("fuzzy_eq_eps", "lessf(abs({s} - {o}), {e})"), ("fuzzy_eq_zero_eps", "lessf(abs({s}), {e})"),
                           ("fuzzy_gt_eps", "lessf({o}, {s} + {e})"), ("fuzzy_lt_eps", "lessf({s}, {o} + {e})"), ("fuzzy_epsilon", "0.00000001")):
            f = impl(name)
            ps = [a[1] for a in sym.argsyms(f)]
            T(f, [("", spec.format(s=ps[0] if ps else "", o=ps[1] if len(ps) > 1 else "", e=ps[-1] if ps else ""))], extra=d, key="%s::%s" % (ty, name))
    feqs = {"feq": lambda a, b, e: sym.feq(a, b, e)}
    gt = {"gt": lambda a, b, e: ("call", "x::fuzzy_gt_eps", (a, b, e)), "lt": lambda a, b, e: ("call", "x::fuzzy_lt_eps", (a, b, e))}
    for tr, name, cases in (("FuzzyEq", "fuzzy_eq", [("", "feq(self, other, eps0)")]), ("FuzzyEq", "fuzzy_eq_zero", [("", "feq(self, 0.0, eps0)")]),
                            ("FuzzyOrd", "fuzzy_gt", [("", "gt(self, other, eps0)")]), ("FuzzyOrd", "fuzzy_lt", [("", "lt(self, other, eps0)")]),
                            ("FuzzyOrd", "fuzzy_in_range_eps", [("gt(self, min, fuzzy_epsilon) and lt(self, max, fuzzy_epsilon)", "True"), ("not (gt(self, min, fuzzy_epsilon) and lt(self, max, fuzzy_epsilon))", "False")]),
                            ("FuzzyOrd", "fuzzy_in_range", [("gt(self, min, eps0) and lt(self, max, eps0)", "True"), ("not (gt(self, min, eps0) and lt(self, max, eps0))", "False")])):
        f = prog.one(name, trait_default=tr)
        T(f, cases, extra=dict(feqs, **gt))

    # ---- vectors and vertices
    def impls(name, adt):
        r = [f for f in prog.by_name(name, impl_adt=adt)]
        if not r:
            raise mir.MissingAnchor("%s::%s" % (adt, name))
        return r

    def refimpls(name, adt):
        out = []
        for f in prog.fns.values():
            if f.n == name and f.kind == "AssocFn" and f.j.get("impl_self") is not None:
                t = prog.ty(f.crate, f.j["impl_self"])
                while t["k"] in ("ref", "ptr"):
                    t = prog.ty(f.crate, t["t"])
                if mir.adt_name(t) == adt:
                    out.append(f)
        return out
    s2 = "(self.x * self.x + self.y * self.y)"
    rx = "(self.x - origin.x)"
    ry = "(self.y - origin.y)"
    rows = {"new": "V(x, y)", "zero": "V(0.0, 0.0)", "scale": "V(scale_factor * self.x, scale_factor * self.y)",
            "dot": "self.x * other.x + self.y * other.y", "perp_dot": "self.x * other.y - self.y * other.x",
            "length_squared": s2, "length": "sqrt(%s)" % s2, "normalize": "V(self.x / sqrt(%s), self.y / sqrt(%s))" % (s2, s2),
            "perp": "V(-self.y, self.x)", "unit_perp": "V(-self.y / sqrt(%s), self.x / sqrt(%s))" % (s2, s2),
            "rotate_about": "V(origin.x + {x} * cos(angle) - {y} * sin(angle), origin.y + {x} * sin(angle) + {y} * cos(angle))".format(x=rx, y=ry)}
    for name, spec in rows.items():
        for f in impls(name, "Vector2"):
            T(f, [("", spec)])
    for name, op in (("add", "+"), ("sub", "-")):
        fs = refimpls(name, "Vector2")
        rep.count("operator impls", len(fs))
        for f in fs:
            T(f, [("", "V(a.x %s b.x, a.y %s b.y)" % (op, op))], extra={"a": sym.argsyms(f)[0], "b": sym.argsyms(f)[1]}, key=f.d)
    for f in refimpls("neg", "Vector2"):
        rep.count("operator impls")
        T(f, [("", "V(-self.x, -self.y)")], key=f.d)
    pq = lambda e: [("peq(self, other, %s)" % e, "True"), ("not peq(self, other, %s)" % e, "False")]
    for name, e in (("fuzzy_eq_eps", "fuzzy_epsilon"), ("fuzzy_eq", "eps0")):
        for f in impls(name, "Vector2"):
            T(f, pq(e))
    PV = lambda x, y, b: "PlineVertex(x=%s, y=%s, bulge=%s)" % (x, y, b)
    for name, cs in (("new", [("", PV("x", "y", "bulge"))]), ("from_vector2", [("", PV("vector2.x", "vector2.y", "bulge"))]),
                     ("with_bulge", [("", PV("self.x", "self.y", "bulge"))]), ("pos", [("", "V(self.x, self.y)")]),
                     ("bulge_is_zero", [("", "feq(self.bulge, 0.0, eps0)")]), ("bulge_is_pos", [("self.bulge > 0.0", "True"), ("self.bulge <= 0.0", "False")]),
                     ("bulge_is_neg", [("self.bulge < 0.0", "True"), ("self.bulge >= 0.0", "False")])):
        for f in impls(name, "PlineVertex"):
            T(f, cs, extra=feqs)
    for name, e in (("fuzzy_eq_eps", "fuzzy_epsilon"), ("fuzzy_eq", "eps0")):
        for f in impls(name, "PlineVertex"):
            c = "(peq(self, other, {e}) and feq(self.bulge, other.bulge, {e}))".format(e=e)
            T(f, [(c, "True"), ("not " + c, "False")], extra=feqs)
    rep.floor("operator impls", 10)
    rep.floor("table functions", 70)


# ------------------------------------------------------------------------------------- segments
PS = "cavalier_contours::polyline::pline_seg::"


def segfn(prog, name):
    f = prog.fns.get(PS + name)
    if f is None:
        raise mir.MissingAnchor(PS + name)
    return f


def vec(a, b):
    return A.agg("adt", "Vector2", 0, "Vector2", (("x", a), ("y", b)))


def call(n, *a):
    return ("call", n, tuple(a))


def segextra():
    arc = lambda a, b: call("seg_arc_radius_and_center", a, b)
    return {"V": vec, "eps0": call("fuzzy_epsilon"), "lessf": lambda a, b: ("flt", a, b), "neg": lambda a: ("flt", a, A.c(0)),
            "feq": sym.feq,
            "radius": lambda a, b: ("fld", arc(a, b), "0"), "center": lambda a, b: ("fld", arc(a, b), "1"),
            "ang": lambda c_, p: call("atan2", ("bin", "Sub", ("fld", p, "y"), ("fld", c_, "y")), ("bin", "Sub", ("fld", p, "x"), ("fld", c_, "x"))),
            "d2": dist2, "P": lambda v: vec(("fld", v, "x"), ("fld", v, "y")),
            "mn": lambda a, b: call("min", a, b), "mx": lambda a, b: call("max", a, b),
            "AABB": aabb}


def aabb(*a):
    return A.agg("adt", "AABB", 0, "AABB", tuple(zip(("min_x", "min_y", "max_x", "max_y"), a)))


def m_aabb_new(I, fn, fr, b, t, st, args, stack):
    """AABB::new(min_x, min_y, max_x, max_y)"""
    return iter([A.Out("ret", aabb(*args), st)])


def m_ib_new(I, fn, fr, b, t, st, args, stack):
    """StaticAABB2DIndexBuilder::new(count): a sequence of boxes to be filled"""
    return iter([A.Out("ret", A.agg("adt", "IndexBuilder", 0, "IndexBuilder", (("cap", I.term(args[0], st)), ("items", call("empty")))), st)])


def m_ib_add(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    v = I.read(st, root, proj)
    items = I.project(v, ("f", "items"))
    I.write(st, root, proj + (("f", "items"),), call("push", items, aabb(*[I.term(a, st) for a in args[1:5]])))
    return iter([A.Out("ret", args[0], st)])


def m_ib_build(I, fn, fr, b, t, st, args, stack):
    v = I.term(args[0], st)
    if v[0] == "ref":
        v = I.read(st, *I.deref(st, args[0]))
    return iter([A.Out("ret", sym.ok(call("index", I.project(v, ("f", "cap")), I.project(v, ("f", "items")))), st)])


IBM = {"StaticAABB2DIndexBuilder::new": m_ib_new, "StaticAABB2DIndexBuilder::add": m_ib_add, "StaticAABB2DIndexBuilder::build": m_ib_build}
IBM.update({"static_aabb2d_index::static_aabb2d_index::" + k: v for k, v in (("new", m_ib_new), ("add", m_ib_add), ("build", m_ib_build))})
AABBM = {"AABB::new": m_aabb_new, "static_aabb2d_index::core::new": m_aabb_new}
LINE = "feq(v1.bulge, 0.0, eps0)"


def check_seg(rep, prog, serde, tier):
    OPQ = ("seg_arc_radius_and_center", "delta_angle", "delta_angle_signed", "line_seg_closest_point", "point_within_arc_sweep", "angle_is_within_sweep_eps")

    def T(name, cases, pre="", opaque=OPQ, models=None):
        f = segfn(prog, name)
        sym.check_table(rep, prog, f, cases, fenv(f, segextra()), pre, opaque=opaque, models=models, key=name)
    chord2 = "((v2.x - v1.x) * (v2.x - v1.x) + (v2.y - v1.y) * (v2.y - v1.y))"
    b = "v1.bulge"
    T("seg_arc_radius_and_center", [("%s != 0.0" % b, "(sqrt({c}) * ({b} * {b} + 1) / (4 * abs({b})), V((v1.x + v2.x) / 2 - (v2.y - v1.y) * (1 - {b} * {b}) / (4 * {b}), (v1.y + v2.y) / 2 + (v2.x - v1.x) * (1 - {b} * {b}) / (4 * {b})))".format(c=chord2, b=b)),
                                    ("%s == 0.0" % b, "any")],
      "not %s and not peq(v1, v2, eps0)" % LINE, opaque=())
    e = "pos_equal_eps"
    pt = "point_on_seg"
    SR = lambda a, b_: "SplitResult(updated_start=%s, split_vertex=%s)" % (a, b_)
    PV = lambda x, y, b_: "PlineVertex(x=%s, y=%s, bulge=%s)" % (x, y, b_)
    at = lambda p: "ang(center(v1, v2), %s)" % p
    arc = "not %s" % LINE
    top = "(peq(v1, v2, {e}) or peq(v1, {p}, {e}))".format(e=e, p=pt)
    cases = [(LINE, SR("v1", PV(pt + ".x", pt + ".y", "0.0"))),
             (conj(arc, top), SR(PV(pt + ".x", pt + ".y", "0.0"), PV(pt + ".x", pt + ".y", "v1.bulge"))),
             (conj(arc, "not " + top, "peq(v2, %s, %s)" % (pt, e)), SR("v1", PV("v2.x", "v2.y", "0.0")))]
    sg = "neg(v1.bulge)"
    cases.append((conj(arc, "not " + top, "not peq(v2, %s, %s)" % (pt, e)),
                  SR(PV("v1.x", "v1.y", "tan(delta_angle_signed(%s, %s, %s) / 4)" % (at("v1"), at(pt), sg)),
                     PV(pt + ".x", pt + ".y", "tan(delta_angle_signed(%s, %s, %s) / 4)" % (at(pt), at("v2"), sg)))))
    T("seg_split_at_point", cases)
    T("seg_tangent_vector", [(LINE, "V(v2.x - v1.x, v2.y - v1.y)"),
                             (arc + " and v1.bulge > 0.0", "V(-(%s.y - center(v1, v2).y), %s.x - center(v1, v2).x)" % (pt, pt)),
                             (arc + " and v1.bulge <= 0.0", "V(%s.y - center(v1, v2).y, -(%s.x - center(v1, v2).x))" % (pt, pt))])
    rows = []
    c_ = "center(v1, v2)"
    atc = "peq(point, %s, epsilon)" % c_
    ln = "sqrt(d2(point, %s))" % c_
    for sg in ("neg(v1.bulge)",):
        within = "point_within_arc_sweep(%s, P(v1), P(v2), %s, point, epsilon)" % (c_, sg)
        rows += [(conj(arc, "not " + atc, within), "V({c}.x + radius(v1, v2) * (point.x - {c}.x) / {l}, {c}.y + radius(v1, v2) * (point.y - {c}.y) / {l})".format(c=c_, l=ln)),
                 (conj(arc, "not " + atc, "not " + within, "lessf(d2(v1, point), d2(v2, point))"), "P(v1)"),
                 (conj(arc, "not " + atc, "not " + within, "not lessf(d2(v1, point), d2(v2, point))"), "P(v2)")]
    T("seg_closest_point", [(LINE, "line_seg_closest_point(P(v1), P(v2), point)"), (conj(arc, atc), "P(v1)")] + rows)
    rep_ = "peq(v1, v2, eps0)"
    T("seg_length", [(rep_, "0.0"), ("not %s and %s" % (rep_, LINE), "sqrt(d2(v1, v2))"),
                     ("not %s and %s" % (rep_, arc), "radius(v1, v2) * abs(delta_angle(%s, %s))" % (at("v1"), at("v2")))])
    mid = "({a} + delta_angle_signed({a}, {b}, {s}) / 2)"
    cases = [(LINE, "V((v1.x + v2.x) / 2, (v1.y + v2.y) / 2)")]
    for sg in ("neg(v1.bulge)",):
        m = mid.format(a=at("v1"), b=at("v2"), s=sg)
        cases.append((conj(arc), "V({c}.x + radius(v1, v2) * cos({m}), {c}.y + radius(v1, v2) * sin({m}))".format(c=c_, m=m)))
    T("seg_midpoint", cases)
    rep.floor("table functions", 6)


# ------------------------------------------------------------------------------------- folds
SELF = ("sym", "self")
IV = ("idxin", A.c(0), ("call", "segment_count", (SELF,)))
ELEMS = {"i": IV, "v1": ("call", "at", (SELF, IV)), "v2": ("call", "at", (SELF, ("call", "next_wrapping_index", (SELF, IV))))}


def srcfn(prog, name):
    f = prog.fns.get("cavalier_contours::polyline::traits::PlineSource::" + name)
    if f is None:
        raise mir.MissingAnchor("PlineSource::" + name)
    return f


def fold_env(f, extra=None):
    ex = dict(segextra())
    ex.update(ELEMS)
    ex.update(pline_env().names)
    ex.update(extra or {})
    return fenv(f, ex)


FOPQ = ("next_wrapping_index", "segment_count", "arc_seg_bounding_box", "seg_length", "seg_closest_point", "seg_arc_radius_and_center")


def check_measures(rep, prog, serde, tier):
    f = srcfn(prog, "orientation")
    unit = lambda n: A.agg("adt", "PlineOrientation", 0, n, ())
    sym.check_table(rep, prog, f, [("not closed", "Open"), ("closed and area < 0.0", "Clockwise"), ("closed and area >= 0.0", "CounterClockwise")],
                    fold_env(f, {"area": call("area", SELF), **{n: unit(n) for n in ("Open", "Clockwise", "CounterClockwise")}}), opaque=("area",), key="orientation")
    f = srcfn(prog, "path_length")
    sym.check_fold(rep, prog, f, fold_env(f), [("acc", "0", [("", "acc + seg_length(v1, v2)")])], [("", "acc")], key="path_length", opaque=FOPQ, elems=ELEMS)
    f = srcfn(prog, "area")
    sweep = "(4 * atan(abs(v1.bulge)))"
    ch2 = "((v2.x - v1.x) * (v2.x - v1.x) + (v2.y - v1.y) * (v2.y - v1.y))"
    rad = "(sqrt({c}) * (v1.bulge * v1.bulge + 1) / (4 * abs(v1.bulge)))".format(c=ch2)
    seg = "({s} * {r} * {r} - sqrt({c}) * ({r} - abs(v1.bulge) * sqrt({c}) / 2))".format(s=sweep, r=rad, c=ch2)
    line = "acc + v1.x * v2.y - v1.y * v2.x"
    sym.check_fold(rep, prog, f, fold_env(f),
                   [("acc", "0", [("feq(v1.bulge, 0.0, eps0)", line), ("not feq(v1.bulge, 0.0, eps0) and v1.bulge < 0.0", line + " - " + seg), ("not feq(v1.bulge, 0.0, eps0) and v1.bulge >= 0.0", line + " + " + seg)])],
                   [("closed", "acc / 2"), ("not closed", "0.0")], key="area", opaque=FOPQ, elems=ELEMS)
    rep.floor("loop functions", 2)


def check_search(rep, prog, serde, tier):
    """closest_point, find_point_at_path_length, winding_number"""
    f = srcfn(prog, "closest_point")
    env = fold_env(f, {"cp": call("seg_closest_point", ELEMS["v1"], ELEMS["v2"], ("sym", "point"), ("sym", "pos_equal_eps")), "big": call("max_value")})
    better, worse = "d2(point, cp) < dd", "d2(point, cp) > dd"
    R = lambda i, p, d: "Some(ClosestPointResult(seg_start_index=%s, seg_point=%s, distance=%s))" % (i, p, d)
    sym.check_fold(rep, prog, f, env,
                   [("idx", "0", [(better, "i"), (worse, "idx")]), ("pt", "P(at(0))", [(better, "cp"), (worse, "pt")]), ("dd", "big", [(better, "d2(point, cp)"), (worse, "dd")])],
                   [("n == 0", "None"), ("n == 1", R("0", "P(at(0))", "sqrt(d2(at(0), point))")), ("n > 1", R("idx", "pt", "sqrt(dd)"))],
                   key="closest_point", opaque=FOPQ, elems=ELEMS)
    f = srcfn(prog, "find_point_at_path_length")
    env = fold_env(f, {"L": call("seg_length", ELEMS["v1"], ELEMS["v2"])})
    tt = "((target_path_length - acc) / L)"
    tgt = "target_path_length"
    hit = "%s > 0.0 and acc + L >= %s" % (tgt, tgt)
    an = "(ang(center(v1, v2), v1) + 4 * atan(v1.bulge) * %s)" % tt
    sym.check_fold(rep, prog, f, env, [("acc", "0", [("acc + L < %s" % tgt, "acc + L")])],
                   [("%s <= 0.0 and n > 0" % tgt, "Ok((0, P(at(0))))"), ("%s <= 0.0 and n == 0" % tgt, "Err(0.0)"), ("%s > 0.0" % tgt, "Err(acc)")],
                   early=[(hit + " and feq(v1.bulge, 0.0, eps0)", "Ok((i, V(v1.x + (v2.x - v1.x) * {t}, v1.y + (v2.y - v1.y) * {t})))".format(t=tt)),
                          (hit + " and not feq(v1.bulge, 0.0, eps0)", "Ok((i, V(center(v1, v2).x + radius(v1, v2) * cos({a}), center(v1, v2).y + radius(v1, v2) * sin({a}))))".format(a=an))],
                   key="find_point_at_path_length", opaque=FOPQ, elems=ELEMS)
    f = srcfn(prog, "winding_number")
    env = fold_env(f, {})
    side_ = "((v2.x - v1.x) * (point.y - v1.y) - (v2.y - v1.y) * (point.x - v1.x))"
    line = "feq(v1.bulge, 0.0, eps0)"
    up, down = "v1.y <= point.y and v2.y > point.y", "v1.y > point.y and v2.y <= point.y"
    below, above = "v1.y <= point.y and v2.y <= point.y", "v1.y > point.y and v2.y > point.y"
    C = "d2(center(v1, v2), point) < radius(v1, v2) * radius(v1, v2)"
    sides = {"not lefteq": side_ + " < 0.0", "lefteq": side_ + " >= 0.0", "not left": side_ + " <= 0.0", "left": side_ + " > 0.0"}

    def conj(*cs):
        return globals()["conj"](*[sides.get(x, x) for x in cs])
    rows = [(conj(line, up, "left"), 1), (conj(line, up, "not left"), 0), (conj(line, down, "left"), 0), (conj(line, down, "not left"), -1),
            (conj(line, below), 0), (conj(line, above), 0)]
    ccw, cw = conj("not " + line, "v1.bulge > 0.0"), conj("not " + line, "v1.bulge <= 0.0")
    notC = C.replace(" < ", " >= ")
    back, fwd_ = "v2.x < point.x and point.x < v1.x", "v1.x < point.x and point.x < v2.x"
    neg = lambda x: "not (%s)" % x
    rows += [(conj(ccw, up, "left"), 1), (conj(ccw, up, "not left", C), 1), (conj(ccw, up, "not left", notC), 0),
             (conj(cw, up, "lefteq", notC), 1), (conj(cw, up, "lefteq", C), 0), (conj(cw, up, "not lefteq"), 0),
             (conj(ccw, down, "left"), 0), (conj(ccw, down, "not left", C), 0), (conj(ccw, down, "not left", notC), -1),
             (conj(cw, down, "lefteq", C), -1), (conj(cw, down, "lefteq", notC), 0), (conj(cw, down, "not lefteq"), -1)]
    for side, xin, xin2 in ((below, back, fwd_), (above, fwd_, back)):
        rows += [(conj(ccw, side, "not left", xin, C), 1), (conj(ccw, side, "not left", xin, notC), 0), (conj(ccw, side, "not left", neg(xin)), 0), (conj(ccw, side, "left"), 0),
                 (conj(cw, side, "lefteq", xin2, C), -1), (conj(cw, side, "lefteq", xin2, notC), 0), (conj(cw, side, "lefteq", neg(xin2)), 0), (conj(cw, side, "not lefteq"), 0)]
    sym.check_fold(rep, prog, f, env, [("w", "0", [(cd, "w + %d" % v if v > 0 else "w - %d" % -v if v else "w") for cd, v in rows])],
                   [("closed and n >= 2", "w"), ("not closed", "0"), ("n < 2", "0")], key="winding_number", opaque=FOPQ, elems=ELEMS)
    rep.floor("loop functions", 3)


def check_extents(rep, prog):
    f = srcfn(prog, "extents")
    env = fold_env(f, {"sc": call("segment_count", SELF), "B": call("arc_seg_bounding_box", ELEMS["v1"], ELEMS["v2"])})
    del env.names["AABB"]
    line, arc = "feq(v1.bulge, 0.0, eps0)", "not feq(v1.bulge, 0.0, eps0)"
    comps = []
    for k in ("min_x", "min_y", "max_x", "max_y"):
        m, a = ("mn" if k[1] == "i" else "mx"), k[-1]
        comps.append((k, "at(0).%s" % a, [(line, "%s(%s, v2.%s)" % (m, k, a)), (arc, "%s(%s, B.%s)" % (m, k, k))]))
    sym.check_fold(rep, prog, f, env, comps, [("sc == 0", "None"), ("sc != 0", "Some(AABB(min_x=min_x, min_y=min_y, max_x=max_x, max_y=max_y))")],
                   inv="min_x <= max_x and min_y <= max_y", key="extents", opaque=FOPQ, models=AABBM, elems=ELEMS)


def check_indexes(rep, prog):
    for name, seg in (("create_aabb_index", "seg_bounding_box"), ("create_approx_aabb_index", "seg_fast_approx_bounding_box")):
        f = srcfn(prog, name)
        env = fold_env(f, {"B": call(seg, ELEMS["v1"], ELEMS["v2"]), "sc": call("segment_count", SELF)})
        sym.check_fold(rep, prog, f, env, [("items", "empty()", [("", "push(items, AABB(B.min_x, B.min_y, B.max_x, B.max_y))")])],
                       [("n < 2", "index(0, empty())"), ("n >= 2 and closed", "index(n, items)"), ("n >= 2 and not closed", "index(n - 1, items)")],
                       key=name, opaque=("next_wrapping_index", "seg_bounding_box", "seg_fast_approx_bounding_box"), models={**IBM, **AABBM}, elems=ELEMS, empty="n < 2")


def check_box(rep, prog, serde, tier):
    OPQ = ("seg_arc_radius_and_center", "delta_angle_signed", "angle_is_within_sweep_eps")
    box = "AABB(mn(v1.x, v2.x), mn(v1.y, v2.y), mx(v1.x, v2.x), mx(v1.y, v2.y))"

    def T(name, cases, pre="", opaque=OPQ):
        f = segfn(prog, name)
        sym.check_table(rep, prog, f, cases, fenv(f, segextra()), pre, opaque=opaque, models=AABBM, key=name)
    ox = "(v1.bulge * (v2.y - v1.y) / 2)"
    oy = "(-v1.bulge * (v2.x - v1.x) / 2)"
    lo = lambda c, o: "mn(mn(v1.%s, v2.%s), mn(v1.%s + %s, v2.%s + %s))" % (c, c, c, o, c, o)
    hi = lambda c, o: "mx(mx(v1.%s, v2.%s), mx(v1.%s + %s, v2.%s + %s))" % (c, c, c, o, c, o)
    T("seg_fast_approx_bounding_box", [(LINE, box), ("not " + LINE, "AABB(%s, %s, %s, %s)" % (lo("x", ox), lo("y", oy), hi("x", ox), hi("y", oy)))])
    point = "peq(v1, v2, eps0)"
    cases = []
    a1, a2 = "ang(center(v1, v2), v1)", "ang(center(v1, v2), v2)"
    for sg in ("neg(v1.bulge)",):
        crosses = lambda q: "angle_is_within_sweep_eps(%s, %s, delta_angle_signed(%s, %s, %s), eps0)" % (q, a1, a1, a2, sg)
        qs = [("pi", "center(v1, v2).x - radius(v1, v2)", "mn(v1.x, v2.x)"), ("3 * pi / 2", "center(v1, v2).y - radius(v1, v2)", "mn(v1.y, v2.y)"),
              ("0.0", "center(v1, v2).x + radius(v1, v2)", "mx(v1.x, v2.x)"), ("pi / 2", "center(v1, v2).y + radius(v1, v2)", "mx(v1.y, v2.y)")]
        for m in range(16):
            cs = [(crosses(q[0]) if m >> i & 1 else "not " + crosses(q[0])) for i, q in enumerate(qs)]
            vs = [q[1] if m >> i & 1 else q[2] for i, q in enumerate(qs)]
            cases.append((conj("not " + point, *cs), "AABB(%s)" % ", ".join(vs)))
    cases.append((point, "AABB(v1.x, v1.y, v1.x, v1.y)"))
    T("arc_seg_bounding_box", cases, "not " + LINE)
    T("seg_bounding_box", [(LINE, box), ("not " + LINE, "arc_seg_bounding_box(v1, v2)")], opaque=("arc_seg_bounding_box",))
    check_extents(rep, prog)
    check_indexes(rep, prog)
