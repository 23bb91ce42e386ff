"""Cut-point analysis: every loop header is a cut point; the code between two cut points is analysed once from the
most general state in which the first can be reached (values changed by the loop are unknowns, facts are those common to
all ways in).  The result is a list of segments, each with its path condition and its effects."""
import absint as A
import lists
import sym
from absint import Out, UNIT
from lists import LSym, lst, one, items_of


class Restart(Exception):
    pass


class Seg:
    __slots__ = ("start", "end", "facts", "events", "vals", "st", "val", "ctx")


def target(I, st, a):
    """what a mutable reference designates, as a name that does not depend on the state"""
    root, proj = I.deref(st, a)
    if root[0] == "O":
        return root[1] if not proj else ("part", root[1], proj)
    return ("local",) + tuple(A.locname((root, proj)))


def e_push(base):
    def h(I, fn, fr, b, t, st, args, stack):
        tg = target(I, st, args[0])
        v = I.term(args[1], st)
        r = base(I, fn, fr, b, t, st, args, stack)
        if r is NotImplemented:
            return r

        def g():
            for o in r:
                if o.kind == "ret":
                    I.event(o.st, "push", tg, v)
                yield o
        return g()
    return h


class Cut(LSym):
    def __init__(self, prog, opaque=(), models=None, **kw):
        m = {"vec::push": e_push(lists.m_push), "Vec::push": e_push(lists.m_push), "vec::retain": m_retain, "Vec::retain": m_retain,
             "vec::extend": m_extend, "Extend::extend": m_extend}
        m.update(models or {})
        super().__init__(prog, opaque, m, **kw)
        self.changed, self.allow, self.gone = {}, {}, {}
        self.unroll = {}
        self.cyc = {}
        self.fresh()

    def fresh(self):
        self.hdr, self.segs = {}, []
        self.entry, self.back = {}, {}

    def reset(self):
        super().reset()
        self.hdr, self.segs = {}, []

    def event(self, st, kind, *xs):
        st.events = st.events + ((kind,) + xs,)

    def opaque(self, fn, fr, b, t, st, nk, args):
        tg = None
        for i, a in enumerate(args):
            ty = self.prog.operand_ty(fn, t["args"][i])
            if ty["k"] == "ref" and ty["mut"]:
                tg = target(self, st, a)
                break
        o = super().opaque(fn, fr, b, t, st, nk, args)
        if tg is not None:
            o.st.events = tuple(e for e in o.st.events if e[0] != "mutcall")
            self.event(o.st, "mut", tg, nk.split("::")[-1], ("call", "args", o.val[2][1:]))
        return o

    def pairs(self, it):
        """an iterator over the windows of two neighbours -> (sequence, number of windows already taken)"""
        k = 0
        while it[0] == "iter" and isinstance(it[1], tuple) and it[1][0] == "call" and it[1][1] == "skip" and it[1][2][1][0] == "c":
            k += it[1][2][1][1]
            it = it[1][2][0]
        if it[0] == "iter" and isinstance(it[1], tuple) and it[1][:2] == ("call", "windows"):
            return it[1][2][0], k
        return None

    def elem(self, st, it):
        w = self.pairs(it)
        if w is not None:
            v, k = w
            i = ("idxin", A.c(k), ("bin", "Sub", lists.length(v) if lists.is_list(v) else ("call", "len", (v,)), A.c(1)))
            return self.pair(v, i, ("bin", "Add", i, A.c(1)))
        return super().elem(st, it)

    def pair(self, v, i, j):
        x = lambda i: ("obj", ("index", v, i))
        return A.agg("array", "", 0, "", (("0", x(i)), ("1", x(j))))

    def std_model(self, fn, fr, b, t, st, nk, args, stack):
        if nk.endswith("slice::windows") and args[1] == A.c(2):
            v = args[0]
            v = self.term(self.read(st, *self.deref(st, v)), st)
            return iter([Out("ret", ("iter", ("call", "windows", (v, A.c(2)))), st)])
        if nk.split("::")[-1] == "next" and ("iter" in nk or "Iterator" in nk) and args[0][0] == "ref" and not self.cyclic(fn, b):
            # the first element of a sequence of neighbours, taken outside of any loop
            it = self.as_iter(self.read(st, args[0][1], args[0][2]), st)
            w = self.pairs(it)
            if w is not None:
                v, k = w

                def g():
                    n = lists.length(v) if lists.is_list(v) else ("call", "len", (v,))
                    for val, s in self.cond(("lt", A.c(k + 1), n), st):
                        self.write(s, args[0][1], args[0][2], ("iter", ("call", "skip", (it, A.c(1)))))      # nothing is left of an empty one either
                        if val:
                            root = ("H", ("pair", fr, b))
                            s.mem[(root, ())] = self.pair(v, A.c(k), A.c(k + 1))
                            yield Out("ret", A.some(("ref", root, ())), s)
                        else:
                            yield Out("ret", A.NONE, s)
                return g()
        if nk.split("::")[-1] == "next" and ("iter" in nk or "Iterator" in nk) and args[0][0] == "ref" and self.cyclic(fn, b):
            it = self.as_iter(self.read(st, args[0][1], args[0][2]), st)
            if sym.has_lazy(it):
                return self.lazy_next(fn, fr, b, t, st, it, stack)
        if nk.split("::")[-1] == "collect" and args and ("iter" in nk or "Iterator" in nk):
            r = lists.m_collect(self, fn, fr, b, t, st.copy(), args, stack)
            if r is not NotImplemented:
                return r
            it = self.as_iter(args[0], st)
            if it[0] in ("lmap", "lfilter", "lflat", "enum", "zip", "skip", "take", "rev"):
                root = ("H", ("coll", fn.d, b))
                st.mem[(root, ())] = lists.EMPTY

                def done(s):
                    v = self.term(self.read(s, root, ()), s)
                    s.mem.pop((root, ()), None)
                    return iter([Out("ret", v, s)])
                return push_loop(self, fn, fr, b, t, st, it, root, (), stack, None, done)
        return super().std_model(fn, fr, b, t, st, nk, args, stack)

    def lazy_next(self, fn, fr, b, t, st, it, stack):
        """the next element of a sequence that is filtered or mapped on the way; one that is filtered out is a round
        of the loop that does nothing"""
        s1 = st.copy()
        s1.ev(("exhausted", A.srcs(it)))
        yield Out("ret", A.NONE, s1)
        for kind, e, s in self.pull(fn, fr, b, t, st, it, stack):
            if kind == "panic":
                yield e
            elif kind == "item":
                yield Out("ret", A.some(e), s)
            else:
                key = s.visits.get("cut")
                x = key[1] if key and key[0] == fr and isinstance(key[1], int) else None
                while x is not None and x != b:
                    n = list(set(fn.succs(x)))
                    x = n[0] if len(n) == 1 else None
                if x is None or s.events:
                    raise A.Limit("an element is filtered out away from the head of its loop")
                vals = {("loop", fn.d, key[1], A.locname(loc)): self.term(self.read(s, *loc), s) for loc in self.changed.get(key, ())}
                self.back.setdefault((fn.d, key[1]), []).append((dict(s.facts), vals))
                self.seg(s, ("back", key), vals)

    def cyclic(self, fn, b):
        c_ = self.cyc.get(fn.d)
        if c_ is None:
            c_ = self.cyc[fn.d] = {}
        if b not in c_:
            seen, work = set(), list(fn.succs(b))
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work.extend(fn.succs(x))
            c_[b] = b in seen
        return c_[b]

    def seg(self, st, end, vals=None, val=None):
        s = Seg()
        s.start, s.end, s.facts, s.events, s.vals, s.st, s.val = st.visits.get("cut"), end, dict(st.facts), st.events, vals or {}, st, val
        self.segs.append(s)
        return s

    def inside(self, fn, u):
        """the blocks of the loop headed by u"""
        r = self.cyc.get((fn.d, "body", u))
        if r is None:
            def flood(start, avoid, nexts):
                seen, work = set(start), list(start)
                while work:
                    for y in nexts(work.pop()):
                        if y not in seen and y != avoid:
                            seen.add(y)
                            work.append(y)
                return seen
            free = set() if u == 0 else flood([0], u, fn.succs)      # what is reached without passing the header
            below = flood([x for x in fn.succs(u) if x != u], u, fn.succs)
            preds = {}
            for x in below:
                for y in fn.succs(x):
                    preds.setdefault(y, []).append(x)
            r = self.cyc[(fn.d, "body", u)] = flood([x for x in preds.get(u, ()) if x not in free], u, lambda x: preds.get(x, ())) - {u}
        return r

    def rounds(self, fn, fr, b, st):
        """which rounds of the loops that are followed element by element this place belongs to"""
        chain, f, x = [], fr, b
        while True:
            chain.append((f, x[1] if isinstance(x, tuple) and x[0] == "it" else x))
            if not (isinstance(f, tuple) and len(f) >= 2):
                break
            f, x = f[0], f[1]
        out = []
        for (uf, ub), ufn in self.unroll.items():
            u = ub[1] if isinstance(ub, tuple) and ub[0] == "it" else ub
            if (uf, ub) != (fr, b) and any(f == uf and isinstance(x, int) and x in self.inside(ufn, u) for f, x in chain):
                out.append(st.visits.get((uf, ub), (0, None))[0])
        return tuple(out)

    def widen(self, fn, fr, b, st):
        if self.unroll:
            r = self.rounds(fn, fr, b, st)
            if r:
                b = ("round", b) + r
        key = (fr, b)
        if key in self.unroll:
            # a loop over a sequence of known length is followed element by element
            k = st.visits.get(key, (0, None))[0]
            if k > 24:
                raise A.Limit("loop too long to follow")
            st.visits[key] = (k + 1, None)
            return True
        if key in st.visits:
            mem, roots, _ = self.hdr[key]
            for loc, v in st.mem.items():
                o = mem.get(loc)
                if v[0] == "citer" and o is not None and o[0] == "citer" and len(v[1]) < len(o[1]):
                    self.unroll[key] = fn
                    raise Restart
            ch = self.changed.setdefault(key, set())
            o = A.State()
            o.mem = mem
            for loc, v in list(st.mem.items()):
                if mem.get(loc) == v or loc in ch:
                    continue
                if loc[0][0] == "L" and loc[0] not in roots:
                    continue
                if loc not in mem and loc[0][0] == "O" and A.gen_in(loc[0][1]) or loc[0][0] == "O" and loc[0][1][0] == "slot":
                    continue        # part of the element of this iteration
                if any((loc[0], loc[1][:i]) in ch for i in range(len(loc[1]))):
                    continue
                if loc not in mem and self.read(o, *loc) == v:
                    continue
                ch.add(loc)
                raise Restart
            vals = {}
            for loc in ch:
                vals[("loop", fn.d, b, A.locname(loc))] = self.term(self.read(st, *loc), st)
            self.back.setdefault((fn.d, b), []).append((dict(st.facts), vals))
            self.seg(st, ("back", key), vals)
            return False
        self.seg(st, ("enter", key), {("loop", fn.d, b, A.locname(loc)): self.term(self.read(st, *loc), st) for loc in self.changed.get(key, ())})
        for loc in self.changed.get(key, ()):
            w = ("loop", fn.d, b, A.locname(loc))
            self.entry.setdefault(w, []).append(self.read(st, *loc))
            for k in [k for k in st.mem if k[0] == loc[0] and k[1][:len(loc[1])] == loc[1]]:
                del st.mem[k]
            st.mem[loc] = w
        for loc in self.gone.get(key, ()):
            st.mem.pop(loc, None)
        al = self.allow.get(key)
        if al is not None:
            st.facts = {k: v for k, v in st.facts.items() if (k, v) in al}
        if key in self.hdr:
            for loc in [k for k in st.mem if k[0][0] == "O" and k[0][1][0] == "slot"]:
                del st.mem[loc]
            mem, roots, facts = self.hdr[key]
            dirty = False
            ch = self.changed.setdefault(key, set())
            for loc in set(mem) | set(st.mem):
                a, c_ = mem.get(loc), st.mem.get(loc)
                if a == c_:
                    continue
                if (a is None or c_ is None) and loc[0][0] in ("L", "H"):
                    self.gone.setdefault(key, set()).add(loc)
                else:
                    ch.add(loc)
                dirty = True
            if facts != st.facts:
                self.allow[key] = set(facts.items()) & set(st.facts.items())
                dirty = True
            if dirty:
                raise Restart
            return False
        for loc in [k for k in st.mem if k[0][0] == "O" and k[0][1][0] == "slot"]:
            del st.mem[loc]
        self.hdr[key] = (dict(st.mem), frozenset(k[0] for k in st.mem), dict(st.facts))
        st.visits[key] = (1, None)
        st.visits["cut"] = key
        st.events = ()
        return True


def push_loop(I, fn, fr, b, t, st, it, root, proj, stack, keep=None, done=None):
    """every element of an iterator (that satisfies keep) is appended to a vector, as a loop"""
    hb = ("it", b)
    tg = ("local",) + tuple(A.locname((root, proj))) if root[0] != "O" or proj else root[1]
    work = [st]
    while work:
        s = work.pop()
        if not I.widen(fn, fr, hb, s):
            continue
        s1 = s.copy()
        s1.ev(("exhausted", A.srcs(it)))
        yield from done(s1)
        for kind, e, s2 in I.pull(fn, fr, b, t, s.copy(), it, stack):
            if kind == "panic":
                yield e
                continue
            outs = [(True, s2)] if kind == "item" else [(False, s2)]
            if kind == "item" and keep is not None:
                er = ("H", ("flt", fr, b))
                s2.mem[(er, ())] = e
                outs = []
                for o in I.apply(fn, fr, b, t, s2, keep, [("ref", er, ())], stack):
                    if o.kind == "panic":
                        yield o
                    else:
                        outs += I.cond(o.val, o.st)
            for k, s3 in outs:
                if k:
                    v = I.term(I.read(s3, root, proj), s3)
                    x = I.term(e, s3)
                    I.event(s3, "push", tg, x)
                    I.write(s3, root, proj, lst(*(items_of(v) + (one(x),))))
                work.append(s3)


def m_retain(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    I.write(st, root, proj, lists.EMPTY)
    return push_loop(I, fn, fr, b, t, st, ("iter", v), root, proj, stack, args[1], lambda s: iter([Out("ret", UNIT, s)]))


def m_extend(I, fn, fr, b, t, st, args, stack):
    ty = I.prog.operand_ty(fn, t["args"][1])
    if ty["k"] == "adt" and ty["d"].split("::")[-1] == "Option":
        def opt():
            root, proj = I.deref(st, args[0])
            for v, s in I.split_variant(args[1], st):
                if v == 1:
                    x = I.term(I.payload(args[1], "Some"), s)
                    I.event(s, "push", target(I, s, args[0]), x)
                    I.write(s, root, proj, lst(*(items_of(I.term(I.read(s, root, proj), s)) + (one(x),))))
                yield Out("ret", UNIT, s)
        return opt()
    r = lists.m_extend(I, fn, fr, b, t, st.copy(), args, stack)
    if r is not NotImplemented:
        return r
    it = I.as_iter(args[1], st)
    if it[0] not in ("lmap", "lfilter", "lflat", "enum", "zip", "iter", "skip", "take", "rev"):
        return NotImplemented
    root, proj = I.deref(st, args[0])
    return push_loop(I, fn, fr, b, t, st, it, root, proj, stack, None, lambda s: iter([Out("ret", UNIT, s)]))


def segments(prog, fn, I, args=None, st=None, cn=None, pre=()):
    cn = cn or sym.Canon()
    args = args if args is not None else sym.argsyms(fn)
    I.pre, I.cn = tuple(pre), cn
    for _ in range(400):
        I.paths = 0
        I.reset()
        try:
            for o in I.run(fn, list(args), st.copy() if st else None):
                if o.kind == "ret":
                    I.seg(o.st, ("ret",), {}, I.term(o.val, o.st))
                else:
                    ev = [e for e in o.st.events if e[0] == "panic"]
                    I.seg(o.st, ("panic", ev[-1][1] if ev else "?"))
            break
        except Restart:
            continue
    else:
        raise A.Limit("no stable loop states in " + fn.d)
    for s in I.segs:
        s.ctx = sym.Ctx(cn)
        s.ctx.add_facts(s.st) if False else None
        x = A.State()
        x.facts = s.facts
        s.ctx.add_facts(x)
        s.events = tuple((e[0],) + tuple(cn(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in e[1:]) for e in s.events)
        s.vals = {w: cn(x) for w, x in s.vals.items()}
    return I.segs


# ------------------------------------------------------------------------------------- models with events
def m_sort(I, fn, fr, b, t, st, args, stack):
    """sorting: the ordering is recorded as a term over two generic elements"""
    a, bb = ("sym", "@a"), ("sym", "@b")
    tg = target(I, st, args[0])
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    outs = []
    if len(args) > 1:
        s0 = st.copy()
        s0.facts = {}
        def keyed():
            for o in I.apply(fn, fr, b, t, s0, args[1], [a], stack):
                for o2 in (I.apply(fn, fr, b, t, o.st, args[1], [bb], stack) if o.kind == "ret" else ()):
                    if o2.kind == "ret":
                        for k, s in sym.cmp_terms(I, o.val, o2.val, o2.st):
                            yield Out("ret", sym.ordv(k), s)
        key = (t["c"].get("r") or t["c"]["d"]).endswith("_key")
        for o in (keyed() if key else I.apply(fn, fr, b, t, s0, args[1], [a, bb], stack)):
            if o.kind == "ret":
                outs.append((tuple(sorted(o.st.facts.items(), key=repr)), I.term(o.val, o.st)))
    order = ("call", "ordering", tuple(("call", "case", (("facts", f), x)) for f, x in sorted(outs, key=repr)))
    if len(outs) == 1 and not outs[0][0]:
        order = outs[0][1]
    I.event(st, "sort", tg, v, order)
    I.write(st, root, proj, ("call", "sorted", (v, order)))
    return iter([Out("ret", UNIT, st)])


SORTS = {"slice::sort_unstable_by": m_sort, "slice::sort_by": m_sort, "slice::sort_unstable_by_key": m_sort, "slice::sort_by_key": m_sort, "slice::sort_unstable": m_sort, "slice::sort": m_sort}


# ------------------------------------------------------------------------------------- segment tables
def unify(p, t, asg):
    """structural matching of pattern p (with ("sym", "?x") holes) against term t"""
    if isinstance(p, tuple) and len(p) == 2 and p[0] == "sym" and isinstance(p[1], str) and p[1][:1] == "?" and len(p[1]) > 1:
        k = p[1][1:]
        if k in asg:
            return asg[k] == t
        asg[k] = t
        return True
    if not isinstance(p, tuple) or not isinstance(t, tuple):
        return p == t
    if len(p) != len(t):
        return False
    return all(unify(x, y, asg) for x, y in zip(p, t))


def m_clear(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    I.event(st, "clear", target(I, st, args[0]))
    I.write(st, root, proj, lists.EMPTY)
    return iter([Out("ret", UNIT, st)])


def m_slot(I, fn, fr, b, t, st, args, stack):
    """v[i] as a place: the write that follows is recorded as an event"""
    ty = I.prog.tstr(fn.crate, I.prog.operand_ty(fn, t["args"][1]).get("id", -1)) if False else None
    if args[1][0] == "agg" or args[1][0] == "range":
        return NotImplemented
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    if v[0] in ("agg",) or lists.known(v):
        return NotImplemented
    i = I.term(args[1], st)
    tg = target(I, st, args[0])
    if root[0] == "O":
        st.mem[(root, proj)] = ("call", "edited", (v, i))
    else:
        I.write(st, root, proj, ("call", "edited", (v, i)))
    slot = ("O", ("slot", tg, i))
    if not t["dst"][1] and I.prog.tstr(fn.crate, fn.locals[t["dst"][0]][0]).split()[-1] in ("bool", "usize") and (slot, ()) not in st.mem and not any(x[0] == "call" and x[1] == "edited" for x in sym.subterms(v) if isinstance(x, tuple) and x):
        st.mem[(slot, ())] = ("index", v, i)        # what is read there before anything is written
    return iter([Out("ret", ("ref", slot, ()), st)])


def m_visit(I, fn, fr, b, t, st, args, stack):
    """a spatial query: the visitor is called with an unknown element of the result, in unknown order, until it breaks"""
    it = ("iter", ("call", "query", tuple(I.term(a, st) for a in args[:5])))

    def stop(e, o):
        v = o.val
        if v == UNIT or v is None:
            return iter([(None, o.st)])
        if v[0] == "agg" and v[4] in ("Continue", "Break"):
            return iter([(("c", 0) if v[4] == "Break" else None, o.st)])
        return iter([(None if vn == 0 else ("c", 0), s) for vn, s in I.split_variant(v, o.st)])

    def g():
        for kind, v, s in sym.iterate(I, fn, fr, b, t, st, it, args[5], stack, stop=stop):
            yield v if kind == "panic" else Out("ret", UNIT, s)
    return g()


def m_query(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", ("call", "query", tuple(I.term(a, st) for a in args[:5])), st)])


QUERY = {"visit_query_with_stack": m_visit, "visit_query": m_visit, "query": m_query, "query_with_stack": m_query}
VECS = {"vec::clear": m_clear, "Vec::clear": m_clear, "vec::index_mut": m_slot, "Vec::index_mut": m_slot, "slice::index_mut": m_slot}
KINDS = ("push", "mut", "sort", "write", "insert")


def show_event(e):
    return "%s(%s)" % (e[0], ", ".join(sym.showt(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e[1:]))


class SegTable:
    """Rules over the segments of one function."""
    def __init__(self, rep, prog, fn, I, env, key=None, pre=(), args=None, kinds=KINDS, st=None, ignore=()):
        self.rep, self.prog, self.fn, self.env, self.key = rep, prog, fn, env, key or fn.short
        self.cn = sym.Canon()
        self.cn.ranges = True
        self.kinds = kinds
        self.I = I
        self.ignore = ignore
        rep.fn(fn)
        self.ok = True
        try:
            pres = env.dnf(pre) if pre else [[]]
            self.segs = segments(prog, fn, I, args=args, st=st, cn=self.cn, pre=pres[0])
        except (A.Limit, sym.P.Blowup) as e:
            rep.fail(self.key + ":limit", "%s: not analysable (%s)" % (fn.d, e))
            self.ok = False
            self.segs = []
        for s in self.segs:
            for t, v in (pres[0] if self.ok else ()):
                s.ctx.add_lit(t, v)
        for s in self.segs:
            ivs = set()
            for e in list(s.facts) + [x for e in s.events for x in e[1:]] + list(s.vals.values()):
                ivs |= {g for g in A.gen_in(e) if g[0] == "idxin"} if isinstance(e, tuple) else set()
            for g in ivs:
                lo, hi, iv = self.cn.poly(g[1]), self.cn.poly(g[2]), sym.P.atom(self.cn(g))
                s.ctx.cons.append((sym.P.sub(iv, lo), "ge"))
                s.ctx.cons.append((sym.P.add(sym.P.sub(hi, iv), sym.P.const(-1)), "ge"))
        self.segs = [s for s in self.segs if not (s.end[0] == "panic" and s.end[1].startswith("assert overflow")) and s.ctx.feasible()]
        self.names = {}
        for s in self.segs:
            for h in (s.start, s.end[1] if s.end[0] in ("back", "enter") else None):
                if h is not None:
                    self.names.setdefault(h, "loop %d" % (len(self.names) + 1))
        self.used = set()
        rep.count("segments", len(self.segs))
        self.where = "%s (%s:%s)" % (fn.d, fn.file, fn.line)

    def events(self, s):
        last = {}
        for i, e in enumerate(s.events):
            if e[0] == "write":
                last[e[1:3]] = i
        return [e for i, e in enumerate(s.events) if e[0] != "write" or last[e[1:3]] == i]

    def idle(self, s, e):
        """writing the flag that is there already"""
        if e[0] != "write" or e[1][0] != "slot" or e[3] not in (A.c(True), A.c(1)) or e[2] not in ((), "()"):
            return False
        x = self.cn(("index", self.now(s.start, e[1][1]), e[1][2])) if s.start is not None else None
        return x is not None and any(k[0] == "b" and v is True and self.cn(k[1]) == x for k, v in s.facts.items())

    def kept(self, s):
        return [e for e in self.events(s) if e[0] in self.kinds and not self.idle(s, e) and not any(e[0] == "mut" and e[2].endswith(x) for x in self.ignore)
                and not (e[0] == "insert" and s.ctx.lits.get(self.cn(("call", "has", (e[3], e[2])))) is True)]

    def pat(self, e, env=None):
        env = env or self.env
        return (e[0],) + tuple(x[1:] if x[0] == ":" else tuple(("f", k) for k in x[1:].split(".") if k) if x[0] == "." else self.cn(env.term(x)) if x != "*" else x for x in e[1:])

    def headers(self, select):
        """cut points from which an event matching the pattern is reached without passing another one -> bindings"""
        e2 = sym.Env(dict(self.env.names))
        e2.FLOATS = self.env.FLOATS
        import re
        for v in set(re.findall(r"_([a-z]\w*)", " ".join(select[1:]))):
            e2.names["_" + v] = ("sym", "?" + v)
        p = self.pat(select, e2)
        out = {}
        for s in self.segs:
            for e in s.events:
                if e[0] != p[0] or len(e) < len(p):
                    continue
                asg = {}
                if all(x == "*" or unify(x, y, asg) for x, y in zip(p[1:], e[1:])):
                    b = out.setdefault(s.start, [])
                    if asg not in b:
                        b.append(asg)
        return out

    def bind(self, name, select, where=None):
        """names the constructs that take part in an event (the first that matches)"""
        if not self.ok:
            return False
        for h, bs in self.headers(select).items():
            for a in bs:
                if where is None or where(a):
                    self.env.names.update(a)
                    return True
        self.rep.fail("%s:%s:missing" % (self.key, name), "%s: no code does %s(%s) [%s]" % (self.where, select[0], ", ".join(select[1:]), name))
        return False

    def table(self, name, select, cases, vars=(), entry=(), part="iter", cover=True, index=None, where=None, export=()):
        """every segment that starts where an event matching `select` is reached agrees with the cases
        [(condition, [event ...], {variable: next value})]"""
        if not self.ok:
            return
        key = "%s:%s" % (self.key, name)
        hs = self.headers(select) if isinstance(select, tuple) else {h: [{}] for h in select}
        if not isinstance(select, tuple):
            select = ("loop", "?")
        if not hs:
            self.rep.fail(key + ":missing", "%s: no code does %s(%s) [%s]" % (self.where, select[0], ", ".join(select[1:]), name))
            return
        covered = set()
        used = 0
        for h, bs in hs.items():
            best = None
            bs = [a for a in bs if where is None or where(a)]
            if not bs:
                continue
            used += 1
            for asg in bs:
                for k in export:
                    self.env.names[k] = asg[k]
                r = self.try_header(h, asg, cases, entry, part, index)
                if best is None or len(r[0]) < len(best[0]):
                    best = r
                if not r[0]:
                    break
            self.used.add(h)
            bad, hit, n = best
            self.rep.ob(n)
            covered |= hit
            for c_, msg in bad[:4]:
                self.rep.fail("%s:%s" % (key, sym.short(c_)), "%s, %s: %s" % (self.where, name, msg))
        if not used:
            self.rep.fail(key + ":missing", "%s: no code does %s(%s) [%s]" % (self.where, select[0], ", ".join(select[1:]), name))
            return
        if cover:
            for cond, evs, _ in [tuple(x) + ({},) * (3 - len(x)) for x in cases if x[1] != "any"]:
                self.rep.check(cond in covered, "%s:%s:never" % (key, sym.short(cond)), "%s, %s: no code path for the case %s (which must do %s)" % (self.where, name, cond or "always", evs))

    def try_header(self, h, asg, cases, entry, part, index=None):
        env = sym.Env({**self.env.names, **asg})
        env.FLOATS = self.env.FLOATS
        if hasattr(self.env, "floatsyms"):
            env.floatsyms = self.env.floatsyms
        env.names["now"] = lambda tg: self.now(h, tg)
        env.names["answer"] = lambda n: ("call", "answer", (A.c(hash_key(h)), n))
        bad, hit, n = [], set(), 0
        index = {v: x for v, x in (index or {}).items() if v in env.names}
        trie = sym.build_trie([(x[0], x) for x in cases], env, self.cn)
        for s in self.segs:
            if s.start != h:
                continue
            counted = index and all(self.counter(env.names[v])[0][0] == "loop" for v in index)
            if part != "all" and not counted and any(e[0] == "exhausted" for e in s.events) != (part == "after"):
                continue
            ctx0 = s.ctx
            if index:
                # the loop counts index from .. to (a range, or a variable advanced by one on every way around)
                for v, (_, hi) in index.items():
                    base, _k = self.counter(env.names[v])
                    if base[0] == "loop":
                        x = s.ctx.copy()
                        x.add_lit(self.cn(("lt", env.names[v], env.term(hi))), part != "after")
                        if not x.feasible():
                            ctx0 = None
                            break
                    if part != "after" and s.end == ("back", h) and base[0] == "loop":
                        g = s.vals.get(base, base)
                        n += 1
                        if not s.ctx.equal(g, self.cn(("bin", "Add", base, A.c(1)))):
                            bad.append(("index " + v, "the loop must go from one index to the next, but on the path [%s] %s becomes %s" % (short_facts(s, self.cn), v, sym.showt(g))))
                if ctx0 is None:
                    continue
            got = self.kept(s)
            found = [0]

            def leaf(ctx, cond, case):
                nonlocal n
                found[0] += 1
                n += 1
                hit.add(cond)
                evs = case[1]
                if evs == "any":
                    return
                if s.end[0] == "panic" and (s.end[1].startswith("assert ") or len(case) > 2 and "panic" in case[2]):
                    return
                if s.end[0] == "panic":
                    bad.append((cond, "when %s the code can panic (%s) on the path [%s]" % (cond or "always", s.end[1], sym.showfacts(s.st, self.cn))))
                    return
                want = [self.pat(e, env) for e in evs]
                d = self.diff(ctx, want, got)
                if d:
                    bad.append((cond, "when %s it must do %s, but on the path [%s] %s" % (cond or "always", [show_event(w) for w in want], short_facts(s, self.cn), d)))
                    return
                for v, nx in (case[2] if len(case) > 2 else {}).items():
                    if v.startswith("return"):
                        if v[6:7] == "s" and s.end[0] != "ret":
                            continue        # "returns": if anything
                        g = s.val if s.val is not None else ("none",)
                        if "." in v:
                            g = A.field(g, v.split(".")[1]) if hasattr(A, "field") else ("fld", g, v.split(".")[1])
                        g = self.cn(g)
                        if s.end[0] != "ret":
                            bad.append((cond, "when %s it must return %s, but on the path [%s] it goes on" % (cond or "always", nx, short_facts(s, self.cn))))
                            continue
                    elif v == "panic":
                        continue
                    elif v == "goes":
                        if s.end[0] != nx:
                            bad.append((cond, "when %s the surrounding loop must go on, but on the path [%s] it does %s" % (cond or "always", short_facts(s, self.cn), s.end[0])))
                        continue
                    elif v == "leave":
                        if s.end == ("back", h):
                            bad.append((cond, "when %s the loop must end, but on the path [%s] it goes on" % (cond or "always", short_facts(s, self.cn))))
                        continue
                    elif v == "end":
                        if s.end != (nx, h):
                            bad.append((cond, "when %s the loop must %s, but on the path [%s] it does %s" % (cond or "always", nx, short_facts(s, self.cn), s.end[0])))
                        continue
                    else:
                        var = env.names[v]
                        if s.end[0] != "back" or s.end[1] != h and not (var[0] == "loop" and var[2] == s.end[1][1]):
                            continue
                        g = s.vals.get(var, var)
                    w = self.cn(env.term(nx))
                    if not ctx.equal(g, w) and not ctx.equal(ctx.simp(g), ctx.simp(w)):
                        bad.append((cond, "when %s the next value of %s must be %s, but on the path [%s] it is %s" % (cond or "always", v, nx, short_facts(s, self.cn), sym.showt(g))))
            sym.walk_trie(trie, ctx0, leaf)
            if not found[0]:
                bad.append(("uncovered", "path [%s] (doing %s) matches no specified case" % (short_facts(s, self.cn), [show_event(e) for e in got])))
        entry = dict(entry) if isinstance(entry, dict) else {}
        for v, (lo, hi) in (index or {}).items() if part != "after" else ():
            iv = env.names[v]
            base, k = self.counter(iv)
            if base[0] == "loop":
                env.names[v + "_counter"] = base
                env.names[v + "_shift"] = k
                entry[v + "_counter"] = "%s - %s_shift" % (lo, v) if k != A.c(0) else lo
                c2 = [s.ctx.copy() for s in self.segs if s.start == h and s.end == ("back", h)]
                for x in c2:
                    x.add_lit(self.cn(("lt", iv, env.term(hi))), False)
                    if x.feasible():
                        bad.append(("index " + v, "%s can run past %s" % (v, hi)))
            elif base[0] not in ("idxin", "iv") or len(base) < 3 or any(sym.P.add(self.cn.poly(base[j]), self.cn.poly(k)) != self.cn.poly(self.cn(env.term(b_))) for j, b_ in ((1, lo), (2, hi))):
                bad.append(("index " + v, "the loop must run over %s..%s, but runs over %s" % (lo, hi, sym.showt(iv))))
        for v, init in entry.items():
            n += self.starts(env, v, init, bad, h)
        return bad, hit, n

    def counter(self, iv):
        """index = counter (loop variable or element of a range) + constant"""
        if iv[0] in ("loop", "idxin", "iv"):
            return iv, A.c(0)
        p = self.cn.poly(iv)
        for g in [x for x in sym.subterms(iv) if isinstance(x, tuple) and x and x[0] in ("loop", "idxin", "iv")]:
            d = sym.P.sub(p, sym.P.atom(self.cn(g)))
            if not any(d.keys() - {()}) if isinstance(d, dict) else False:
                return g, A.c(int(d.get((), 0)))
        return iv, A.c(0)

    def starts(self, env, v, init, bad, h=None):
        n = 0
        var = env.names[v]
        for s in self.segs:
            if s.end[0] != "enter" or (s.end[1] != h if h is not None else not (var in s.vals or var[0] == "loop" and var[2] == s.end[1][1])):
                continue
            g = s.vals.get(var)
            ws = []
            for cond, x in ([("", init)] if isinstance(init, str) else init):
                sym.walk_trie(sym.build_trie([(cond, x)], env, self.cn), s.ctx, lambda ctx, _, x: ws.append((ctx, self.cn(env.term(x)))))
            n += 1
            if g is None or not ws or any(not ctx.equal(g, w) and not ctx.equal(ctx.simp(g), ctx.simp(w)) for ctx, w in ws):
                bad.append(("entry " + v, "%s must start as %s, but is %s on the path [%s]" % (v, init, sym.showt(g) if g else "not set", short_facts(s, self.cn))))
        return n

    def start(self, name, **kw):
        """content of a target (see `now`) when the first loop that changes it is entered from outside"""
        if not self.ok:
            return
        for v, init in kw.items():
            tg, w = self.env.names[v], self.cn(self.env.term(init))
            n = 0
            for s in self.segs:
                if s.end[0] != "enter":
                    continue
                x = self.value(s.vals, tg)
                if x is None or any(y[0] == "loop" for y in sym.subterms(x) if isinstance(y, tuple) and y):
                    continue
                n += 1
                self.rep.check(x == w, "%s:%s:%s" % (self.key, name, v), "%s, %s: %s must start as %s, but is %s on the path [%s]" % (self.where, name, v, init, sym.showt(x), short_facts(s, self.cn)))
            self.rep.check(n > 0, "%s:%s:%s:none" % (self.key, name, v), "%s, %s: %s has no initial content" % (self.where, name, v))

    def value(self, vals, tg):
        for w, x in vals.items():
            n = ("local",) + tuple(w[3])
            if n == tg[:len(n)]:
                for e in tg[len(n):]:
                    x = self.I.project(x, e)
                return self.cn(x)
        return None

    def carrier(self, name, val):
        """names the variable of a loop that becomes `val` on some way around (at its header) -> found?"""
        import re
        for s in self.segs:
            if s.end[0] != "back":
                continue
            env = sym.Env(dict(self.env.names))
            env.FLOATS = self.env.FLOATS
            env.names["answer"] = lambda n: ("call", "answer", (A.c(hash_key(s.start)), n))
            for v in set(re.findall(r"\b_([a-z]\w*)", val)):
                env.names["_" + v] = ("sym", "?" + v)
            v = self.cn(env.term(val))
            for w, x in s.vals.items():
                asg = {}
                if unify(v, x, asg):
                    self.env.names[name] = w
                    self.env.names.update(asg)
                    return True
        self.rep.fail("%s:%s:missing" % (self.key, name), "%s: nothing is set to %s [%s]" % (self.where, val, name))
        return False

    def entered(self, name, val):
        """names the variable of a loop that starts as `val` on some way into it -> found?"""
        if not self.ok:
            return False
        v = self.cn(self.env.term(val))
        for s in self.segs:
            if s.end[0] != "enter":
                continue
            for w, x in s.vals.items():
                if x == v:
                    self.env.names[name] = w
                    return True
        self.rep.fail("%s:%s:missing" % (self.key, name), "%s: nothing starts as %s [%s]" % (self.where, val, name))
        return False

    def base(self, tgt, edits):
        """the contents a target has before any of the named edits, wherever a loop is entered or a value returned"""
        out = set()
        for s in self.segs:
            if s.end[0] in ("enter", "back"):
                x = self.value(s.vals, tgt)
                while x is not None and x[0] == "call" and x[1] in edits:
                    x = x[2][0]
                if x is not None and x[0] != "loop":
                    out.add(x)
        return out

    def outer(self, w):
        """the same variable at the other cut points of the function"""
        return [x for x in {x for s in self.segs for x in s.vals} if x != w and x[3] == w[3]]

    def ends(self, name, block, cases):
        """what is returned once the loop at this block is exhausted"""
        hs = [s.start for s in self.segs if s.start is not None and s.start[1] == block]
        self.table(name, list(dict.fromkeys(hs)), [(c_, [], {"return": v}) for c_, v in cases], part="after")

    def entry(self, name, **kw):
        """initial values of loop variables (of the loop each belongs to)"""
        if not self.ok:
            return
        bad = []
        for v, init in kw.items():
            n = self.starts(self.env, v, init, bad)
            self.rep.ob(n)
            if not n:
                bad.append(("entry " + v, "no loop carries %s" % v))
        for c_, msg in bad[:4]:
            self.rep.fail("%s:%s:%s" % (self.key, name, c_), "%s, %s: %s" % (self.where, name, msg))

    def now(self, h, tg):
        """the value a target has at cut point h"""
        mem = self.I.hdr[h][0]
        best = None
        for loc, v in mem.items():
            if tg[0] == "local" and loc[0][0] in ("L", "H"):
                n = ("local",) + tuple(A.locname(loc))
                if n == tg[:len(n)] and (best is None or len(n) > best[0]):
                    for e in tg[len(n):]:
                        v = self.I.project(v, e)
                    best = len(n), v
            if loc[0] == ("O", tg) and not loc[1]:
                return v
        if best is not None:
            return best[1]
        return ("call", "content", (tg,)) if tg[0] == "local" else tg

    def diff(self, ctx, want, got):
        def same(w, g):
            if w[0] != g[0] or len(g) < len(w):
                return False
            for x, y in zip(w[1:], g[1:]):
                if x == "*":
                    continue
                if isinstance(x, str) or isinstance(y, str):
                    if x != y and not (isinstance(x, str) and isinstance(y, str) and y.endswith(x)):
                        return False
                elif x and isinstance(x[0], tuple):
                    if x != y:
                        return False
                elif x[0] == y[0] == "call" and x[1] == y[1] == "args" and len(x[2]) == len(y[2]):
                    if not all(p == q or ctx.equal(p, q) or ctx.equal(ctx.simp(p), ctx.simp(q)) for p, q in zip(x[2], y[2])):
                        return False
                elif x != y and not ctx.equal(x, y) and not ctx.equal(ctx.simp(x), ctx.simp(y)):
                    return False
            return True
        # events on one target keep their order (what is filed under different keys of a map is independent)
        tg = lambda e: (repr(e[1]), repr(e[2][2][0]) if e[0] == "push" and len(e) > 2 and e[2][:2] == ("call", "at") and len(e[2][2]) == 2 else "")
        left = list(got)
        for w in want:
            for i, g in enumerate(left):
                if same(w, g) and not any(tg(x) == tg(g) for x in left[:i]):
                    del left[i]
                    break
            else:
                return "it does %s" % ([show_event(g) for g in got] or "nothing")
        if left:
            return "it also does %s" % [show_event(g) for g in left]
        return None

    def ordering(self, name, cases, tgt=None):
        """every sort (of this target) orders two elements qa, qb as the cases say"""
        if not self.ok:
            return
        seen = set()
        env = sym.Env({"qa": ("sym", "@a"), "qb": ("sym", "@b"), **self.env.names, **{k: sym.ordv(v) for k, v in (("Less", -1), ("Equal", 0), ("Greater", 1))}})
        env.FLOATS = self.env.FLOATS
        trie = sym.build_trie([(x[0], x) for x in cases], env, self.cn)
        for s in self.segs:
            for e in s.events:
                if e[0] != "sort" or tgt is not None and e[1] != self.cn(self.env.term(tgt)) or e in seen:
                    continue
                seen.add(e)
                o = e[3]
                rows = [(x[2][0][1], x[2][1]) for x in o[2]] if o[0] == "call" and o[1] == "ordering" else [((), o)]
                for facts, val in rows:
                    ctx = sym.Ctx(self.cn)
                    st = A.State()
                    st.facts = dict(facts)
                    ctx.add_facts(st)
                    found = [0]

                    def leaf(ctx, cond, case):
                        found[0] += 1
                        self.rep.ob()
                        w, g = self.cn(env.term(case[1])), self.cn(val)
                        if not ctx.equal(g, w) and not ctx.equal(ctx.simp(g), ctx.simp(w)):
                            self.rep.fail("%s:%s:%s" % (self.key, name, sym.short(cond)), "%s, %s: when %s the order of two elements must be %s but it is %s" % (self.where, name, cond or "always", case[1], sym.showt(g)))
                    sym.walk_trie(trie, ctx, leaf)
                    self.rep.check(found[0] > 0, "%s:%s:uncovered" % (self.key, name), "%s, %s: the comparison [%s] matches no specified case" % (self.where, name, sym.showfacts(st, self.cn)))
        self.rep.check(bool(seen), "%s:%s:missing" % (self.key, name), "%s: nothing is sorted [%s]" % (self.where, name))

    def only(self, kind, tgt, name):
        """events of this kind on this target occur only where a table covers them"""
        t = self.cn(self.env.term(tgt))
        for s in self.segs:
            for e in s.events:
                if e[0] == kind and e[1] == t and s.start not in self.used:
                    self.rep.fail("%s:%s:elsewhere" % (self.key, name), "%s: %s happens outside the specified places on the path [%s]" % (self.where, show_event(e), short_facts(s, self.cn)))
        self.rep.ob()


def short_facts(s, cn):
    x = A.State()
    x.facts = s.facts
    return sym.showfacts(x, cn)[-900:]


# ------------------------------------------------------------------------------------- specifications as programs
def flat(steps, conds=(), evs=(), st=None):
    """a small decision program -> exclusive cases.  A step is an event tuple, ("if", cond, steps, steps), a function from
    the dict of counters to steps, or a dict (terminal: next values)"""
    st = dict(st or {})
    steps = list(steps)
    while steps:
        s = steps.pop(0)
        if callable(s):
            steps = list(s(st)) + steps
        elif s == "any":
            return [(" and ".join("(%s)" % x for x in conds), "any")]
        elif isinstance(s, dict):
            return [(" and ".join("(%s)" % x for x in conds), list(evs), s)]
        elif s[0] == "if":
            return (flat(list(s[2]) + steps, conds + (s[1],), evs, st)
                    + flat(list(s[3] if len(s) > 3 else ()) + steps, conds + ("not (%s)" % s[1],), evs, st))
        else:
            evs = tuple(evs) + (s,)
    return [(" and ".join("(%s)" % x for x in conds), list(evs), {})]


def match(x, arms):
    """("match" on an enum term): arms {condition: steps}; conditions must be exclusive and exhaustive"""
    arms = list(arms.items())

    def go(i):
        if i == len(arms) - 1:
            return list(arms[i][1])
        return [("if", arms[i][0], arms[i][1], go(i + 1))]
    return go(0)


def m_answer(name, at=0):
    """a caller supplied callback: the n-th answer since the last cut point"""
    def h(I, fn, fr, b, t, st, args, stack):
        n = sum(1 for e in st.events if e[0] == "mut" and (e[2] in CALLBACKS or e[2] == name))
        tg = target(I, st, args[at])
        I.event(st, "mut", tg, name, ("call", "args", tuple(I.term(a, st) for i, a in enumerate(args) if i != at)))
        return iter([Out("ret", ("call", "answer", (A.c(hash_key(st.visits.get("cut"))), A.c(n))), st)])
    return h


def hash_key(h):
    return repr(h)


CALLBACKS = ("visit_basic_intr", "visit_overlapping_intr", "visit_local_self_intersects", "visit_global_self_intersects")
def m_should_break(I, fn, fr, b, t, st, args, stack):
    """contract of the control flow trait: `continuing()` does not break"""
    a = args[0]
    if a[0] == "ref":
        a = I.read(st, a[1], a[2])
    a = I.term(a, st)
    if a[0] == "call" and a[1].split("::")[-1] == "continuing":
        return iter([Out("ret", A.c(False), st)])
    return iter([Out("ret", ("call", "should_break", (a,)), st)])


VISITOR = {k: m_answer(k) for k in CALLBACKS[:2]}
VISITOR["should_break"] = m_should_break


def m_set_contains(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    s = I.term(I.read(st, root, proj), st)
    k = args[1]
    if k[0] == "ref":
        k = I.read(st, k[1], k[2])
    return iter([Out("ret", ("call", "has", (s, I.term(k, st))), st)])


def m_set_insert(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    s = I.term(I.read(st, root, proj), st)
    k = I.term(args[1], st)
    I.event(st, "insert", target(I, st, args[0]), k, s)
    I.write(st, root, proj, ("call", "with", (s, k)))
    return iter([Out("ret", ("not", ("call", "has", (s, k))), st)])


def m_set_empty(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    return iter([Out("ret", ("call", "is_empty", (I.term(I.read(st, root, proj), st),)), st)])


SETS = {}
for _p in ("hash::set::", "set::", "HashSet::", "BTreeSet::"):
    SETS.update({_p + "contains": m_set_contains, _p + "insert": m_set_insert, _p + "is_empty": m_set_empty, _p + "new": lists.m_new, _p + "with_capacity": lists.m_new})
