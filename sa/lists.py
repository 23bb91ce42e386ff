"""Sequence domain for sym.py: vectors as terms.

A vector is ("call", "list", (item, ...)), an item being ("call", "one", (x,)) for a single element or
("call", "many", (s,)) for all elements of the sequence s, in order; ("call", "each", (s, x)) is the sequence of the
values x over the generic element of s.  A vector of known length is iterated element by element."""
import absint as A
import sym
from absint import Out, some, NONE, UNIT, c, tup
from sym import Sym


def lst(*items):
    return ("call", "list", tuple(items))


def one(x):
    return ("call", "one", (x,))


def many(s):
    return ("call", "many", (s,))


EMPTY = lst()


def is_list(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "call" and v[1] == "list"


def known(v):
    return is_list(v) and all(i[1] == "one" for i in v[2])


def items_of(v):
    """v as list items"""
    if is_list(v):
        return v[2]
    if v[0] == "agg" and v[1] == "array":
        return tuple(one(x) for _, x in v[5])
    return (many(v),)


def each(s, x):
    """sequence of x over the generic element of s"""
    if x == ("elem", s):
        return s
    if is_list(s) and not A.gen_atoms(x) - {("elem", s)} and known(s):
        return lst(*[one(sym.replace(x, {("elem", s): i[2][0]})) for i in s[2]])
    if is_list(s) and len(s[2]) == 1 and s[2][0][1] == "many":
        s2 = s[2][0][2][0]
        return each(s2, sym.replace(x, {("elem", s): ("elem", s2)}))
    if isinstance(s, tuple) and s[0] == "call" and s[1] == "each":
        # composition
        return each(s[2][0], sym.replace(x, {("elem", s): s[2][1]}))
    return ("call", "each", (s, x))


def read_list(I, st, ref):
    root, proj = I.deref(st, ref) if ref[0] in ("ref", "box", "ownbox") or ref[0] != "call" else (None, None)
    v = I.read(st, root, proj)
    return root, proj, I.term(v, st)


def content(I, st, a):
    v = I.term(a, st)
    if v[0] == "now":
        v = v[1]
    return v


def m_new(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", EMPTY, st)])


def m_new_uninit(I, fn, fr, b, t, st, args, stack):
    root = ("H", (fr, b, "box"))
    for k in [k for k in st.mem if k[0] == root]:
        del st.mem[k]
    st.mem[(root, ())] = ("uninit",)
    return iter([Out("ret", ("box", root), st)])


def m_into_vec(I, fn, fr, b, t, st, args, stack):
    v = args[0]
    if v[0] == "box":
        w = I.read(st, v[1], ())
        for _ in range(6):
            if w[0] == "upd":
                w = w[3]
            elif w[0] == "agg" and w[1] == "adt" and len(w[5]) == 1:
                w = w[5][0][1]
        if w[0] == "agg" and w[1] == "array":
            return iter([Out("ret", lst(*[one(I.term(x, st)) for _, x in w[5]]), st)])
    return NotImplemented


def m_push(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    if v[0] == "now":
        v = v[1]
    I.write(st, root, proj, lst(*(items_of(v) + (one(I.term(args[1], st)),))))
    return iter([Out("ret", UNIT, st)])


def seq_of(I, fn, fr, b, t, st, it, stack):
    """[(sequence term, state)] of everything iterator it yields, for iterators without side effects"""
    it = I.as_iter(it, st)
    if it[0] == "citer":
        return [(lst(*[one(I.term(x, st)) for x in it[1]]), st)]
    if it[0] in ("lmap", "lfilter", "enum") and sym.has_lazy(it):
        base = it
        filt = False
        while base[0] in ("lmap", "lfilter"):
            filt = filt or base[0] == "lfilter"
            base = base[1]
        if base[0] == "citer":
            if filt:
                return None
            outs = []
            for x in base[1]:
                def sub(i):
                    return ("one1", x) if i == base else (i[0], sub(i[1]), i[2])
                r = list(I.pull(fn, fr, b, t, st.copy(), sub(it), stack))
                if len(r) != 1 or r[0][0] != "item":
                    return None
                outs.append(one(I.term(r[0][1], r[0][2])))
                st = r[0][2]
            return [(lst(*outs), st)]
        if filt:
            return None
        out = []
        for kind, e, s in I.pull(fn, fr, b, t, st.copy(), it, stack):
            if kind != "item":
                return None
            out.append((each(A.srcs(it), I.term(e, s)), s))
        if len(out) == 1:
            return out
        # a case distinction within the element: one conditional sequence per case is not expressible
        return None
    if it[0] == "iter":
        return [(I.term(it[1], st) if it[1][0] != "range" else it[1], st)]
    if it[0] == "rev":
        r = seq_of(I, fn, fr, b, t, st, it[1], stack)
        return r and [(("call", "reversed", (s,)), s2) for s, s2 in r]
    return None


def m_extend(I, fn, fr, b, t, st, args, stack):
    r = seq_of(I, fn, fr, b, t, st, args[1], stack)
    if r is None:
        return NotImplemented

    def g():
        for s, s2 in r:
            root, proj = I.deref(s2, args[0])
            v = I.term(I.read(s2, root, proj), s2)
            if v[0] == "now":
                v = v[1]
            I.write(s2, root, proj, lst(*(items_of(v) + items_of(s))))
            yield Out("ret", UNIT, s2)
    return g()


def m_append(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    r2, p2 = I.deref(st, args[1])
    w = I.term(I.read(st, r2, p2), st)
    I.write(st, root, proj, lst(*(items_of(v) + items_of(w))))
    I.write(st, r2, p2, EMPTY)
    return iter([Out("ret", UNIT, st)])


def m_collect(I, fn, fr, b, t, st, args, stack):
    r = seq_of(I, fn, fr, b, t, st, args[0], stack)
    if r is None:
        return NotImplemented
    return iter([Out("ret", s if is_list(s) else lst(many(s)), s2) for s, s2 in r])


def m_len(I, fn, fr, b, t, st, args, stack):
    v = content(I, st, args[0])
    return iter([Out("ret", length(v), st)])


def length(v):
    if v[0] == "call" and v[1] == "each":
        return length(v[2][0])
    if is_list(v):
        r = c(sum(1 for i in v[2] if i[1] == "one"))
        for i in v[2]:
            if i[1] == "many":
                x = length(i[2][0])
                r = x if r == c(0) else ("bin", "Add", r, x)
        return r
    return ("call", "len", (v,))


def m_is_empty(I, fn, fr, b, t, st, args, stack):
    n = length(content(I, st, args[0]))
    if n[0] == "c":
        return iter([Out("ret", c(n[1] == 0), st)])
    return iter([Out("ret", ("eq", n, c(0)), st)])


def m_first(which):
    def h(I, fn, fr, b, t, st, args, stack):
        def g():
            v = content(I, st, args[0])
            n = c(len(v[5])) if v[0] == "agg" and v[1] == "array" else length(v)
            for e, s in I.cond(("eq", n, c(0)), st) if n[0] != "c" else [(n[1] == 0, st)]:
                if e:
                    yield Out("ret", NONE, s)
                else:
                    i = c(0) if which == "first" else ("bin", "Sub", n, c(1))
                    x = I.project(v, ("i", i))
                    j = 0 if which == "first" else -1
                    if is_list(v) and v[2] and v[2][j][1] == "one":
                        x = v[2][j][2][0]
                    yield Out("ret", some(x), s)
        return g()
    return h


def m_index(I, fn, fr, b, t, st, args, stack):
    v = content(I, st, args[0])
    i = args[1]
    if known(v) and i[0] == "c" and isinstance(i[1], int):
        if i[1] < len(v[2]):
            return iter([Out("ret", v[2][i[1]][2][0], st)])
    if i[0] == "agg":
        return NotImplemented       # a range
    return iter([Out("ret", x, s) for x, s in pick(I, v, I.term(i, st), st)])


def pick(I, v, i, st):
    """the element of v at index i"""
    if not is_list(v) or len(v[2]) > 3 or not v[2]:
        yield ("index", v, i), st
        return
    h, rest = v[2][0], lst(*v[2][1:])
    n = c(1) if h[1] == "one" else length(lst(h))
    for k, s in I.cond(I.binop("Lt", i, n, False), st) if v[2][1:] else [(True, st)]:
        if k:
            yield (h[2][0] if h[1] == "one" else ("index", h[2][0], i)), s
        else:
            yield from pick(I, rest, I.binop("Sub", i, n, False), s)


def m_pop(I, fn, fr, b, t, st, args, stack):
    root, proj = I.deref(st, args[0])
    v = I.term(I.read(st, root, proj), st)
    if not is_list(v) or v[2] and v[2][-1][1] != "one":
        return NotImplemented
    if not v[2]:
        return iter([Out("ret", NONE, st)])
    I.write(st, root, proj, lst(*v[2][:-1]))
    return iter([Out("ret", some(v[2][-1][2][0]), st)])


def m_noop(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", UNIT, st)])


def m_partition(I, fn, fr, b, t, st, args, stack):
    """Iterator::partition: a loop carrying two vectors"""
    def g():
        it = I.as_iter(args[0], st)
        root = ("H", ("part", fr, b))
        st.mem[(root, ())] = tup(EMPTY, EMPTY)
        work = [st]
        while work:
            s = work.pop()
            if not I.widen(fn, fr, ("it", b), s):
                continue
            s1 = s.copy()
            s1.ev(("exhausted", A.srcs(it)))
            v = I.read(s1, root, ())
            s1.mem.pop((root, ()), None)
            yield Out("ret", v, s1)
            for kind, e, s2 in I.pull(fn, fr, b, t, s.copy(), it, stack):
                if kind == "panic":
                    yield e
                    continue
                if kind == "skip":
                    work.append(s2)
                    continue
                er = ("H", ("flt", fr, b))
                s2.mem[(er, ())] = e
                for o in I.apply(fn, fr, b, t, s2, args[1], [("ref", er, ())], stack):
                    if o.kind == "panic":
                        yield o
                        continue
                    for v_, s3 in I.cond(o.val, o.st):
                        f = (("f", "0" if v_ else "1"),)
                        old = I.read(s3, root, f)
                        I.write(s3, root, f, lst(*(items_of(old) + (one(I.term(e, s3)),))))
                        work.append(s3)
    return g()


def m_index_mut(I, fn, fr, b, t, st, args, stack):
    """&mut v[lo..hi]: a reference to a part of a vector"""
    r = args[1]
    if r[0] != "agg":
        return NotImplemented
    root, proj = I.deref(st, args[0])
    d = dict(r[5])
    return iter([Out("ret", ("mutpart", root, proj, d.get("start", c(0)), d.get("end")), st)])


def part_items(I, v, hi):
    """number of leading items of list v that make up its first hi elements"""
    cn = I.cn or sym.Canon()
    its = items_of(v)
    if hi is None:
        return len(its)
    for k in range(len(its) + 1):
        if cn(length(lst(*its[:k]))) == cn(hi):
            return k
    return None


def mut_iter(I, st, v):
    """("mutiter", root, proj, number of leading items) for &mut v, &mut v[..k] or v.iter_mut().take(k)"""
    if v[0] == "ref" and v[1][0] == "O" and v[1][1][0] == "mutpart" and v[2] == ():
        v = v[1][1]
    if v[0] == "mutpart":
        w = I.term(I.read(st, v[1], v[2]), st)
        k = part_items(I, w, v[4]) if v[3] == c(0) and is_list(w) else None
        return None if k is None else ("mutiter", v[1], v[2], k)
    if v[0] == "ref":
        w = I.term(I.read(st, v[1], v[2]), st)
        if is_list(w):
            return ("mutiter", v[1], v[2], len(w[2]))
    return None


CELL = ("elem", ("cell",))


def write_back(I, st, it, x):
    """every element of the part becomes x(element)"""
    w = I.term(I.read(st, it[1], it[2]), st)
    its = items_of(w)
    new = [many(each(i[2][0], sym.replace(x, {CELL: ("elem", i[2][0])}))) if i[1] == "many" else one(sym.replace(x, {CELL: i[2][0]})) for i in its[:it[3]]]
    I.write(st, it[1], it[2], lst(*(tuple(new) + its[it[3]:])))


def m_mut_foreach(I, fn, fr, b, t, st, it, f, stack):
    root = ("H", ("melem", fr, b))
    st.mem[(root, ())] = CELL
    outs = list(I.apply(fn, fr, b, t, st, f, [("ref", root, ())], stack))
    if len(outs) != 1 or outs[0].kind != "ret":
        raise A.Limit("conditional change of vector elements")
    s = outs[0].st
    x = I.term(I.read(s, root, ()), s)
    for k in [k for k in s.mem if k[0] == root]:
        del s.mem[k]
    write_back(I, s, it, x)
    return iter([Out("ret", UNIT, s)])


def m_mut_next(I, fn, fr, b, t, st, it, stack):
    root = ("H", ("melem", fr, b))

    def g():
        s1 = st.copy()
        if any(k[0] == root for k in s1.mem):
            x = I.term(I.read(s1, root, ()), s1)
            for k in [k for k in s1.mem if k[0] == root]:
                del s1.mem[k]
            write_back(I, s1, it, x)
            yield Out("ret", NONE, s1)
        # before the first element: what the loop does to no elements is what it does to every element of none
        s2 = st
        for k in [k for k in s2.mem if k[0] == root]:
            del s2.mem[k]
        s2.mem[(root, ())] = CELL
        yield Out("ret", some(("ref", root, ())), s2)
    return g()


LISTM = {"vec::new": m_new, "Vec::new": m_new, "vec::with_capacity": m_new, "Vec::with_capacity": m_new,
         "boxed::new_uninit": m_new_uninit, "boxed::box_assume_init_into_vec_unsafe": m_into_vec, "slice::into_vec": m_into_vec, "slice::hack::into_vec": m_into_vec,
         "vec::push": m_push, "Vec::push": m_push, "vec::extend": m_extend, "vec::extend_from_slice": m_extend, "Extend::extend": m_extend,
         "vec::append": m_append, "vec::len": m_len, "slice::len": m_len, "vec::is_empty": m_is_empty, "slice::is_empty": m_is_empty,
         "vec::reserve": m_noop, "vec::index_mut": m_index_mut, "IndexMut::index_mut": m_index_mut, "vec::pop": m_pop, "Vec::pop": m_pop, "slice::first": m_first("first"), "slice::last": m_first("last"), "vec::index": m_index, "Index::index": m_index,
         "iterator::Iterator::partition": m_partition, "Iterator::partition": m_partition, "iterator::partition": m_partition}


class LSym(Sym):
    def __init__(self, prog, opaque=(), models=None, pushes=False, **kw):
        self.pushes = pushes
        m = dict(LISTM)
        if models:
            m.update(models)
        super().__init__(prog, opaque, m, **kw)

    def rvalue(self, fn, fr, st, r):
        v = super().rvalue(fn, fr, st, r)
        if v[0] == "len" and v[1][0] == "ref":
            w = self.read(st, v[1][1], v[1][2])
            if w[0] == "agg" and w[1] == "array":
                return c(len(w[5]))
            if is_list(w):
                return length(w)
        return v

    def project(self, v, e):
        if e[0] == "i" and e[1][0] == "c":
            i = int(e[1][1])
            if v[0] == "agg" and v[1] == "array" and i < len(v[5]):
                return v[5][i][1]
            if known(v) and i < len(v[2]):
                return v[2][i][2][0]
        return super().project(v, e)

    def as_iter(self, v, st):
        if v[0] == "ref":
            v = self.read(st, v[1], v[2])
        if v[0] == "citer":
            return v
        if known(v):
            return ("citer", tuple(i[2][0] for i in v[2]))
        if v[0] == "agg" and v[1] == "array":
            return ("citer", tuple(x for _, x in v[5]))
        if v[0] == "iter" and known(v[1]):
            return ("citer", tuple(i[2][0] for i in v[1][2]))
        if v[0] == "iter" and isinstance(v[1], tuple) and v[1][0] == "agg" and v[1][1] == "array":
            return ("citer", tuple(x for _, x in v[1][5]))
        w = v[1] if v[0] == "iter" else v
        if isinstance(w, tuple) and w and w[0] == "call" and w[1].split("::")[-1] == "index" and len(w[2]) == 2 and w[2][1][0] == "agg":
            base, r = w[2][0], dict(w[2][1][5])
            if str(w[2][1][4]) == "RangeFrom":
                return ("iter", ("call", "skip", (("iter", base), r["start"])))
            if str(w[2][1][4]) == "RangeTo":
                return ("iter", ("call", "take", (("iter", base), r["end"])))
        return super().as_iter(v, st)

    def elem(self, st, it):
        if it[0] == "iter" and is_list(it[1]) and len(it[1][2]) == 1 and it[1][2][0][1] == "many":
            return self.elem(st, ("iter", it[1][2][0][2][0]))
        if it[0] == "iter" and isinstance(it[1], tuple) and it[1][0] == "call" and it[1][1] == "each":
            return it[1][2][1]
        return super().elem(st, it)

    def pull(self, fn, fr, b, t, st, it, stack, fresh=True):
        if it[0] == "one1":
            return iter([("item", it[1], st)])
        return super().pull(fn, fr, b, t, st, it, stack, fresh)

    # a loop over a vector of known length is followed element by element
    def widen(self, fn, fr, b, st):
        key = (fr, b)
        n, old = st.visits.get(key, (0, None))
        if old is not None:
            for loc, v in st.mem.items():
                o = old.get(loc)
                if v[0] == "citer" and o is not None and o[0] == "citer" and len(v[1]) < len(o[1]):
                    st.visits[key] = (1, dict(st.mem))
                    st.visits[(key, "roots")] = frozenset(k[0] for k in st.mem)
                    st.visits[(key, "gens")] = A.gen_in((tuple(st.mem.values()), tuple(st.facts)))
                    return True
        if self.pushes:
            self.grow(fn, fr, b, st)
        # the element a loop changes in place is the generic one in every round
        cells = {k: v for k, v in st.mem.items() if k[0][0] == "H" and isinstance(k[0][1], tuple) and k[0][1][:1] == ("melem",)}
        for k in cells:
            del st.mem[k]
        r = super().widen(fn, fr, b, st)
        st.mem.update(cells)
        return r

    def grow(self, fn, fr, b, st):
        """a loop over all elements that puts one value for each on a list, whatever the element: each(s, value)"""
        key = (fr, b)
        n, old = st.visits.get(key, (0, None))
        if old is None:
            st.visits[(key, "before")] = frozenset(st.facts)
            return
        if not isinstance(b, int):
            return
        cur, it = b, None
        for _ in range(6):
            t = fn.blocks[cur]["t"]
            if ("it", fr, cur) in st.visits:
                it = st.visits[("it", fr, cur)]
                break
            if t["t"] not in ("goto", "call") or not isinstance(t.get("to"), int):
                break
            cur = t["to"]
        if it is None or it[0] != "iter" or frozenset(st.facts) - st.visits.get((key, "before"), frozenset()):
            return
        s = A.srcs(it)
        for loc in list(st.mem):
            ov, nv = old.get(loc), st.mem[loc]
            if ov is None or not is_list(ov) or not is_list(nv) or len(nv[2]) != len(ov[2]) + 1 or nv[2][:-1] != ov[2] or nv[2][-1][1] != "one":
                continue
            x = nv[2][-1][2][0]
            if n == 1:
                w = lst(*(ov[2] + (many(each(s, x)),)))
                st.mem[loc] = w
                old[loc] = w
                st.visits[key] = (n, old)
                st.visits[(key, "grow", loc)] = x
            elif st.visits.get((key, "grow", loc)) == x:
                st.mem[loc] = ov

    def std_model(self, fn, fr, b, t, st, nk, args, stack):
        name = nk.split("::")[-1]
        if self.pushes and name == "next" and args and ("iter" in nk or "Iterator" in nk):
            m = self.read(st, args[0][1], args[0][2]) if args[0][0] == "ref" else args[0]
            first = ("it", fr, b) not in st.visits and m[0] == "iter" and any(b in L for L in fn.loops())
            st.visits[("it", fr, b)] = m
            if first:
                # no elements at all: covered by the state after any number of rounds
                return (o for o in Sym.std_model(self, fn, fr, b, t, st, nk, args, stack) if o.kind != "ret" or o.val != NONE)
        if args and (name == "iter_mut" or name == "into_iter" and (args[0][0] == "mutpart" or args[0][0] == "ref" and args[0][1][0] == "O" and args[0][1][1][0] == "mutpart" or self.prog.operand_ty(fn, t["args"][0]).get("mut"))):
            m = mut_iter(self, st, args[0])
            if m:
                return iter([Out("ret", m, st)])
        if args and ("iter" in nk or "Iterator" in nk):
            m = args[0]
            if m[0] == "ref":
                m = self.read(st, m[1], m[2])
            if m[0] == "mutiter":
                if name == "into_iter":
                    return iter([Out("ret", m, st)])
                if name == "take":
                    w = self.term(self.read(st, m[1], m[2]), st)
                    k = part_items(self, w, args[1])
                    if k is not None:
                        return iter([Out("ret", m[:3] + (min(k, m[3]),), st)])
                if name == "for_each":
                    return m_mut_foreach(self, fn, fr, b, t, st, m, args[1], stack)
                if name == "next":
                    return m_mut_next(self, fn, fr, b, t, st, m, stack)
        if "iter" in nk or "Iterator" in nk:
            if name == "collect" and args:
                r = m_collect(self, fn, fr, b, t, st, args, stack)
                if r is not NotImplemented:
                    return r
            if args and name in ("next", "find", "any", "all", "find_map", "fold", "for_each", "count"):
                r = self.concrete(fn, fr, b, t, st, name, args, stack)
                if r is not NotImplemented:
                    return r
            if name == "into_iter" and args:
                it = self.as_iter(args[0], st)
                if it[0] == "citer":
                    return iter([Out("ret", it, st)])
            if name in ("copied", "cloned", "by_ref", "fuse", "map", "filter") and args:
                it = self.as_iter(args[0], st)
                if it[0] == "citer" and name in ("copied", "cloned", "fuse"):
                    return iter([Out("ret", it, st)])
        if name in ("iter", "iter_mut") and ("slice" in nk or "vec" in nk) and args:
            it = self.as_iter(args[0], st)
            if it[0] == "citer":
                return iter([Out("ret", it, st)])
        return super().std_model(fn, fr, b, t, st, nk, args, stack)

    def concrete(self, fn, fr, b, t, st, name, args, stack):
        it0 = args[0]
        it = it0
        if it[0] == "ref":
            it = self.read(st, it[1], it[2])
        it = self.as_iter(it, st)
        lay = []
        base = it
        while base[0] in ("lmap", "lfilter"):
            lay.append(base)
            base = base[1]
        if base[0] != "citer":
            return NotImplemented

        def wrap(x):
            for l in reversed(lay):
                x = (l[0], x, l[2])
            return x

        def g():
            # (state, remaining items, carried value)
            work = [(st, base[1], args[1] if name == "fold" else c(0))]
            while work:
                s, xs, acc = work.pop()
                if not xs:
                    if name == "next" and it0[0] == "ref":
                        self.write(s, it0[1], it0[2], wrap(("citer", ())))
                    yield Out("ret", {"any": c(False), "all": c(True), "fold": acc, "for_each": UNIT, "count": acc}.get(name, NONE), s)
                    continue
                for kind, e, s2 in self.pull(fn, fr, b, t, s, wrap(("one1", xs[0])), stack):
                    if kind == "panic":
                        yield e
                        continue
                    if kind == "skip":
                        work.append((s2, xs[1:], acc))
                        continue
                    if name == "next":
                        if it0[0] == "ref":
                            self.write(s2, it0[1], it0[2], wrap(("citer", xs[1:])))
                        yield Out("ret", some(e), s2)
                        continue
                    if name == "count":
                        work.append((s2, xs[1:], self.binop("Add", acc, c(1))))
                        continue
                    a = e
                    if name == "find":
                        root = ("H", ("flt", fr, b))
                        s2.mem[(root, ())] = e
                        a = ("ref", root, ())
                    for o in self.apply(fn, fr, b, t, s2, args[-1], ([acc] if name == "fold" else []) + [a], stack):
                        if o.kind == "panic":
                            yield o
                        elif name == "fold":
                            work.append((o.st, xs[1:], o.val))
                        elif name == "for_each":
                            work.append((o.st, xs[1:], acc))
                        elif name == "find_map":
                            for i, s3 in self.split_variant(o.val, o.st):
                                if i == 1:
                                    yield Out("ret", some(self.payload(o.val, "Some")), s3)
                                else:
                                    work.append((s3, xs[1:], acc))
                        else:
                            for v, s3 in self.cond(o.val, o.st):
                                if v != (name == "all"):
                                    yield Out("ret", some(e) if name == "find" else c(name == "any"), s3)
                                else:
                                    work.append((s3, xs[1:], acc))
        return g()
