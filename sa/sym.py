"""Functional abstract interpretation: the path-sensitive interpreter of absint.py over a relational
numeric domain (polynomials over opaque reads, convex polyhedra of path conditions), and comparison of
the resulting (condition, result, effects) table of a function with a specified case table.

Every CFG path is abstracted to the conjunction of its branch conditions and a canonical term for its
result; for every pair (path, specified case) whose conditions are not contradictory in the polyhedra
domain, result and effects must coincide under those conditions.  Loops are widened."""
import ast, hashlib, re
from fractions import Fraction as F
import absint as A
import poly as P
import mir
from absint import Interp, Out, agg, some, NONE, ok, err, tup, c, UNIT, State, norm

SIGNED = {"winding_number"}


# ------------------------------------------------------------------------------------- canonical form
def last(nk):
    return norm(nk).split("::")[-1]


class Canon:
    ranges = False          # keep the upper bound of index ranges
    def __init__(self, erase_now=False):
        self.memo = {}
        self.plans = {}
        self.erase_now = erase_now

    def __call__(self, t):
        try:
            if t in self.memo:
                return self.memo[t]
        except TypeError:
            return t
        r = self.go(t)
        self.memo[t] = r
        return r

    def go(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == "obj":
            return self(t[1])
        if k in ("iter",) and isinstance(t[1], tuple):
            return ("iter", self(t[1]))
        if k == "call" and t[1].split("::")[-1] == "powi" and len(t[2]) == 2 and t[2][1][0] == "c" and t[2][1][1] in (2, 3):
            x = t[2][0]
            return self(("bin", "Mul", x, x) if t[2][1][1] == 2 else ("bin", "Mul", ("bin", "Mul", x, x), x))
        if k in ("c", "fl", "bin", "ext", "un", "cast", "poly", "trunc"):
            if k == "c" and isinstance(t[1], bool):
                return t
            if k == "c" and not isinstance(t[1], int):
                return t
            return self.ofpoly(self.poly(t))
        if k in ("lt", "flt", "fle", "eq"):
            return (k, self(t[1]), self(t[2]))
        if k == "not":
            x = self(t[1])
            return x[1] if x[0] == "not" else ("not", x)
        if k == "now":
            if self.erase_now:
                return self(t[2])
            return ("now", self(t[1]), self(t[2]))
        if k == "after":
            e = self(t[1])
            if e[0] == "call" and last(e[1]) == "remove_last" and t[2] == 0 and e[2] and e[2][0][0] == "after" and e[2][0][2] == 0 and last(e[2][0][1][1]) == "set_is_closed":
                i = e[2][0][1]          # removing a vertex and setting the flag do not depend on each other
                return ("after", ("call", i[1], (("after", ("call", e[1], i[2][:1] + e[2][1:]), 0),) + i[2][1:]), 0)
            return ("after", e, t[2])
        if k == "call":
            n = last(t[1])
            if n == "veq":
                d = [P.sub(self.poly(("fld", t[2][0], k)), self.poly(("fld", t[2][1], k))) for k in ("x", "y")]
                nd = [P.sub({}, x) for x in d]
                d = min(d, nd, key=lambda q: [P.key(x) for x in q])
                return ("call", "veq", (self.ofpoly(d[0]), self.ofpoly(d[1]), self(t[2][2])))
            args = tuple(self(x) for x in t[2])
            if n in ("fuzzy_eq_eps", "fuzzy_eq", "fuzzy_eq_zero", "fuzzy_eq_zero_eps") and args and args[0][0] != "agg" and "fuzzy_eq::" in t[1]:
                d = self.poly(args[0])
                rest = args[1:]
                if "zero" not in n:
                    d = P.sub(d, self.poly(args[1]))
                    rest = args[2:]
                ky = P.key(d)
                if ky and ky[0][1] < 0:
                    d = P.scale(d, -1)
                return ("call", "feq", (self.ofpoly(d),) + (rest if rest else (("call", "fuzzy_epsilon", ()),)))
            if n == "abs" and len(args) == 1:
                d = self.poly(args[0])
                ky = P.key(d)
                if ky and ky[0][1] < 0:
                    return ("call", "abs", (self.ofpoly(P.scale(d, -1)),))
            if n == "clone" and len(args) == 1:
                return args[0]
            if n == "with_capacity" and len(args) == 2:
                return ("call", n, (c(0), args[1]))         # the capacity is not observable
            if n == "vertex_count" and args[0][0] == "call" and args[0][1] in ("assign", "assign_last"):
                return ("call", n, args[0][2][:1])
            if n == "at" and len(args) == 2 and args[0][0] == "call" and args[0][1] == "assign" and args[1][0] == args[0][2][1][0] == "c":
                return args[0][2][2] if args[1] == args[0][2][1] else self(("call", n, (args[0][2][0], args[1])))
            if n in ("len", "is_empty") and len(args) == 1 and args[0][0] == "call" and args[0][1] == "sorted":
                args = args[0][2][:1]
            if n == "len" and len(args) == 1:
                return ("len", args[0])
            return ("call", n, args)
        if k == "elem" and self.ranges and len(t) == 2 and isinstance(t[1], tuple):
            s = self(t[1])
            if s[0] == "call" and s[1] == "skip" and s[2][1][0] == "c" and s[2][0][0] == "iter":
                x = s[2][0][1]
                if x[0] == "verts":
                    return ("call", "at", (x[1], ("iv", s[2][1], ("call", "vertex_count", (x[1],)))))
                return ("index", x, ("iv", s[2][1], ("len", x)))
            return ("elem", s)
        if k == "index" and self.ranges:
            x, i = self(t[1]), self(t[2])
            if i == ("iv", c(0), ("len", x)):
                return ("elem", x)
            return ("index", x, i)
        if k == "len":
            return ("len", self(t[1]))
        if k == "discr":
            r = ("discr", self(t[1]))
            if t in A.WIDE:
                A.WIDE.add(r)
            return r
        if k == "agg":
            fs = tuple((n, self(x)) for n, x in t[5])
            d = t[2].split("::")[-1] if isinstance(t[2], str) else t[2]
            # eta contraction
            if t[1] == "adt" and fs and t[4] is not None and d not in ("Option", "Result"):
                b = None
                for n, x in fs:
                    if x[0] == "fld" and x[2] == n and (b is None or b == x[1]):
                        b = x[1]
                    else:
                        b = None
                        break
                if b is not None and len(fs) > 1:
                    return b
            return ("agg", t[1], d, t[3], t[4], fs)
        if k == "fld":
            b = self(t[1])
            while b[0] == "upd" and len(b[2]) == 1 and b[2][0][0] == "f":
                if b[2][0][1] == t[2]:
                    return b[3]
                b = b[1]
            if b[0] == "agg":
                for n, x in b[5]:
                    if n == t[2]:
                        return x
            return ("fld", b, t[2])
        if k == "as":
            b = self(t[1])
            if b[0] == "agg":
                return b
            return ("as", b, t[2])
        if k == "idxin":
            return ("iv", self(t[1]), self(t[2])) if self.ranges else ("iv", self(t[1]))
        if k == "ctr":
            return ("iv", self(t[1]))
        if k == "idx":
            x = t[1]
            while x[0] == "iter":
                x = x[1]
            return ("iv", c(0), ("len", self(x))) if self.ranges else ("iv", c(0))
        if k == "upd":
            return ("upd", self(t[1]), t[2], self(t[3]))
        if k in ("sym", "fn", "const", "loop", "undef"):
            return t
        if k == "ref":
            return ("ref", t[1], t[2])
        if k == "clo":
            return ("clo", t[1], tuple(self(x) for x in t[2]))
        return tuple([k] + [self(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:]])

    def ofpoly(self, p):
        if len(p) == 1:
            (m, co), = p.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        if P.is_const(p):
            v = P.constval(p)
            return ("c", int(v)) if v.denominator == 1 else ("q", v)
        return ("poly", P.key(p))

    def poly(self, t):
        k = t[0]
        if k == "c" and isinstance(t[1], (int, bool)):
            return P.const(int(t[1]))
        if k == "q":
            return P.const(t[1])
        if k == "fl":
            try:
                return P.const(F(re.sub(r"_?f(32|64)$", "", t[1])))
            except ValueError:
                return P.atom(t)
        if k == "poly":
            return dict(t[1])
        if k == "ext":
            return self.poly(t[1])
        if k == "cast":
            return self.poly(t[3])
        if k == "un" and t[1] == "Neg":
            return P.scale(self.poly(t[2]), -1)
        if k == "bin":
            op = t[1]
            if op in ("Add", "Sub", "Mul", "Div"):
                a, b = self.poly(t[2]), self.poly(t[3])
                if op == "Add":
                    return P.add(a, b)
                if op == "Sub":
                    return P.sub(a, b)
                if op == "Mul":
                    return P.mul(a, b)
                if not b:
                    return P.atom(("divzero", self.ofpoly(a)))
                if len(t) > 4 and t[4] == "int":
                    return P.atom(("idiv", self.ofpoly(a), self.ofpoly(b)))
                return P.mul(a, P.inverse(b))
            if op == "Rem":
                return P.atom(("rem", self(t[2]), self(t[3])))
            return P.atom(("bin", op, self(t[2]), self(t[3])))
        if k == "un":
            return P.atom(("un", t[1], self(t[2])))
        x = self(t)
        if x[0] in ("c", "q", "poly") and x is not t:
            return self.poly(x)
        return P.atom(x)


CHOICE = ("abs", "min", "max")


def rewrite(cn, t, lits, sub=None):
    """canonical term with the decided boolean subterms replaced by constants"""
    if not isinstance(t, tuple) or not t:
        return t
    if isinstance(t[0], str):
        if sub is not None and t in sub:
            return sub[t]
        if booly(t) and t[0] != "c":
            v = lits.get(t)
            if v is not None:
                return c(v)
            if t[0] == "not" and lits.get(t[1]) is not None:
                return c(not lits[t[1]])
        if t[0] == "poly":
            p = {}
            same = True
            for m, co in t[1]:
                q = P.const(co)
                for a, e in m:
                    b = rewrite(cn, a, lits, sub)
                    if b is not a and b != a:
                        same = False
                    if e > 0:
                        w = cn.poly(b)
                        for _ in range(e):
                            q = P.mul(q, w)
                    else:
                        w = P.inverse(cn.poly(b))
                        for _ in range(-e):
                            q = P.mul(q, w)
                p = P.add(p, q)
            return t if same else cn.ofpoly(p)
        if t[0] in ("c", "q", "sym", "fl"):
            return t
    out = tuple(rewrite(cn, x, lits, sub) if isinstance(x, tuple) else x for x in t)
    if t[0] == "discr" and t in A.WIDE:
        A.WIDE.add(out)
    return t if out == t else out


def atoms_of(p):
    for m in p:
        for a, _ in m:
            yield a


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


class Ctx:
    """conjunction of constraints + equality decision"""
    def __init__(self, cn, cons=(), bools=(), nonneg=()):
        self.cn = cn
        self.cons = list(cons)
        self.nonneg = set(nonneg)
        self.lits = {}

    def copy(self):
        x = Ctx(self.cn, self.cons, (), self.nonneg)
        x.lits = dict(self.lits)
        return x

    def poly(self, t):
        return self.cn.poly(t)

    def copy_with(self, lits):
        x = self.copy()
        for t, v in lits:
            x.add_lit(t, v)
        return x

    def add_lit(self, t, val):
        """add boolean term == val"""
        cn = self.cn
        t = cn(t)
        if t[0] == "not":
            return self.add_lit(t[1], not val)
        if t[0] == "c":
            if bool(t[1]) != val:
                self.cons.append((P.const(-1), "ge"))
            return
        if t[0] == "call":
            u = tuple(self.simp(x) for x in t[2])
            if u != t[2]:
                self.lits[t] = val
                t = ("call", t[1], u)
        self.lits[t] = val
        if t[0] == "ovf":
            if t[1] == "Sub":
                d = P.sub(cn.poly(t[2]), cn.poly(t[3]))
                self.int_atoms(d)
                if val:
                    self.cons.append((P.add(P.scale(d, -1), P.const(-1)), "ge"))
                else:
                    self.cons.append((d, "ge"))
            return
        if t[0] == "lt":
            d = P.sub(cn.poly(t[2]), cn.poly(t[1]))
            self.int_atoms(d)
            if val:
                self.cons.append((P.add(d, P.const(-1)), "ge"))
            else:
                self.cons.append((P.scale(d, -1), "ge"))
            return
        if t[0] in ("flt", "fle"):
            d = P.sub(cn.poly(t[2]), cn.poly(t[1]))
            if t[0] == "flt":
                self.cons.append((d, "gt") if val else (P.scale(d, -1), "ge"))
            else:
                self.cons.append((d, "ge") if val else (P.scale(d, -1), "gt"))
            return
        if t[0] == "eq":
            d = P.sub(cn.poly(t[1]), cn.poly(t[2]))
            self.cons.append((d, "eq" if val else "ne"))
            if not val and P.is_const(d) and P.constval(d) == 0:
                self.cons.append((P.const(-1), "ge"))
            return
        if t[0] == "bin" and t[1] in ("BitAnd", "BitOr", "BitXor"):
            self.cons.append((P.sub(P.atom(t), P.const(int(val))), "eq"))
            return
        self.cons.append((P.sub(P.atom(t), P.const(int(val))), "eq"))

    def int_atoms(self, p):
        for a in atoms_of(p):
            if a[0] == "call" and a[1] in SIGNED:
                continue
            self.nonneg.add(a)

    def simp(self, t):
        if not self.lits:
            return t
        return rewrite(self.cn, t, self.lits)

    def add_facts(self, st):
        for k, v in st.facts.items():
            if k[0] == "b":
                self.add_lit(k[1], v)
            elif k[0] == "int":
                p = self.cn.poly(k[1])
                if v[0] == "eq":
                    self.cons.append((P.sub(p, P.const(int(v[1]))), "eq"))
                else:
                    for n in v[1]:
                        self.cons.append((P.sub(p, P.const(int(n))), "ne"))

    def full(self, extra=()):
        cons = list(self.cons) + list(extra)
        ats = set()
        for p, _ in cons:
            for a in atoms_of(p):
                ats.add(a)
        out = list(cons)
        for a in self.nonneg:
            if a in ats:
                out.append((P.atom(a), "ge"))
        for a in ats:
            if a[0] == "discr":
                out.append((P.atom(a), "ge"))
                if a not in A.WIDE:
                    out.append((P.sub(P.const(1), P.atom(a)), "ge"))
            elif a[0] in ("len", "call") and (a[0] == "len" or a[1] in ("vertex_count", "segment_count")):
                out.append((P.atom(a), "ge"))
            elif a[0] == "iv":
                out.append((P.sub(P.atom(a), self.cn.poly(a[1])), "ge"))
            elif a[0] == "call" and a[1] == "abs" and len(a[2]) == 1:
                out.append((P.atom(a), "ge"))
            elif a[0] == "call" and a[1] in ("min", "max") and len(a[2]) == 2:
                for x in a[2]:
                    d = P.sub(self.cn.poly(x), P.atom(a))
                    out.append((d if a[1] == "min" else P.scale(d, -1), "ge"))
        return [(p, "ine") if o == "ne" and self.integral(p) else (p, o) for p, o in out]

    def integral(self, p):
        return all(c.denominator == 1 for c in p.values()) and all(
            a in self.nonneg or a[0] in ("len", "discr", "iv") or a[0] == "call" and a[1] in ("vertex_count", "segment_count")
            for a in atoms_of(p))

    def feasible(self, extra=()):
        cons = self.full(extra)
        if not P.feasible(cons):
            return False
        full = self.with_congruence(cons)
        return len(full) == len(cons) or P.feasible(full)

    def with_congruence(self, cons):
        ats = []
        seen = set()
        mons = set()
        for p, _ in cons:
            for m in p:
                mons.add(m)
                for a, _ in m:
                    if a not in seen:
                        seen.add(a)
                        if a[0] in ("call", "fld", "discr", "len", "rem", "index", "as"):
                            ats.append(a)
        extra = []
        groups = {}
        for a in ats:
            k = skeleton(a)
            if k is not None:
                groups.setdefault(k, []).append(a)
        for g in groups.values():
            if len(g) > 1:
                g.sort(key=repr)
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        if self.args_equal(g[i], g[j], cons, mons):
                            extra.append((P.sub(P.atom(g[i]), P.atom(g[j])), "eq"))
        return cons + extra

    def args_equal(self, x, y, cons, mons):
        """the constraints make the arguments of the two terms equal"""
        k = (x, y)
        plan = self.cn.plans.get(k)
        if plan is None:
            plan = self.cn.plans[k] = self.eq_plan(x, y)
        return self.holds(plan, cons, mons)

    def holds(self, p, cons, mons):
        if p is True or p is False:
            return p
        if p[0] == "d":
            return not P.may_differ(p[1], cons, mons)
        if p[0] == "and":
            if any(q[0] == "d" and any(m and m not in mons for m in q[1]) for q in p[1]):
                return False
            return all(self.holds(q, cons, mons) for q in p[1])
        return self.holds(p[1], cons, mons) or (p[2] in mons and p[3] in mons and not P.may_differ(p[4], cons, mons))

    def eq_plan(self, x, y, depth=0):
        """what the constraints must make zero for x and y to be equal, as far as their form tells"""
        if x == y:
            return True
        if depth > 6 or not isinstance(x, tuple) or not isinstance(y, tuple):
            return False
        if x and y and numericish(x) and numericish(y):
            d = P.sub(self.cn.poly(x), self.cn.poly(y))
            if P.is_const(d):
                return P.constval(d) == 0
            if x[0] in ("poly", "c", "q") or y[0] in ("poly", "c", "q") or x[0] in ("sym", "iv", "len"):
                return ("d", d)
        if len(x) != len(y) or (x and y and isinstance(x[0], str) and x[0] != y[0]):
            if numericish(x) and numericish(y):
                return ("d", P.sub(self.cn.poly(x), self.cn.poly(y)))
            return False
        parts = []
        for a, b in zip(x, y):
            q = self.eq_plan(a, b, depth + 1)
            if q is False:
                parts = False
                break
            if q is not True:
                parts.append(q)
        if parts == []:
            return True
        p = False if parts is False else ("and", parts)
        if x and x[0] in ("fld", "index"):
            return ("or", p, ((x, 1),), ((y, 1),), P.sub(self.cn.poly(x), self.cn.poly(y)))
        return p

    def num_equal(self, a, b):
        d = P.sub(self.cn.poly(a), self.cn.poly(b))
        if P.is_const(d):
            return P.constval(d) == 0
        cs = set(y for x in set(atoms_of(d)) for y in subterms(x) if isinstance(y, tuple) and len(y) == 3 and y[0] == "call" and y[1] in CHOICE)
        if cs:
            # innermost first
            r = min((x for x in cs if not any(y is not x and y in cs for y in subterms(x[2]) if isinstance(y, tuple))), key=repr)
            x = self.cn.poly(r[2][0])
            if r[1] == "abs":
                alts = [([(x, "ge")], x), ([(P.scale(x, -1), "ge")], P.scale(x, -1))]
            else:
                y = self.cn.poly(r[2][1])
                lo, hi = (x, y) if r[1] == "min" else (y, x)
                alts = [([(P.sub(y, x), "ge")], lo), ([(P.sub(x, y), "ge")], hi)]
            for ex, val in alts:
                sub = self.copy()
                sub.cons = self.cons + ex + [(P.sub(P.atom(r), val), "eq")]
                if sub.feasible():
                    t2 = self.cn(rewrite(self.cn, self.cn.ofpoly(d), {}, {r: self.cn.ofpoly(val)}))
                    if not sub.num_equal(t2, ("c", 0)):
                        return False
            return True
        rems = [x for x in set(atoms_of(d)) if x[0] == "rem"]
        if rems:
            r = rems[0]
            n, m = self.cn.poly(r[1]), self.cn.poly(r[2])
            res = True
            for lo, hi, val in ((None, m, n), (m, P.scale(m, 2), P.sub(n, m)), (P.scale(m, 2), None, None)):
                ex = []
                if lo is not None:
                    ex.append((P.sub(n, lo), "ge"))
                if hi is not None:
                    ex.append((P.add(P.sub(hi, n), P.const(-1)), "ge"))
                if val is not None:
                    ex.append((P.sub(P.atom(r), val), "eq"))
                sub = Ctx(self.cn, self.cons + ex, (), self.nonneg)
                if not sub.feasible():
                    continue
                if val is None:
                    return False
                d2 = substitute(d, r, val)
                if not sub.num_equal(self.cn.ofpoly(d2), ("c", 0)):
                    return False
            return res
        return not self.feasible([(d, "ne")])

    def equal(self, a, b):
        """a and b (canonical terms) denote the same value under the constraints"""
        if a == b:
            return True
        ak, bk = a[0], b[0]
        if ak == "agg" and bk == "agg":
            if a[4] is not None and b[4] is not None:
                if a[4] != b[4]:
                    return False
            elif a[2] != b[2] or a[3] != b[3]:
                return False
            da, db = dict(a[5]), dict(b[5])
            if set(da) != set(db):
                return False
            return all(self.equal(da[n], db[n]) for n in da)
        if ak == "agg" or bk == "agg":
            g, o = (a, b) if ak == "agg" else (b, a)
            if g[2] in ("Option", "Result"):
                kind = g[3]
                # opaque option: variant must be known
                if self.feasible([(P.sub(P.atom(("discr", o)), P.const(kind)), "ne")]):
                    return False
                return all(self.equal(x, self.cn(("fld", ("as", o, g[4]), n))) for n, x in g[5])
            if not g[5]:
                return False
            return all(self.equal(x, self.cn(("fld", o, n))) for n, x in g[5])
        if ak == "upd" or bk == "upd":
            u, o = (a, b) if ak == "upd" else (b, a)
            if len(u[2]) == 1 and u[2][0][0] == "f":
                return self.equal(u[3], self.cn(("fld", o, u[2][0][1]))) and self.equal(u[1], o)
            return False
        if booly(a) or booly(b):
            for v in (True, False):
                s = self.copy()
                s.add_lit(a, v)
                s.add_lit(b, not v)
                if s.feasible():
                    return False
            return True
        if numericish(a) and numericish(b):
            return self.num_equal(a, b)
        return False


def substitute(p, a, val):
    out = {}
    for m, co in p.items():
        e = dict(m).get(a, 0)
        if e == 0:
            out = P.add(out, {m: co})
        elif e == 1:
            rest = tuple(x for x in m if x[0] != a)
            out = P.add(out, P.mul({rest: co}, val))
        else:
            rest = tuple(x for x in m if x[0] != a)
            w = val if e > 0 else P.inverse(val)
            t = {rest: co}
            for _ in range(abs(e)):
                t = P.mul(t, w)
            out = P.add(out, t)
    return out


def skeleton(t):
    if not isinstance(t, tuple):
        return t
    if t[0] == "call":
        return ("call", t[1], len(t[2]))
    if t[0] == "fld":
        return ("fld", skeleton(t[1]), t[2])
    if t[0] in ("discr", "len"):
        return (t[0],) + (skeleton(t[1]),)
    if t[0] == "as":
        return ("as", skeleton(t[1]), t[2])
    if t[0] in ("index", "rem"):
        return (t[0],)
    return None


BOOLCALLS = {"veq", "is_closed", "feq", "is_empty", "bulge_is_zero", "bulge_is_pos", "bulge_is_neg", "fuzzy_eq_eps", "fuzzy_eq",
             "fuzzy_gt", "fuzzy_lt", "fuzzy_gt_eps", "fuzzy_lt_eps"}


def booly(t):
    return t[0] in ("not", "lt", "flt", "fle", "eq", "ovf") or (t[0] == "c" and isinstance(t[1], bool)) or (t[0] == "call" and t[1] in BOOLCALLS)


def numericish(t):
    return isinstance(t, tuple) and t and t[0] in ("c", "q", "fl", "poly", "call", "fld", "sym", "iv", "len", "rem", "idiv", "index", "discr", "pi", "loop", "now", "elem", "const", "as", "after")


# ------------------------------------------------------------------------------------- interpreter
def K(v):
    return lambda I, fn, fr, b, t, st, args, stack: iter([Out("ret", v, st)])


def deref_arg(I, st, v):
    while v[0] == "ref":
        v = I.read(st, v[1], v[2])
    return v


def arith(op):
    def h(I, fn, fr, b, t, st, args, stack):
        a = deref_arg(I, st, args[0])
        bb = deref_arg(I, st, args[1])
        if a[0] == "agg" or bb[0] == "agg":
            return NotImplemented
        return iter([Out("ret", I.binop(op, a, bb, True) if op not in ("Add", "Sub", "Mul", "Div") else ("bin", op, a, bb), st)])
    return h


def arith_assign(op):
    def h(I, fn, fr, b, t, st, args, stack):
        root, proj = I.deref(st, args[0])
        a = I.read(st, root, proj)
        I.write(st, root, proj, ("bin", op, a, deref_arg(I, st, args[1])))
        return iter([Out("ret", UNIT, st)])
    return h


def m_neg(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", ("un", "Neg", deref_arg(I, st, args[0])), st)])


def cmpop(op):
    def h(I, fn, fr, b, t, st, args, stack):
        a, bb = deref_arg(I, st, args[0]), deref_arg(I, st, args[1])
        return iter([Out("ret", I.binop(op, a, bb, True), st)])
    return h


def icmp(I, a, b, fl):
    return I.binop("Lt", a, b, fl)


def minmax(pick_min, fl):
    def h(I, fn, fr, b, t, st, args, stack):
        x, y = deref_arg(I, st, args[0]), deref_arg(I, st, args[1])
        if fl:
            return iter([Out("ret", ("call", "min" if pick_min else "max", (I.term(x, st), I.term(y, st))), st)])

        def g():
            for v, s in I.cond(I.binop("Le", x, y, fl), st):
                yield Out("ret", (x if v else y) if pick_min else (y if v else x), s)
        return g()
    return h


def is_float_arg(I, fn, t):
    ty = I.prog.operand_ty(fn, t["args"][0])
    while ty["k"] in ("ref", "ptr"):
        ty = I.prog.ty(fn.crate, ty["t"])
    return ty["s"] not in A.INTW


def m_ordminmax(pick_min):
    def h(I, fn, fr, b, t, st, args, stack):
        return minmax(pick_min, is_float_arg(I, fn, t))(I, fn, fr, b, t, st, args, stack)
    return h


def m_sat_sub(I, fn, fr, b, t, st, args, stack):
    def g():
        for v, s in I.cond(I.binop("Lt", args[0], args[1]), st):
            yield Out("ret", c(0) if v else I.binop("Sub", args[0], args[1]), s)
    return g()


def m_checked_sub(I, fn, fr, b, t, st, args, stack):
    def g():
        for v, s in I.cond(I.binop("Lt", args[0], args[1]), st):
            yield Out("ret", NONE if v else some(I.binop("Sub", args[0], args[1])), s)
    return g()


def m_checked_add(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", some(I.binop("Add", args[0], args[1])), st)])


def m_numcast(I, fn, fr, b, t, st, args, stack):
    a = args[0]
    return iter([Out("ret", some(a), st)])


def m_then(I, fn, fr, b, t, st, args, stack):
    lazy = last(t["c"].get("r") or t["c"]["d"]) == "then"
    def g():
        for v, s in I.cond(args[0], st):
            if not v:
                yield Out("ret", NONE, s)
            elif lazy:
                for o in I.apply(fn, fr, b, t, s, args[1], [], stack):
                    yield Out("ret", some(o.val), o.st) if o.kind == "ret" else o
            else:
                yield Out("ret", some(args[1]), s)
    return g()


def m_get(I, fn, fr, b, t, st, args, stack):
    """PlineSource::get on an opaque polyline: Some(at(i)) iff i < vertex_count()"""
    recv = I.term(args[0], st)
    if recv[0] == "agg":
        return NotImplemented
    base = "cavalier_contours::polyline::traits::PlineSource::"
    n = ("call", base + "vertex_count", (recv,))
    def g():
        for v, s in I.cond(I.binop("Lt", args[1], n), st):
            yield Out("ret", some(("call", base + "at", (recv, args[1]))) if v else NONE, s)
    return g()


def m_identity(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", I.term(args[0], st), st)])


def m_or_else(I, fn, fr, b, t, st, args, stack):
    v = args[0]
    def g():
        for i, s in I.split_variant(v, st):
            if i == 1:
                yield Out("ret", v if v[0] == "agg" else some(I.payload(v, "Some")), s)
            elif last(t["c"].get("r") or t["c"]["d"]) == "or":
                yield Out("ret", args[1], s)
            else:
                yield from I.apply(fn, fr, b, t, s, args[1], [], stack)
    return g()


def m_is_some_and(I, fn, fr, b, t, st, args, stack):
    v = args[0]
    def g():
        for i, s in I.split_variant(v, st):
            if i == 1:
                yield from I.apply(fn, fr, b, t, s, args[1], [I.payload(v, "Some")], stack)
            else:
                yield Out("ret", c(False), s)
    return g()


def m_range_contains(I, fn, fr, b, t, st, args, stack):
    r = deref_arg(I, st, args[0])
    x = deref_arg(I, st, args[1])
    if r[0] != "agg":
        return NotImplemented
    d = dict(r[5])
    fl = is_float_arg2(I, fn, t)
    def g():
        for v, s in I.cond(I.binop("Le", d["start"], x, fl), st):
            if not v:
                yield Out("ret", c(False), s)
            else:
                yield from (Out("ret", c(w), s2) for w, s2 in I.cond(I.binop("Lt", x, d["end"], fl), s))
    return g()


def is_float_arg2(I, fn, t):
    ty = I.prog.operand_ty(fn, t["args"][1])
    while ty["k"] in ("ref", "ptr"):
        ty = I.prog.ty(fn.crate, ty["t"])
    return ty["s"] not in A.INTW


def m_cmp(I, fn, fr, b, t, st, args, stack):
    """Ord::cmp: three-way"""
    x, y = deref_arg(I, st, args[0]), deref_arg(I, st, args[1])
    fl = is_float_arg(I, fn, t)
    part = last(t["c"].get("r") or t["c"]["d"]) == "partial_cmp"
    if not part and x[0] == y[0] == "agg" and x[1] == y[1] == "tuple":
        return (Out("ret", ordv(k), s) for k, s in cmp_terms(I, x, y, st))

    def g():
        for lt_, s in I.cond(I.binop("Lt", x, y, fl), st):
            if lt_:
                v = ordv(-1)
                yield Out("ret", some(v) if part else v, s)
            else:
                for gt_, s2 in I.cond(I.binop("Lt", y, x, fl), s):
                    v = ordv(1 if gt_ else 0)
                    yield Out("ret", some(v) if part else v, s2)
    return g()


def cmp_terms(I, x, y, st):
    """the order of two values of a totally ordered type (tuples by their first difference)"""
    if x[0] == y[0] == "agg" and x[1] == y[1] == "tuple":
        def go(i, s):
            if i == len(x[5]):
                yield 0, s
                return
            for k, s2 in cmp_terms(I, x[5][i][1], y[5][i][1], s):
                if k:
                    yield k, s2
                else:
                    yield from go(i + 1, s2)
        yield from go(0, st)
        return
    for lt_, s in I.cond(I.binop("Lt", x, y, False), st):
        if lt_:
            yield -1, s
        else:
            for gt_, s2 in I.cond(I.binop("Lt", y, x, False), s):
                yield (1 if gt_ else 0), s2


def ord_split(I, v, st):
    """an Ordering value -> (-1 | 0 | 1, state)"""
    if v[0] == "agg":
        yield {"Less": -1, "Equal": 0, "Greater": 1}[v[4]], st
        return
    for lt_, s in I.cond(("flt", ("call", "ord", (v,)), A.c(0)), st):
        if lt_:
            yield -1, s
        else:
            for gt_, s2 in I.cond(("flt", A.c(0), ("call", "ord", (v,))), s):
                yield (1 if gt_ else 0), s2


def m_then_with(I, fn, fr, b, t, st, args, stack):
    """the second ordering decides when the first is Equal"""
    lazy = last(t["c"].get("r") or t["c"]["d"]) == "then_with"

    def g():
        for k, s in ord_split(I, args[0], st):
            if k != 0:
                yield Out("ret", ordv(k), s)
            elif lazy:
                yield from I.apply(fn, fr, b, t, s, args[1], [], stack)
            else:
                yield Out("ret", args[1], s)
    return g()


def m_ord_reverse(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", ordv(-k), s) for k, s in ord_split(I, args[0], st)])


def m_sin_cos(I, fn, fr, b, t, st, args, stack):
    a = deref_arg(I, st, args[0])
    return iter([Out("ret", tup(("call", "sin", (a,)), ("call", "cos", (a,))), st)])


def m_src(kind):
    def h(I, fn, fr, b, t, st, args, stack):
        return iter([Out("ret", ("iter", (kind, I.term(args[0], st))), st)])
    return h


def m_srcnext(I, fn, fr, b, t, st, args, stack):
    """next() of one of the modelled element sources"""
    it = args[0]
    if it[0] == "ref":
        it = I.read(st, it[1], it[2])
    if not (it[0] == "iter" and it[1][0] in ("segs", "segidx", "verts") or has_lazy(it)):
        return NotImplemented

    def g():
        s1 = st.copy()
        s1.ev(("exhausted", A.srcs(it)))
        yield Out("ret", NONE, s1)
        gens = A.gen_in(it)
        for kind, e, s in I.pull(fn, fr, b, t, st.copy(), it, stack, fresh=True):
            if kind == "panic":
                yield e
            elif kind == "item":
                yield Out("ret", some(e), s)
    return g()


def iterate(I, fn, fr, b, t, st, it, f, stack, carry=None, stop=None):
    """run callback f over the elements of iterator term it as a loop; yields (kind, value, state) with kind
    "done" (value: the carried value), "stop" (stop(outcome) gave a value) or "panic"."""
    hb = ("it", b)
    croot = ("H", ("fold", fr, b))
    if carry is not None:
        st.mem[(croot, ())] = I.term(carry, st)
    work = [st]
    while work:
        s = work.pop()
        if not I.widen(fn, fr, hb, s):
            continue
        s1 = s.copy()
        s1.ev(("exhausted", A.srcs(it)))
        cv = I.read(s1, croot, ()) if carry is not None else None
        s1.mem.pop((croot, ()), None)
        yield "done", cv, s1
        for kind, e, s2 in I.pull(fn, fr, b, t, s.copy(), it, stack):
            if kind == "panic":
                yield "panic", e, s2
                continue
            if kind == "skip":
                work.append(s2)
                continue
            args = ([I.read(s2, croot, ())] if carry is not None else []) + [e]
            for o in I.apply(fn, fr, b, t, s2, f, args, stack) if f is not None else [Out("ret", e, s2)]:
                if o.kind == "panic":
                    yield "panic", o, o.st
                    continue
                if stop is not None:
                    for v, s3 in stop(e, o):
                        if v is None:
                            work.append(s3)
                        else:
                            yield "stop", v, s3
                    continue
                if carry is not None:
                    o.st.mem[(croot, ())] = I.term(o.val, o.st)
                work.append(o.st)


def m_fold(I, fn, fr, b, t, st, args, stack):
    """Iterator::fold: a loop with one carried value"""
    def g():
        for kind, v, s in iterate(I, fn, fr, b, t, st, I.as_iter(args[0], st), args[2], stack, carry=args[1]):
            yield v if kind == "panic" else Out("ret", v, s)
    return g()


def m_sum(I, fn, fr, b, t, st, args, stack):
    def g():
        hb = ("it", b)
        croot = ("H", ("fold", fr, b))
        it = I.as_iter(args[0], st)
        st.mem[(croot, ())] = c(0)
        work = [st]
        while work:
            s = work.pop()
            if not I.widen(fn, fr, hb, s):
                continue
            s1 = s.copy()
            s1.ev(("exhausted", A.srcs(it)))
            v = I.read(s1, croot, ())
            s1.mem.pop((croot, ()), None)
            yield Out("ret", v, s1)
            for kind, e, s2 in I.pull(fn, fr, b, t, s.copy(), it, stack):
                if kind == "panic":
                    yield e
                    continue
                if kind == "item":
                    s2.mem[(croot, ())] = ("bin", "Add", I.read(s2, croot, ()), I.term(e, s2))
                work.append(s2)
    return g()


def m_foreach(I, fn, fr, b, t, st, args, stack):
    def g():
        for kind, v, s in iterate(I, fn, fr, b, t, st, I.as_iter(args[0], st), args[1], stack):
            yield v if kind == "panic" else Out("ret", UNIT, s)
    return g()


def m_search(how):
    def h(I, fn, fr, b, t, st, args, stack):
        def stop(e, o):
            if how == "find_map":
                for i, s in I.split_variant(o.val, o.st):
                    yield (some(I.payload(o.val, "Some")) if i == 1 else None), s
                return
            for v, s in I.cond(o.val, o.st):
                if how == "any":
                    yield (c(True) if v else None), s
                elif how == "all":
                    yield (None if v else c(False)), s
                else:
                    yield (some(I.term(e, s)) if v else None), s

        def g():
            it = args[0]
            if it[0] == "ref":
                it = I.read(st, it[1], it[2])
            for kind, v, s in iterate(I, fn, fr, b, t, st, I.as_iter(it, st), args[1], stack, stop=stop):
                yield v if kind == "panic" else Out("ret", v if kind == "stop" else {"any": c(False), "all": c(True)}.get(how, NONE), s)
        return g()
    return h


def m_lazy(kind):
    def h(I, fn, fr, b, t, st, args, stack):
        return iter([Out("ret", (kind, I.as_iter(args[0], st), args[1]), st)])
    return h


def m_collect(I, fn, fr, b, t, st, args, stack):
    it = I.as_iter(args[0], st)
    if not has_lazy(it):
        return NotImplemented

    def g():
        for kind, e, s in I.pull(fn, fr, b, t, st, it, stack):
            if kind == "panic":
                yield e
            elif kind == "item":
                yield Out("ret", ("coll", A.srcs(it), I.term(e, s)), s)
    return g()


def has_lazy(it):
    return isinstance(it, tuple) and len(it) > 1 and (it[0] in ("lmap", "lfilter", "lflat") or it[0] in A.ITERS and any(has_lazy(x) for x in it[1:3]))


def ordv(n):
    return agg("adt", "core::cmp::Ordering", n % 256, {-1: "Less", 0: "Equal", 1: "Greater"}[n], ())


PI = ("pi",)
RL = "traits::real::Real::"
NT = "num_traits::"

ARITH = {}
for tr, m, op in (("Add", "add", "Add"), ("Sub", "sub", "Sub"), ("Mul", "mul", "Mul"), ("Div", "div", "Div"), ("Rem", "rem", "Rem")):
    ARITH["arith::%s::%s" % (tr, m)] = arith(op)
    ARITH["arith::%sAssign::%s_assign" % (tr, m)] = arith_assign(op)
    ARITH["ops::arith::" + m] = arith(op)
ARITH["ops::arith::neg"] = m_neg
ARITH["arith::Neg::neg"] = m_neg
for m, op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    ARITH["cmp::PartialOrd::" + m] = cmpop(op)

CONSTS = {
    "Zero::zero": K(c(0)), "One::one": K(c(1)), RL + "two": K(c(2)), RL + "four": K(c(4)),
    RL + "pi": K(PI), RL + "tau": K(("bin", "Mul", c(2), PI)),
    "FloatConst::PI": K(PI), "FloatConst::TAU": K(("bin", "Mul", c(2), PI)),
    "FloatConst::FRAC_PI_2": K(("bin", "Div", PI, c(2))),
}

MODELS = dict(ARITH)
MODELS.update(CONSTS)
MODELS.update({
    "NumCast::from": m_numcast,
    "real::Real::min": minmax(True, True), "real::Real::max": minmax(False, True),
    "Float::min": minmax(True, True), "Float::max": minmax(False, True),
    "cmp::Ord::min": m_ordminmax(True), "cmp::Ord::max": m_ordminmax(False),
    "cmp::min": m_ordminmax(True), "cmp::max": m_ordminmax(False),
    "num::saturating_sub": m_sat_sub, "num::checked_sub": m_checked_sub, "num::checked_add": m_checked_add,
    "bool::then": m_then, "bool::then_some": m_then,
    "PlineSource::get": m_get,
    "option::or": m_or_else, "option::or_else": m_or_else, "option::is_some_and": m_is_some_and,
    "range::contains": m_range_contains,
    "cmp::Ord::cmp": m_cmp, "cmp::impls::cmp": m_cmp, "cmp::then_with": m_then_with, "cmp::then": m_then_with, "cmp::reverse": m_ord_reverse,
    "PlineSource::iter_segments": m_src("segs"), "PlineSource::iter_segment_indexes": m_src("segidx"), "PlineSource::iter_vertexes": m_src("verts"),
    "Iterator::next": m_srcnext, "traits::next": m_srcnext, 
    "Float::sin_cos": m_sin_cos, "real::Real::sin_cos": m_sin_cos,
})

ITER_MODELS = {"fold": m_fold, "sum": m_sum, "for_each": m_foreach, "any": m_search("any"), "all": m_search("all"), "find": m_search("find"),
               "find_map": m_search("find_map"), "map": m_lazy("lmap"), "filter": m_lazy("lfilter"), "flat_map": m_lazy("lflat"), "collect": m_collect}

def m_veq(I, fn, fr, b, t, st, args, stack):
    """fuzzy equality of two positions as one atom (its definition is decided by check_math)"""
    a, b_ = deref_arg(I, st, args[0]), deref_arg(I, st, args[1])
    return iter([Out("ret", ("call", "veq", (I.term(a, st), I.term(b_, st), I.term(args[2], st) if len(args) > 2 else ("call", "fuzzy_epsilon", ()))), st)])


VEQ = {"vector2::fuzzy_eq_eps": m_veq, "vector2::fuzzy_eq": m_veq, "Vector2::fuzzy_eq_eps": m_veq, "Vector2::fuzzy_eq": m_veq}

# required methods of the polyline traits: opaque reads and effects of the polyline
TRAIT = "cavalier_contours::polyline::traits::"
REQUIRED = {"vertex_count", "is_closed", "get", "at", "set_vertex", "insert_vertex", "remove", "add_vertex",
            "reserve", "set_is_closed", "clear", "extend_vertexes", "with_capacity", "from_iter"}


class Sym(Interp):
    def __init__(self, prog, opaque=(), models=None, max_depth=14, inline=None):
        m = dict(MODELS)
        if models:
            m.update(models)
        self.opq = set(opaque)
        self.badctr = set()
        self.reset()
        super().__init__(prog, inline or self.want, m, max_depth)

    def reset(self):
        self.entry = {}         # loop unknown -> values at loop entry
        self.back = {}          # header -> [(facts, {unknown: next value})]
        self.ctrs = set()
        self.notctr = set()

    keep_calls = False

    # branches whose condition contradicts the facts of the path (polyhedra) are not followed
    pre = ()
    cn = None

    def feas(self, st):
        if self.cn is None:
            self.cn = Canon()
        ctx = Ctx(self.cn)
        ctx.add_facts(st)
        for t, v in self.pre:
            ctx.add_lit(t, v)
        return P.feasible(ctx.full())

    def cond(self, v, st):
        if v[0] == "not":
            return [(not x, s) for x, s in self.cond(v[1], st)]
        if v[0] == "eq" and (booly(v[1]) or booly(v[2])) and v[1][0] != "c" and v[2][0] != "c":
            return [(x == y, s2) for x, s1 in self.cond(v[1], st) for y, s2 in self.cond(v[2], s1)]
        r = super().cond(v, st)
        if len(r) > 1:
            w = v
            while w[0] == "not":
                w = w[1]
            if w[0] in ("lt", "flt", "fle", "ovf", "eq", "bin"):
                r = [(b, s) for b, s in r if self.feas(s)]
        return r

    def switch(self, fn, v, t, st):
        r = super().switch(fn, v, t, st)
        if len(r) > 1 and v[0] not in ("discr",) and self.prog.tstr(fn.crate, t["ty"]) != "bool":
            r = [(x, s) for x, s in r if self.feas(s)]
        return r

    def want(self, f):
        if f.n in self.opq or f.short in self.opq:
            return False
        if f.j.get("trait") and f.n in REQUIRED and f.j["trait"].startswith(TRAIT):
            return False
        return True

    def binop(self, op, a, b, fl=False):
        if op in ("Add", "Sub", "Mul") and a[0] == "c" and b[0] == "c" and not isinstance(a[1], bool):
            return super().binop(op, a, b, fl)
        if op == "Div" and not fl:
            return ("bin", op, a, b, "int")
        if op == "Add" and b == c(0):
            return a
        if op == "Add" and a == c(0):
            return b
        if op == "Sub" and b == c(0):
            return a
        return super().binop(op, a, b, fl)

    def term(self, v, st, depth=0):
        if v[0] in ("sym",) and not depth:
            m = st.mem.get((("O", v), ()))
            if m is not None:
                return ("now", m, v)
        if v[0] == "ref" and v[1][0] == "O" and v[2] == ():
            m = st.mem.get((v[1], ()))
            if m is not None and v[1][1][0] == "sym":
                return ("now", m, v[1][1])
        return super().term(v, st, depth)

    # induction variables: a location that goes X -> X+1 around a loop is a counter from X
    def widen(self, fn, fr, b, st):
        key = (fr, b)
        n, old = st.visits.get(key, (0, None))
        if old is not None:
            for loc in list(st.mem):
                ov, nv = old.get(loc), st.mem.get(loc)
                if ov is None or nv is None:
                    continue
                name = locname_key(fn, b, loc)
                inc = nv == ("bin", "Add", ov, c(1)) or (ov[0] == "c" and isinstance(ov[1], int) and not isinstance(ov[1], bool) and nv == c(ov[1] + 1))
                if not inc:
                    self.notctr.add(name)       # not advanced by one on every way around
                    continue
                self.ctrs.add(name)
                if name in self.badctr:
                    continue
                if ov[0] == "ctr":
                    st.mem[loc] = ov
                elif n == 1:
                    w = ("ctr", ov, name)
                    st.mem[loc] = w
                    old[loc] = w
                    st.visits[key] = (n, old)
        # iterate's ranges: modelled by generic elements (absint)
        snap = dict(st.mem)
        facts = dict(st.facts)
        pre = dict(old) if old is not None else {}
        r = super().widen(fn, fr, b, st)
        if n:
            now = st.visits[key][1]
            new = {}
            tmp = State()
            tmp.mem = snap
            for loc, val in now.items():
                if val is None:
                    continue
                for w, path in A.loop_parts(val, fn.d, b):
                    o = pre.get(loc)
                    if o is None:
                        if not loc[1]:
                            continue
                        t2 = State()
                        t2.mem = pre
                        o = self.read(t2, *loc)
                    for f in path:
                        o = self.project(o, ("f", f))
                    if o == w:
                        x = self.read(tmp, loc[0], loc[1] + tuple(("f", f) for f in path))
                        new[w] = self.term(x, st)
                    else:
                        self.entry.setdefault(w, []).append(o)
            if new:
                self.back.setdefault((fn.d, b), []).append((facts, new))
        return r

    def std_model(self, fn, fr, b, t, st, nk, args, stack):
        if "iter" in nk or "Iterator" in nk:
            h = ITER_MODELS.get(nk.split("::")[-1])
            if h is not None and args:
                r = h(self, fn, fr, b, t, st, args, stack)
                if r is not NotImplemented:
                    return r
        return super().std_model(fn, fr, b, t, st, nk, args, stack)

    def pull(self, fn, fr, b, t, st, it, stack, fresh=True):
        """the generic element of an iterator term -> [(item | skip | panic, value, state)]"""
        if it[0] in ("lmap", "lfilter"):
            for kind, e, s in self.pull(fn, fr, b, t, st, it[1], stack, fresh):
                if kind != "item":
                    yield kind, e, s
                    continue
                arg = e
                if it[0] == "lfilter":
                    root = ("H", ("flt", fr, b))
                    s.mem[(root, ())] = e
                    arg = ("ref", root, ())
                for o in self.apply(fn, fr, b, t, s, it[2], [arg], stack):
                    if o.kind == "panic":
                        yield "panic", o, o.st
                    elif it[0] == "lmap":
                        yield "item", o.val, o.st
                    else:
                        for v, s3 in self.cond(o.val, o.st):
                            yield ("item" if v else "skip"), e, s3
            return
        if it[0] == "lflat":
            for kind, e, s in self.pull(fn, fr, b, t, st, it[1], stack, fresh):
                if kind != "item":
                    yield kind, e, s
                    continue
                for o in self.apply(fn, fr, b, t, s, it[2], [e], stack):
                    if o.kind == "panic":
                        yield "panic", o, o.st
                    else:
                        yield from self.pull(fn, fr, b, t, o.st, self.as_iter(o.val, o.st), stack, fresh)
            return
        if it[0] == "enum" and has_lazy(it[1]):
            for kind, e, s in self.pull(fn, fr, b, t, st, it[1], stack, fresh):
                yield kind, (tup(("idx", it[1]), e) if kind == "item" else e), s
            return
        e = self.elem(st, it)
        if fresh:
            gens = A.gen_atoms(e)
            if gens:
                st.facts = {k: v for k, v in st.facts.items() if not A.has_sub(k, gens)}
        yield "item", e, st

    def elem(self, st, it):
        if it[0] == "iter" and it[1][0] in ("segs", "segidx", "verts"):
            k, me = it[1]
            n_ = ("call", "segment_count" if k != "verts" else "vertex_count", (me,))
            i = ("idxin", c(0), n_)
            j = ("call", "next_wrapping_index", (me, i))
            at = lambda x: ("call", "at", (me, x))
            return at(i) if k == "verts" else tup(i, j) if k == "segidx" else tup(at(i), at(j))
        if it[0] in ("rev", "skip", "take", "filtered"):
            return ("elem", it)
        return super().elem(st, it)


def locname_key(fn, b, loc):
    return (fn.d, b, A.locname(loc))


# ------------------------------------------------------------------------------------- specification DSL
def feq(a, b, e):
    return ("call", "fuzzy_eq::FuzzyEq::fuzzy_eq_eps", (a, b, e))


class Env:
    """names usable in case tables"""
    def __init__(self, names):
        self.names = names

    def term(self, s):
        return self.ev(ast.parse(s.strip(), mode="eval").body)

    def ev(self, n):
        if isinstance(n, ast.Constant):
            if n.value is None:
                return NONE
            if isinstance(n.value, float):
                return ("fl", repr(n.value))
            return c(n.value)
        if isinstance(n, ast.Name):
            if n.id in self.names:
                return self.names[n.id]
            if n.id == "pi":
                return PI
            raise KeyError("unknown name " + n.id)
        if isinstance(n, ast.Attribute):
            return ("fld", self.ev(n.value), n.attr)
        if isinstance(n, ast.Tuple):
            return tup(*[self.ev(x) for x in n.elts])
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                return ("un", "Neg", self.ev(n.operand))
            if isinstance(n.op, ast.Not):
                return ("not", self.ev(n.operand))
        if isinstance(n, ast.BinOp):
            op = {ast.Add: "Add", ast.Sub: "Sub", ast.Mult: "Mul", ast.Div: "Div", ast.Mod: "Rem"}[type(n.op)]
            return ("bin", op, self.ev(n.left), self.ev(n.right))
        if isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            kw = [(k.arg, self.ev(k.value)) for k in n.keywords]
            if isinstance(n.func, ast.Name) and f in self.names and callable(self.names[f]):
                return self.names[f](*[self.ev(a) for a in n.args])
            args = [self.ev(a) for a in n.args]
            if isinstance(n.func, ast.Attribute):
                return ("call", f, tuple([self.ev(n.func.value)] + args))
            if f == "Some":
                return some(args[0])
            if f == "Ok":
                return ok(args[0])
            if f == "Err":
                return err(args[0])
            if kw:
                return agg("adt", f, 0, f, kw)
            return ("call", f, tuple(args))
        raise ValueError(ast.dump(n))

    def dnf(self, s):
        """condition -> list of conjunctions [(boolterm, val)]"""
        if s is True or s == "True" or s == "":
            return [[]]
        return self.cond(ast.parse(s.strip(), mode="eval").body, True)

    def cond(self, n, pos):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And) == pos
            parts = [self.cond(x, pos) for x in n.values]
            if isand:
                out = [[]]
                for p in parts:
                    out = [a + b for a in out for b in p]
                return out
            return [x for p in parts for x in p]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.cond(n.operand, not pos)
        if isinstance(n, ast.Compare):
            out = [[]]
            left = n.left
            lits = []
            for op, right in zip(n.ops, n.comparators):
                a, b = self.ev(left), self.ev(right)
                fl = isinstance(op, (ast.Is,))
                t = type(op)
                isf = self.floaty(a) or self.floaty(b)
                L = "flt" if isf else "lt"
                if t is ast.Lt:
                    lit = ((L, a, b), True)
                elif t is ast.Gt:
                    lit = ((L, b, a), True)
                elif t is ast.LtE:
                    lit = ((L, b, a), False)
                elif t is ast.GtE:
                    lit = ((L, a, b), False)
                elif t is ast.Eq:
                    lit = (("eq", a, b), True)
                elif t is ast.NotEq:
                    lit = (("eq", a, b), False)
                else:
                    raise ValueError("cmp")
                lits.append(lit)
                left = right
            if pos:
                return [lits]
            return [[(t, not v)] for t, v in lits]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("some", "none"):
            x = self.ev(n.args[0])
            want = (1 if n.func.id == "some" else 0)
            if not pos:
                want = 1 - want
            return [[(("eq", ("discr", x), c(want)), True)]]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "peq":
            # Vector2::fuzzy_eq_eps: both coordinates
            a, b, e = [self.ev(x) for x in n.args]
            fx, fy = feq(("fld", a, "x"), ("fld", b, "x"), e), feq(("fld", a, "y"), ("fld", b, "y"), e)
            return [[(fx, True), (fy, True)]] if pos else [[(fx, False)], [(fx, True), (fy, False)]]
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            return [[]] if n.value == pos else []
        return [[(self.ev(n), pos)]]

    FLOATS = {"x", "y", "bulge"}

    def floaty(self, t):
        if t[0] == "call" and last(t[1]) in ("vertex_count", "len", "segment_count"):
            return False
        for s in subterms(t):
            if isinstance(s, tuple) and s:
                if s[0] == "fld" and s[2] in self.FLOATS or s[0] == "fl" or s == PI:
                    return True
                if s[0] == "sym" and s[1] in getattr(self, "floatsyms", ()):
                    return True
        return False


# ------------------------------------------------------------------------------------- path tables
def argsyms(fn):
    out = []
    for i in range(1, fn.argc + 1):
        out.append(("sym", fn.lname(i) or "_%d" % i))
    return out


class Path:
    __slots__ = ("kind", "val", "ctx", "effects", "st", "panic")


def paths(prog, fn, I=None, args=None, st=None, pre=(), cn=None, opaque=(), split_bool=True, ignore_panics=("assert overflow Add", "assert overflow Mul")):
    """feasible abstract paths of fn"""
    I = I or Sym(prog, opaque)
    cn = cn or Canon()
    args = args if args is not None else argsyms(fn)
    out = []
    I.pre = tuple(pre)
    I.cn = cn
    while True:
        I.paths = 0
        I.reset()
        outs = list(I.run(fn, list(args), st.copy() if st else None))
        bad = I.ctrs & I.notctr
        if bad <= I.badctr:
            break
        I.badctr |= bad
    for o in outs:
        vals = [(o.val, o.st)]
        if o.kind == "ret" and split_bool and o.val is not None and prog.tstr(fn.crate, fn.locals[0][0]) == "bool":
            vals = [(c(b), s) for b, s in I.cond(o.val, o.st)]
        for v, s in vals:
            p = Path()
            p.kind, p.st = o.kind, s
            p.panic = None
            if o.kind == "panic":
                ps = [e for e in s.events if e[0] == "panic"]
                p.panic = ps[-1][1] if ps else "?"
                if any(p.panic.startswith(x) for x in ignore_panics):
                    continue
            p.val = cn(I.term(v, s)) if v is not None else None
            p.ctx = Ctx(cn)
            p.ctx.add_facts(s)
            for t, val in pre:
                p.ctx.add_lit(t, val)
            bad = [e for e in s.events if e[0] == "unsupported"]
            if bad:
                p.panic = "unsupported %s" % (bad[0],)
                p.kind = "panic"
            # constraints of induction variables
            for sub in set(x for e in (s.facts, ) for k in e for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "idxin") | \
                    set(x for e in s.events for x in subterms(e) if isinstance(x, tuple) and x and x[0] == "idxin") | \
                    set(x for x in (subterms(v) if v is not None else ()) if isinstance(x, tuple) and x and x[0] == "idxin"):
                lo, hi = cn.poly(sub[1]), cn.poly(sub[2])
                iv = P.atom(cn(sub))
                p.ctx.cons.append((P.sub(iv, lo), "ge"))
                p.ctx.cons.append((P.add(P.sub(hi, iv), P.const(-1)), "ge"))
            p.effects = [(e[3], cn(("sym", "?")) if False else None, tuple(cn(x) for x in e[4])) for e in s.events if e[0] == "mutcall"]
            if p.ctx.feasible():
                out.append(p)
    return out


def showt(t):
    try:
        return _show(t)
    except RecursionError:
        return "…"


def _show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 9:
        return "…"
    k = t[0]
    if k == "poly":
        parts = []
        for m, co in t[1]:
            s = "·".join(_show(a, d + 1) + ("^%d" % e if e != 1 else "") for a, e in m)
            parts.append(("%s" % co if not s else s if co == 1 else "%s·%s" % (co, s)))
        return "(" + " + ".join(parts) + ")"
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(_show(x, d + 1) for x in t[2]))
    if k == "fld":
        return "%s.%s" % (_show(t[1], d + 1), t[2])
    if k == "sym":
        return t[1]
    if k in ("c", "q"):
        return str(t[1])
    if k == "agg":
        return "%s{%s}" % (t[4] or "", ", ".join("%s: %s" % (n, _show(x, d + 1)) for n, x in t[5]))
    if k == "as":
        return _show(t[1], d)
    if k == "not":
        return "!" + _show(t[1], d + 1)
    if k in ("lt", "flt"):
        return "%s < %s" % (_show(t[1], d + 1), _show(t[2], d + 1))
    if k == "fle":
        return "%s <= %s" % (_show(t[1], d + 1), _show(t[2], d + 1))
    if k == "eq":
        return "%s == %s" % (_show(t[1], d + 1), _show(t[2], d + 1))
    if k == "now":
        return "%s'" % _show(t[2], d + 1)
    return "%s(%s)" % (k, ", ".join(_show(x, d + 1) for x in t[1:]))


def showfacts(st, cn):
    out = []
    for k, v in st.facts.items():
        if k[0] == "b":
            out.append(("" if v else "!") + showt(cn(k[1])))
        elif k[0] == "int":
            out.append("%s%s%s" % (showt(cn(k[1])), "=" if v[0] == "eq" else "!=", v[1] if v[0] == "eq" else sorted(v[1])))
    return " & ".join(out)[:400]


def short(cond):
    return cond if len(cond) < 90 else cond[:70] + "#" + hashlib.sha1(cond.encode()).hexdigest()[:8]


def build_trie(cases, env, cn):
    """cases as a decision tree over their literals (shared prefixes are decided once per path)"""
    root = {"kids": {}, "leaves": []}
    for cond, want in cases:
        for conj in env.dnf(cond):
            node = root
            for t, v in conj:
                t = cn(t)
                while t[0] == "not":
                    t, v = t[1], not v
                node = node["kids"].setdefault((t, v), {"kids": {}, "leaves": []})
            node["leaves"].append((cond, want))
    return root


def walk_trie(node, ctx, leaf, lazy=False):
    """lazy: a case that only opaque answers rule out is left to the leaf to refute"""
    for cond, want in node["leaves"]:
        leaf(ctx, cond, want)
    for (t, v), kid in node["kids"].items():
        k = ctx.lits.get(t)
        if k is None:
            k = ctx.lits.get(ctx.simp(t))
        if k is not None:
            if k == v:
                walk_trie(kid, ctx, leaf, lazy)
            continue
        c2 = ctx.copy()
        c2.add_lit(t, v)
        if lazy and t[0] == "call" or c2.feasible():
            walk_trie(kid, c2, leaf, lazy)


def check_table(rep, prog, fn, cases, env, pre="", key=None, opaque=(), models=None, cn=None, args=None, I=None, effects=None, st=None, lazy=False, **kw):
    """compare the path table of fn with cases [(condition, result | 'panic')]"""
    cn = cn or Canon()
    I = I or Sym(prog, opaque, models)
    key = key or fn.short
    rep.fn(fn)
    pres = env.dnf(pre) if pre else [[]]
    n = 0
    for prec in pres:
        try:
            ps = paths(prog, fn, I, args, st=st.copy() if st else None, pre=prec, cn=cn, **kw)
        except (A.Limit, P.Blowup) as e:
            rep.fail(key + ":limit", "%s: not analysable (%s)" % (fn.d, e))
            return
        rep.count("paths", len(ps))
        trie = build_trie(cases, env, cn)
        for p in ps:
            hit = [0]
            where = "%s (%s:%s)" % (fn.d, fn.file, fn.line)

            def leaf(ctx, cond, want):
                if lazy and not (p.kind != "panic" and want not in ("panic", "any") and p.val == cn(env.term(want))) and not ctx.feasible():
                    return
                hit[0] += 1
                rep.ob()
                if want == "panic":
                    if p.kind != "panic":
                        rep.fail("%s:%s" % (key, short(cond)), "%s: when %s the specification allows only a panic but the function returns %s" % (where, cond or "always", showt(p.val)))
                    return
                if p.kind == "panic":
                    rep.fail("%s:panic:%s" % (key, short(cond)), "%s: when %s the function can panic (%s) on the path [%s] but must return %s" % (where, cond or "always", p.panic, showfacts(p.st, cn), want))
                    return
                if want == "any":
                    return
                w = cn(env.term(want))
                if not ctx.equal(p.val, w) and not ctx.equal(ctx.simp(p.val), ctx.simp(w)):
                    rep.fail("%s:%s" % (key, short(cond)), "%s: when %s the result must be %s, but on the path [%s] it is %s" % (where, cond or "always", want, showfacts(p.st, cn), showt(p.val)))
            walk_trie(trie, p.ctx, leaf, lazy)
            n += hit[0]
            if not hit[0]:
                rep.check(False, key + ":uncovered", "%s (%s:%s): path [%s] matches no specified case" % (fn.d, fn.file, fn.line, showfacts(p.st, cn)))
    rep.count("table functions")
    rep.check(n > 0, key + ":none", "%s: no path matched any specified case" % fn.d)
    return n


# ------------------------------------------------------------------------------------- loops
def loop_comps(t, fields):
    """maximal field chains rooted at a loop symbol in t (with the given fields of bare struct-valued ones)"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        r = x
        while r[0] == "fld" and isinstance(r[1], tuple):
            r = r[1]
        if r[0] == "loop":
            if x not in out:
                out.append(x)
            return
        for y in x:
            go(y)
    go(t)
    return out + [("fld", x, f) for x in out for f in fields]


def root_of(x):
    while x[0] == "fld":
        x = x[1]
    return x


def at_root(cn, x, val):
    """component x with its loop symbol replaced by val"""
    if x[0] == "fld":
        return cn(("fld", at_root(cn, x[1], val), x[2]))
    return cn(val)


def check_fold(rep, prog, fn, env, comps, final, early=(), pre="", inv="", key=None, opaque=(), models=None, over=(("segs", "segidx"), "self"), elems=None, count="segment_count", empty="", I=None, srcs=None):
    """a loop over all elements carrying the components `comps` [(name, initial value, [(condition, next value)])]:
    the function returns, after exhausting the source, one of `final` [(condition, result over the components)],
    or from inside the loop one of `early` [(condition, result)]; every way around the loop maps the components
    as specified, under the inductive invariant `inv`."""
    from itertools import permutations
    cn = Canon()
    I = I or Sym(prog, opaque, models)
    key = key or fn.short
    rep.fn(fn)
    where = "%s (%s:%s)" % (fn.d, fn.file, fn.line)
    names = [n for n, _, _ in comps]
    srcs = srcs or {(k, ("sym", over[1])) for k in over[0]}
    for prec in (env.dnf(pre) if pre else [[]]):
        try:
            ps = paths(prog, fn, I, pre=prec, cn=cn, split_bool=False)
        except (A.Limit, P.Blowup) as e:
            rep.fail(key + ":limit", "%s: not analysable (%s)" % (fn.d, e))
            return
        rep.count("paths", len(ps))
        assigns = set()
        looped = 0
        fields = sorted(set(sub[0] for _, w in list(final) + list(early) for sub in flds_of(env, w, names)))
        trie_f = build_trie([(cond, w) for cond, w in final], env, cn)

        def bind(asg):
            e2 = Env(dict(env.names))
            e2.floatsyms = getattr(env, "floatsyms", ())
            e2.names.update(asg)
            return e2
        pending = []
        for p in ps:
            if p.kind == "panic":
                rep.ob()
                rep.fail(key + ":panic", "%s: can panic (%s) on the path [%s]" % (where, p.panic, showfacts(p.st, cn)))
                continue
            if empty and not any(all(p.ctx.copy_with(l).feasible() for l in [lits]) for lits in env.dnf("not (%s)" % empty)):
                # no element: what the loop carries is what it started with
                p.val = cn(replace(p.val, {w: v[0] for w, v in I.entry.items() if len(set(v)) == 1}))
            cand = loop_comps(p.val, fields)
            inloop = any(e[0] == "loop" for e in p.st.events)
            exh = [e[1] for e in p.st.events if e[0] == "exhausted"]
            done = any(e in srcs or cn(e) in srcs or (isinstance(e, tuple) and e and e[0] == "range" and e[1] == c(0) and cn(e[2]) == cn(("call", count, (("sym", over[1]),)))) for e in exh)
            rep.ob()
            ok_ = False
            if not cand:
                # before the loop, or without an iteration, or early exit
                e2 = bind({n: env.term(i) for n, i, _ in comps})
                ok_ = match_cases(p, build_trie([(cd, w) for cd, w in final if done or not uses(w, names)], e2, cn), e2, cn)
                if not ok_ and early:
                    pending.append(p)
                    continue
            elif done:
                for asg in bindings(p.val, [w for _, w in final if uses(w, names)], names, cand, env, cn):
                    e2 = bind(asg)
                    if match_cases(p, build_trie(final, e2, cn), e2, cn):
                        full = all(root_of(x)[0] == "loop" for x in asg.values())
                        if not full and not all(root_of(asg[n])[0] == "loop" or p.ctx.equal(cn(asg[n]), cn(env.term(i))) for n, i, _ in comps):
                            continue
                        if full:
                            assigns.add(tuple(asg[n] for n in names))
                        ok_ = True
                        looped += 1
                        break
            elif early:
                pending.append(p)
                continue
            if not ok_:
                rep.fail(key + ":result", "%s: on the path [%s]%s the result %s is none of the specified %s" % (
                    where, showfacts(p.st, cn), "" if done else " (which leaves the loop before every element was visited)" if cand or inloop else "", showt(p.val), "; ".join(w for _, w in final)[:200]))
        if looped:
            rep.check(len(assigns) == 1, key + ":components", "%s: the carried values are not the same on all paths" % where)
        perm = sorted(assigns)[0] if assigns else None
        if perm is None:
            if looped == 0 and any(uses(w, names) for _, w in final):
                rep.check(False, key + ":noloop", "%s: no path returns a value accumulated over the elements" % where)
            continue
        asg = dict(zip(names, perm))
        e2 = bind(asg)
        if elems:
            e2.names.update(elems)
        for p in pending:
            p.ctx = p.ctx.copy()
            for t, v in (e2.dnf(inv)[0] if inv else []):
                p.ctx.add_lit(t, v)
            if not p.ctx.feasible():
                continue
            e0 = bind({n: env.term(i) for n, i, _ in comps})
            if elems:
                e0.names.update(elems)
            rep.check(match_cases(p, build_trie(early, e2, cn), e2, cn) or match_cases(p, build_trie(early, e0, cn), e0, cn), key + ":early", "%s: leaves the loop on the path [%s] with %s, which is none of the specified exits" % (where, showfacts(p.st, cn), showt(p.val)))
        base = [p for p in ps if p.kind != "panic" and loop_comps(p.val, fields)]
        for (n, init, _), x in zip(comps, perm):
            ent = I.entry.get(root_of(x), [])
            rep.check(bool(ent), key + ":entry", "%s: initial value of %s not found" % (where, n))
            for v in set(ent):
                got = at_root(cn, x, v)
                w = cn(e2.term(init))
                rep.check(any(p.ctx.equal(got, w) for p in base), key + ":init:" + n, "%s: %s starts as %s, not as %s" % (where, n, showt(got), init))
        backs = []
        roots = set(root_of(x) for x in perm)
        for k, lst in I.back.items():
            for facts, new in lst:
                if roots <= set(new):
                    backs.append((facts, new))
        rep.check(bool(backs), key + ":body", "%s: no loop body found" % where)
        seen = set()
        for facts, new in backs:
            st = State()
            st.facts = dict(facts)
            sig = (tuple(sorted(facts.items(), key=repr)), tuple(sorted(new.items(), key=repr)))
            if sig in seen:
                continue
            seen.add(sig)
            ctx = Ctx(cn)
            ctx.add_facts(st)
            for t, v in prec:
                ctx.add_lit(t, v)
            for t, v in (e2.dnf(inv)[0] if inv else []):
                ctx.add_lit(t, v)
            if not ctx.feasible():
                continue
            rep.count("loop paths")
            for (n, _, steps), x in zip(comps, perm):
                r = root_of(x)
                got = at_root(cn, x, new[r]) if r in new else x
                hit = [0]

                def leaf(cx, cond, want):
                    hit[0] += 1
                    rep.ob()
                    w = cn(e2.term(want))
                    if not cx.equal(got, w) and not cx.equal(cx.simp(got), cx.simp(w)):
                        rep.fail("%s:step:%s:%s" % (key, n, short(cond)), "%s: an iteration in which %s must take %s to %s, but on the path [%s] it becomes %s" % (
                            where, cond or "anything holds", n, want, showfacts(st, cn), showt(got)))
                walk_trie(build_trie(steps, e2, cn), ctx, leaf)
                if not hit[0]:
                    rep.check(False, key + ":uncovered:" + n, "%s: the loop path [%s] matches no specified case for %s" % (where, showfacts(st, cn), n))
    rep.count("loop functions")


def replace(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(replace(x, m) for x in t)


def bindings(val, wants, names, cand, env, cn):
    """candidate assignments of component names to loop-carried terms of val"""
    from itertools import permutations
    seen = set()
    for w in wants:
        e2 = Env(dict(env.names))
        e2.names.update({n: ("sym", "?" + n) for n in names})
        asg = {}

        def unify(a, b):
            if a[0] == "sym" and a[1][:1] == "?":
                asg.setdefault(a[1][1:], b)
            elif a[0] == "agg" and b[0] == "agg" and len(a[5]) == len(b[5]):
                d = dict(b[5])
                for n, x in a[5]:
                    if n in d:
                        unify(x, d[n])
            elif a[0] == "agg" and a[2] not in ("Option", "Result"):
                for n, x in a[5]:
                    unify(x, cn(("fld", b, n)))
            elif a[0] == "agg" and len(a[5]) == 1:
                unify(a[5][0][1], cn(("fld", ("as", b, a[4]), "0")))
        unify(cn(e2.term(w)), val)
        rest = [n for n in names if n not in asg]
        left = [x for x in cand if x not in asg.values()]
        for perm in permutations(left, len(rest)):
            r = dict(asg)
            r.update(zip(rest, perm))
            k = tuple(sorted(r.items(), key=repr))
            if k not in seen:
                seen.add(k)
                yield r


def uses(w, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(ast.parse(w, mode="eval")))


def flds_of(env, w, names):
    """field names of the aggregates a result spec builds over components"""
    out = []
    for x in ast.walk(ast.parse(w, mode="eval")):
        if isinstance(x, ast.Call):
            for k in x.keywords:
                out.append((k.arg,))
    return out


def match_cases(p, trie, env, cn):
    """the path agrees with every case it is compatible with (at least one)"""
    hit, bad = [0], [0]

    def leaf(ctx, cond, want):
        hit[0] += 1
        w = cn(env.term(want))
        if not ctx.equal(p.val, w) and not ctx.equal(ctx.simp(p.val), ctx.simp(w)):
            bad[0] += 1
    walk_trie(trie, p.ctx, leaf)
    return hit[0] > 0 and not bad[0]
