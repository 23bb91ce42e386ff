"""Relational numeric domain: polynomials over atoms (canonical terms) with rational coefficients, and
conjunctions of linear constraints over their monomials (convex polyhedra, emptiness by Fourier-Motzkin)."""
from fractions import Fraction as F
from math import gcd

ZERO = {}


def const(c):
    c = F(c)
    return {(): c} if c else {}


def atom(a):
    return {((a, 1),): F(1)}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mulmon(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items(), key=repr))


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mulmon(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def is_const(a):
    return all(m == () for m in a)


def constval(a):
    return a.get((), F(0))


def key(a):
    return tuple(sorted(a.items(), key=repr))


def inverse(a):
    """1/a: monomials invert exactly; of a sum the common monomial factor and the leading coefficient are
    taken out and the rest becomes an atom"""
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((x, -e) for x, e in m): 1 / c}
    mons = [dict(m) for m in a]
    common = {}
    for x in set(y for m in mons for y in m):
        e = min(m.get(x, 0) for m in mons)
        if e:
            common[x] = e
    inv = tuple(sorted(((x, -e) for x, e in common.items()), key=repr))
    b = mul(a, {inv: F(1)}) if inv else a
    k = key(b)
    lead = k[0][1]
    n = tuple((m, c / lead) for m, c in k)
    return mul({((("sum", n), -1),): 1 / lead}, {inv: F(1)})


class Blowup(Exception):
    pass


_ids = {}
_memo = {}


_rows = {}


def _row(p):
    r = _rows.get(id(p))
    if r is not None and r[0] is p:
        return r[1]
    x = _row0(p)
    if len(_rows) > 300000:
        _rows.clear()
    _rows[id(p)] = (p, x)
    return x


def may_differ(d, cons, mons):
    """d != 0 is consistent with the (feasible) constraints; mons: monomials occurring in them"""
    for m in d:
        if m and m not in mons:
            return True
    return feasible(cons + [(d, "ne")])


def _row0(p):
    """integer row over interned monomials: (constant, ((id, coefficient), ...))"""
    den = 1
    for v in p.values():
        den = den * v.denominator // gcd(den, v.denominator)
    k = 0
    cs = []
    for m, v in p.items():
        n = v.numerator * (den // v.denominator)
        if m == ():
            k = n
        else:
            i = _ids.get(m)
            if i is None:
                i = _ids[m] = len(_ids)
            cs.append((i, n))
    cs.sort()
    return _norm(k, cs)


def _norm(k, cs):
    g = abs(k)
    for _, v in cs:
        g = gcd(g, v)
        if g == 1:
            break
    if g > 1:
        return k // g, tuple((i, v // g) for i, v in cs)
    return k, tuple(cs)


def _comb(r, a, s, b):
    """a*r + b*s"""
    d = {i: v * a for i, v in r[1]}
    for i, v in s[1]:
        x = d.get(i, 0) + v * b
        if x:
            d[i] = x
        else:
            d.pop(i, None)
    return _norm(r[0] * a + s[0] * b, sorted(d.items()))


def feasible(cons, limit=4000):
    """cons: list of (poly, op), op in 'ge' (>=0) 'gt' (>0) 'eq' (=0) 'ne' 'ine' (integer-valued, not 0);
    True when the conjunction may hold"""
    rows = set()
    for p, o in cons:
        k, cs = _row(p)
        if not cs:
            if o == "eq" and k or o in ("ne", "ine") and not k or o == "ge" and k < 0 or o == "gt" and k <= 0:
                return False
            continue
        if o in ("eq", "ne", "ine") and cs[0][1] < 0:
            k, cs = -k, tuple((i, -v) for i, v in cs)
        rows.add((o, k, cs))
    key_ = frozenset(rows)
    r = _memo.get(key_)
    if r is None:
        r = _memo[key_] = _feas(sorted(rows), limit)
    return r


def _feas(rows, limit):
    nes = [r for r in rows if r[0] in ("ne", "ine")]
    rest = [r for r in rows if r[0] not in ("ne", "ine")]
    if nes:
        if not _feas(rest, limit):
            return False
        nes = nes[:8]
        (o, k, cs), others = nes[0], nes[1:]
        neg = tuple((i, -v) for i, v in cs)
        if o == "ine":      # integer valued: at least one apart
            up, dn = ("ge", k - 1, cs), ("ge", -k - 1, neg)
        else:
            up, dn = ("gt", k, cs), ("gt", -k, neg)
        return _feas(rest + others + [up], limit) or _feas(rest + others + [dn], limit)
    eqs = [(k, cs) for o, k, cs in rest if o == "eq"]
    ine = [((k, cs), o == "gt") for o, k, cs in rest if o != "eq"]
    while eqs:
        e = eqs.pop()
        if not e[1]:
            if e[0]:
                return False
            continue
        m, co = min(e[1], key=lambda x: abs(x[1]))

        def subst(r):
            for i, v in r[1]:
                if i == m:
                    # r - (v/co) e, scaled by |co|
                    return _comb(r, abs(co), e, -v if co > 0 else v)
            return r
        eqs = [subst(r) for r in eqs]
        ine = [(subst(r), s) for r, s in ine]
    return _fm(ine, limit)


def _fm(ine, limit):
    work = {}
    for r, s in ine:
        if not r[1]:
            if r[0] < 0 or s and r[0] == 0:
                return False
            continue
        work[r] = work.get(r, False) or s
    while True:
        # drop rows implied by a parallel tighter one
        best = {}
        for (k, cs), s in work.items():
            b = best.get(cs)
            if b is None or k < b[0] or k == b[0] and s:
                best[cs] = (k, s)
        rows = [((k, cs), s) for cs, (k, s) in best.items()]
        vs = {}
        for (k, cs), s in rows:
            for i, v in cs:
                a = vs.setdefault(i, [0, 0])
                a[0 if v > 0 else 1] += 1
        if not vs:
            return True
        m = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1], x))
        pos, neg, work = [], [], {}
        for r, s in rows:
            v = dict(r[1]).get(m, 0)
            if v > 0:
                pos.append((r, s, v))
            elif v < 0:
                neg.append((r, s, v))
            else:
                work[r] = work.get(r, False) or s
        for r, s, v in pos:
            for q, u, w in neg:
                x = _comb(r, -w, q, v)
                st = s or u
                if not x[1]:
                    if x[0] < 0 or st and x[0] == 0:
                        return False
                    continue
                work[x] = work.get(x, False) or st
        if len(work) > limit:
            raise Blowup()
