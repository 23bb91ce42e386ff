"""Disjunctive abstract interpreter over MIR ("property simulation"): every CFG path is walked with
an abstract store whose values are finite terms (constants, parameters, projections, opaque call
results); branches refine a set of facts (nullness, enum variant, integer equality, comparison
outcome); crate-local callees and closures are inlined; loops are widened at their header (every
location that changes becomes an unknown of that loop), so the analysis terminates without bounding
the number of iterations.  No solver, no execution."""
import re

MAXPATHS = 40000


class Limit(Exception):
    pass


def norm(k):
    return re.sub(r"\{impl#\d+\}::", "", k)


WIDE = set()          # discriminants of enums that have not exactly two variants
UNIT = ("agg", "tuple", None, 0, None, ())


def c(v):
    return ("c", v)


def is_true(v):
    return v == ("c", True) or v == ("c", 1)


class State:
    __slots__ = ("mem", "facts", "events", "visits")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.events = ()
        self.visits = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.events = self.events
        s.visits = dict(self.visits)
        return s

    def ev(self, e):
        if e not in self.events:
            self.events = self.events + (e,)


class Out:
    """result of one path of a function body: kind 'ret' or 'panic'"""
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st


def agg(kind, d, vi, vn, fields):
    return ("agg", kind, d, vi, vn, tuple(fields))


def some(v):
    return agg("adt", "core::option::Option", 1, "Some", (("0", v),))


NONE = agg("adt", "core::option::Option", 0, "None", ())


def ok(v):
    return agg("adt", "core::result::Result", 0, "Ok", (("0", v),))


def err(v):
    return agg("adt", "core::result::Result", 1, "Err", (("0", v),))


def tup(*vs):
    return agg("tuple", None, 0, None, [(str(i), v) for i, v in enumerate(vs)])


class Interp:
    keep_calls = True       # pure calls are recorded as events
    def __init__(self, prog, inline=None, models=None, max_depth=12):
        self.prog = prog
        self.inline = inline or (lambda fn: True)
        self.models = models or {}
        self.max_depth = max_depth
        self.paths = 0
        self.may_panic_default = True

    # ---------------------------------------------------------------- entry
    def run(self, fn, args, st=None, frame=("root",), stack=()):
        st = st or State()
        if not stack:
            self.explored = set()
        fr = (frame, fn.d)
        # clear the locals of a previous activation of the same frame
        for k in [k for k in st.mem if k[0][0] == "L" and k[0][1] == fr]:
            del st.mem[k]
        st.visits = {k: v for k, v in st.visits.items() if k[0] != fr}
        for i, a in enumerate(args):
            st.mem[(("L", fr, i + 1), ())] = a
        yield from self.block(fn, fr, 0, st, stack + (fn.d,))

    def block(self, fn, fr, b, st, stack):
        """generator of Out; iterative DFS within this function (inlined calls recurse)"""
        work = [(b, st)]
        headers = self.headers(fn)
        while work:
            b, st = work.pop()
            self.paths += 1
            if self.paths > MAXPATHS:
                raise Limit("too many paths in " + fn.d)
            if b in headers:
                r = self.widen(fn, fr, b, st)
                if not r:
                    continue
            blk = fn.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(fn, fr, st, s[1], self.rvalue(fn, fr, st, s[2]))
                elif s[0] == "sd":
                    st.ev(("unsupported", "setdiscriminant"))
                elif s[0] == "dead":
                    root = ("L", fr, s[1])
                    for k in [k for k in st.mem if k[0] == root]:
                        del st.mem[k]
                # "intr" (assume / copy_nonoverlapping): handled through their calls
            t = blk["t"]
            k = t["t"]
            if k == "goto":
                work.append((t["to"], st))
            elif k == "return":
                v = self.read(st, ("L", fr, 0), ())
                if len(stack) > 1:      # the locals of an inlined callee are gone
                    for k in [k for k in st.mem if k[0][0] == "L" and k[0][1] == fr]:
                        del st.mem[k]
                yield Out("ret", v, st)
            elif k in ("unreachable", "resume", "abort"):
                continue
            elif k == "switch":
                v = self.operand(fn, fr, st, t["on"])
                for tgt, st2 in self.switch(fn, v, t, st):
                    work.append((tgt, st2))
            elif k == "assert":
                v = self.operand(fn, fr, st, t["c"])
                v = self.simplify(v, st)
                want = t["exp"]
                msg = t["msg"]
                ops = tuple(self.operand(fn, fr, st, o) for o in msg[1:] if isinstance(o, dict))
                good, bad = [], []
                for val, st2 in self.cond(v, st):
                    (good if val == want else bad).append(st2)
                for s2 in bad:
                    s2.ev(("panic", "assert " + msg[0] + ((" " + msg[1]) if msg[0] == "overflow" else ""), fn.d, ops))
                    yield Out("panic", None, s2)
                for s2 in good:
                    work.append((t["to"], s2))
            elif k == "drop":
                place = self.resolve(fn, fr, st, t["p"])
                v = self.read(st, *place)
                self.drop_value(fn, fr, st, v, self.prog.tstr(fn.crate, t["ty"]))
                work.append((t["to"], st))
            elif k == "call":
                for o in self.call(fn, fr, b, t, st, stack):
                    if o.kind == "panic":
                        yield o
                    elif t["to"] is None:
                        o.st.ev(("panic", "diverges", fn.d, ()))
                        yield Out("panic", None, o.st)
                    else:
                        self.assign(fn, fr, o.st, t["dst"], o.val)
                        work.append((t["to"], o.st))
            else:
                st.ev(("unsupported", k))

    # ---------------------------------------------------------------- loops
    def headers(self, fn):
        h = getattr(self, "_hdr", None)
        if h is None:
            h = self._hdr = {}
        if fn.d not in h:
            seen, onst, res = set(), set(), set()
            stack = [(0, iter(fn.succs(0)))]
            seen.add(0)
            onst.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s in onst:
                        res.add(s)
                    elif s not in seen:
                        seen.add(s)
                        onst.add(s)
                        stack.append((s, iter(fn.succs(s))))
                        break
                else:
                    onst.discard(b)
                    stack.pop()
            h[fn.d] = res
        return h[fn.d]

    def growing(self, v, key):
        return False

    def widen_value(self, ov, nv, fn, b, loc, key, n):
        return widened(ov, nv, fn.d, b, locname(loc))

    def widen(self, fn, fr, b, st):
        key = (fr, b)
        n, old = st.visits.get(key, (0, None))
        if n == 0:
            st.visits[key] = (1, dict(st.mem))
            st.visits[(key, "roots")] = frozenset(k[0] for k in st.mem)
            st.visits[(key, "gens")] = gen_in((tuple(st.mem.values()), tuple(st.facts)))
            return True
        # what the last iteration found out about its element does not hold of the next one
        known = st.visits.get((key, "gens"), frozenset())
        # locals not yet initialised when the loop was entered cannot be live at its header
        roots = st.visits.get((key, "roots"), frozenset())
        for k in [k for k in st.mem if k[0][0] == "L" and k[0][1] == fr and k[0] not in roots]:
            del st.mem[k]
        st.facts = {k: v for k, v in st.facts.items() if gen_in(k) <= known}
        changed = False
        for loc in set(old) | set(st.mem):
            ov, nv = old.get(loc), st.mem.get(loc)
            if ov != nv or self.growing(nv, key):
                if ov is None and loc[1] and any((loc[0], loc[1][:i]) in old for i in range(len(loc[1]))):
                    # part of a value that was held as a whole
                    o2 = State()
                    o2.mem = old
                    ov = self.read(o2, *loc)
                if nv is None or ov is None:
                    # location appeared/disappeared: forget precise content
                    if loc in st.mem:
                        w = ("loop", fn.d, b, locname(loc))
                        if st.mem[loc] != w and ov is not None:
                            changed = True
                        if ov is None and loc[0][0] != "L":
                            st.mem[loc] = w
                            changed = True
                    continue
                w = self.widen_value(ov, nv, fn, b, loc, key, n)
                st.mem[loc] = w
                if ov != w:
                    changed = True
        # facts established inside the loop about loop unknowns / opaque calls are dropped
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, ("loop",), fn.d)}
        st.ev(("loop", fn.d, b))
        sig = (tuple(sorted(st.mem.items(), key=repr)), tuple(sorted(st.facts.items(), key=repr)), st.events)
        if n >= 2 and (not changed) and old is not None and st.visits.get((key, "sig")) == sig:
            return False
        if n > 40:
            raise Limit("loop does not stabilise in " + fn.d)
        st.visits[key] = (n + 1, dict(st.mem))
        st.visits[(key, "sig")] = sig
        # the same abstract state at the same header was explored on another path already
        full = (key, sig, frozenset((k, tuple(sorted(v[1].items(), key=repr))) for k, v in st.visits.items() if k != key and isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict)))
        if full in self.explored:
            return False
        self.explored.add(full)
        return True

    # ---------------------------------------------------------------- memory
    def resolve(self, fn, fr, st, p):
        root, proj = ("L", fr, p[0]), ()
        for e in p[1]:
            if e[0] == "*":
                v = self.read(st, root, proj)
                root, proj = self.deref(st, v)
            elif e[0] == ".":
                proj = proj + (("f", e[2]),)
            elif e[0] == "d":
                proj = proj + (("d", e[2]),)
            elif e[0] == "i":
                iv = self.read(st, ("L", fr, e[1]), ())
                proj = proj + (("i", iv),)
            elif e[0] == "c" and not e[2]:
                proj = proj + (("i", c(e[1])),)
            else:
                proj = proj + (tuple(str(x) for x in e),)
        return root, proj

    def deref(self, st, v):
        if v[0] == "ref":
            return v[1], v[2]
        if v[0] == "box":
            return v[1], ()
        if v[0] == "ownbox":
            return ("O", v[1]), ()
        return ("O", v), ()

    def read(self, st, root, proj):
        mem = st.mem
        # overrides below
        n = len(proj)
        below = [(k[1][n:], v) for k, v in mem.items() if k[0] == root and len(k[1]) > n and k[1][:n] == proj]
        base = None
        for i in range(n, -1, -1):
            k = (root, proj[:i])
            if k in mem:
                base = mem[k]
                for e in proj[i:]:
                    base = self.project(base, e)
                break
        if base is None:
            if root[0] == "O":
                base = root[1] if root[1][0] == "agg" and root[1][1] == "array" else ("obj", root[1])
                for e in proj:
                    base = self.project(base, e)
            else:
                base = ("undef", locname((root, proj)))
        if below:
            for pr, v in sorted(below, key=lambda x: (len(x[0]), repr(x[0]))):
                base = self.update(base, pr, v)
        return base

    def project(self, v, e):
        if e[0] == "f":
            if v[0] == "agg":
                for n, x in v[5]:
                    if n == e[1]:
                        return x
            if v[0] in ("ownbox", "box") and e[1] in ("0", "1", "pointer"):
                return v            # Box internals: every projection is the pointer itself
            if v[0] == "clo":
                i = int(e[1]) if e[1].isdigit() else None
                if i is not None and i < len(v[2]):
                    return v[2][i]
            return ("fld", v, e[1])
        if e[0] == "d":
            if v[0] == "agg":
                return v
            return ("as", v, e[1])
        if e[0] == "i":
            if v[0] == "agg" and v[1] == "array" and e[1][0] == "c" and e[1][1] < len(v[5]):
                return v[5][e[1][1]][1]
            return ("index", v, e[1])
        return ("proj", v, e)

    def update(self, base, pr, v):
        if not pr:
            return v
        e = pr[0]
        if e[0] == "f" and base[0] == "agg" and any(n == e[1] for n, _ in base[5]):
            return base[:5] + (tuple((n, self.update(x, pr[1:], v) if n == e[1] else x) for n, x in base[5]),)
        if e[0] == "d" and base[0] == "agg":
            return self.update(base, pr[1:], v)
        if e[0] == "i" and base[0] == "agg" and base[1] == "array" and e[1][0] == "c" and e[1][1] < len(base[5]):
            return base[:5] + (tuple((n, self.update(x, pr[1:], v) if j == e[1][1] else x) for j, (n, x) in enumerate(base[5])),)
        return ("upd", base, pr, v)

    def write(self, st, root, proj, v):
        n = len(proj)
        for k in [k for k in st.mem if k[0] == root and len(k[1]) > n and k[1][:n] == proj]:
            del st.mem[k]
        if n and root[0] in ("L", "H") and all(e[0] == "f" for e in proj):
            # a field of an aggregate held in memory: rebuild the aggregate
            for i in range(n):
                base = st.mem.get((root, proj[:i]))
                if base is not None:
                    if self.inagg(base, proj[i:]) and not any(k[0] == root and len(k[1]) > i for k in st.mem):
                        st.mem[(root, proj[:i])] = self.update(base, proj[i:], v)
                        return
                    break
        st.mem[(root, proj)] = v
        if root[0] == "O":
            st.ev(("write", root[1], proj, v))

    def inagg(self, base, proj):
        for e in proj:
            if base[0] != "agg" or base[1] not in ("adt", "tuple") or base[2] in ("core::option::Option", "core::result::Result"):
                return False
            d = dict(base[5])
            if e[1] not in d:
                return False
            base = d[e[1]]
        return True

    def assign(self, fn, fr, st, p, v):
        root, proj = self.resolve(fn, fr, st, p)
        self.write(st, root, proj, v)

    # ---------------------------------------------------------------- values
    def operand(self, fn, fr, st, o):
        if o["o"] in ("copy", "move"):
            root, proj = self.resolve(fn, fr, st, o["p"])
            if root[0] == "O":
                self.on_deref(st, root[1], fn)
            return self.read(st, root, proj)
        if o["o"] == "const":
            ty = self.prog.ty(fn.crate, o["t"])
            if "v" in o:
                return ("c", bool(o["v"]) if ty["s"] == "bool" else o["v"])
            if "f" in o:
                return ("fl", o["f"])
            if ty["k"] == "fndef":
                return ("fn", ty["d"])
            if "promoted" in o:
                return self.promoted(fn, st, o)
            if "named" in o:
                return ("const", norm(o["named"]))
            if ty["s"] == "()":
                return UNIT
            if ty["k"] == "closure":
                return ("clo", ty["d"], ())
            return ("const", o.get("s") or o.get("cty") or "?")
        return ("const", "?")

    def promoted(self, fn, st, o):
        owner = self.prog.fns.get(o["pd"]) or fn
        pr = owner.j["prom"][o["promoted"]]
        # evaluate a straight-line promoted body
        class F:
            pass
        import mir
        j = dict(pr, d=owner.d + "::promoted%d" % o["promoted"], n="promoted", span=owner.j.get("span", ["?", 0]))
        f = mir.Fn(j, owner.crate, self.prog)
        fr = ("prom", f.d)
        for blk in f.blocks:
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(f, fr, st, s[1], self.rvalue(f, fr, st, s[2]))
        return self.read(st, ("L", fr, 0), ())

    def on_deref(self, st, ptr, fn):
        st.ev(("deref", ptr, st.facts.get(("null", ptr))))

    def rvalue(self, fn, fr, st, r):
        k = r["r"]
        if k == "use":
            return self.operand(fn, fr, st, r["a"])
        if k in ("ref", "rawptr"):
            root, proj = self.resolve(fn, fr, st, r["p"])
            if root[0] == "O":
                if proj == ():
                    if root[1][0] in ("sym", "call", "fld", "as", "elem", "obj", "loop"):
                        if k == "ref":
                            self.on_deref(st, root[1], fn)
                        return root[1]
                else:
                    self.on_deref(st, root[1], fn)
            return ("ref", root, proj)
        if k == "bin":
            a = self.operand(fn, fr, st, r["a"])
            b = self.operand(fn, fr, st, r["b"])
            op = r["op"]
            fl = self.prog.operand_ty(fn, r["a"])["s"] in ("f64", "f32")
            if op.endswith("WithOverflow"):
                base = op[:-len("WithOverflow")]
                v = self.binop(base, a, b, fl)
                return tup(v, ("ovf", base, a, b) if v[0] != "c" else c(v[1] < 0 and self.prog.operand_ty(fn, r["a"])["s"].startswith("u")))
            return self.binop(op, a, b, fl)
        if k == "un":
            a = self.operand(fn, fr, st, r["a"])
            if r["op"] == "Not":
                return self.neg(a)
            if a[0] == "c" and r["op"] == "Neg":
                return c(-a[1])
            if r["op"] == "PtrMetadata":
                if a[0] == "ref":
                    v = self.read(st, a[1], a[2])
                    if v[0] == "agg" and v[1] == "array":
                        return c(len(v[5]))
                return ("len", a)
            return ("un", r["op"], a)
        if k == "cast":
            a = self.operand(fn, fr, st, r["a"])
            fs = self.prog.operand_ty(fn, r["a"])["s"]
            ts = self.prog.tstr(fn.crate, r["t"])
            kk = r["k"]
            if kk.startswith(("PtrToPtr", "PointerCoercion", "Transmute", "BoxDerefTransmute")) or fs == ts:
                return a
            if a[0] == "c" and kk.startswith("IntToInt"):
                return c(int(a[1]))
            if kk.startswith("IntToInt"):
                return intcast(fs, ts, a)
            return ("cast", fs, ts, a)
        if k == "discr":
            root, proj = self.resolve(fn, fr, st, r["p"])
            v = self.read(st, root, proj)
            if v[0] == "agg":
                return c(v[3])
            ty = self.prog.place_ty(fn, r["p"])
            if self.nvariants(ty) != 2:
                WIDE.add(("discr", v))
            return ("discr", v)
        if k == "agg":
            ops = [self.operand(fn, fr, st, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "adt":
                return agg("adt", r["d"], r["v"], r["vn"], list(zip(r["names"], ops)))
            if kk == "tuple":
                return tup(*ops)
            if kk == "closure":
                return ("clo", r["d"], tuple(ops))
            if kk == "array":
                return agg("array", None, 0, None, [(str(i), v) for i, v in enumerate(ops)])
            return ("aggother", tuple(ops))
        if k == "repeat":
            v = self.operand(fn, fr, st, r["a"])
            if r.get("n") is not None and r["n"] <= 8:
                return agg("array", None, 0, None, [(str(i), v) for i in range(r["n"])])
            return ("repeat", v)
        return ("opaque", str(r.get("s", k)))

    def neg(self, a):
        if a[0] == "c":
            return c(not a[1]) if isinstance(a[1], bool) else c(~a[1])
        if a[0] == "not":
            return a[1]
        return ("not", a)

    def binop(self, op, a, b, fl=False):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Eq": lambda: x == y,
                 "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y,
                 "Ge": lambda: x >= y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                 "BitXor": lambda: x ^ y}.get(op)
            if f:
                return c(f())
        if op in ("Eq", "Ne") and a == b and not fl:
            return c(op == "Eq")
        if op == "Eq":
            return ("eq",) + ((a, b) if b[0] == "c" or (a[0] != "c" and repr(a) <= repr(b)) else (b, a))
        if op == "Ne":
            return self.neg(self.binop("Eq", a, b, fl))
        if not fl:
            if op == "Lt":
                return ("lt", a, b)
            if op == "Ge":
                return ("not", ("lt", a, b))
            if op == "Gt":
                return ("lt", b, a)
            if op == "Le":
                return ("not", ("lt", b, a))
        if fl and op in ("Lt", "Gt", "Le", "Ge"):
            if op in ("Gt", "Ge"):
                a, b = b, a
                op = {"Gt": "Lt", "Ge": "Le"}[op]
            return ("f" + op.lower(), a, b)
        if op in ("BitAnd", "BitOr"):
            for u, w in ((a, b), (b, a)):
                if u[0] == "c" and isinstance(u[1], bool):
                    if op == "BitAnd":
                        return w if u[1] else c(False)
                    return c(True) if u[1] else w
        return ("bin", op, a, b)

    # ---------------------------------------------------------------- branching
    def simplify(self, v, st):
        if v[0] == "not":
            w = self.simplify(v[1], st)
            return self.neg(w)
        if v[0] == "isnull":
            f = st.facts.get(("null", v[1]))
            if v[1][0] in ("ref", "box"):
                return c(False)
            if v[1] == ("nullptr",):
                return c(True)
            if f is not None:
                return c(f)
            return v
        if v[0] == "eq":
            a, b = v[1], v[2]
            if b == ("nullptr",):
                return self.simplify(("isnull", a), st)
            if a == ("nullptr",):
                return self.simplify(("isnull", b), st)
            if b[0] == "c":
                f = st.facts.get(("int", a))
                if f is not None:
                    if f[0] == "eq":
                        return c(f[1] == b[1])
                    if b[1] in f[1]:
                        return c(False)
        if v[0] == "bin" and v[1] in ("BitAnd", "BitOr"):
            a, b = self.simplify(v[2], st), self.simplify(v[3], st)
            return self.binop(v[1], a, b)
        f = st.facts.get(("b", v))
        if f is not None:
            return c(f)
        return v

    def assume(self, v, val, st):
        """record v == val (bool) in st"""
        if v[0] == "not":
            return self.assume(v[1], not val, st)
        if v[0] == "isnull":
            st.facts[("null", v[1])] = val
            return
        if v[0] == "eq" and v[2][0] == "c":
            self.assume_int(v[1], v[2][1], val, st)
            return
        st.facts[("b", v)] = val

    def assume_int(self, t, n, eq, st):
        k = ("int", t)
        if eq:
            st.facts[k] = ("eq", n)
        else:
            f = st.facts.get(k)
            s = f[1] if f and f[0] == "ne" else frozenset()
            st.facts[k] = ("ne", s | {n})

    def cond(self, v, st):
        """fork on a boolean value -> [(bool, state)]"""
        v = self.simplify(v, st)
        if v[0] == "c":
            return [(bool(v[1]), st)]
        if v[0] == "bin" and v[1] == "BitAnd":
            out = []
            for x, s in self.cond(v[2], st):
                out += self.cond(v[3], s) if x else [(False, s)]
            return out
        if v[0] == "bin" and v[1] == "BitOr":
            out = []
            for x, s in self.cond(v[2], st):
                out += self.cond(v[3], s) if not x else [(True, s)]
            return out
        s1, s2 = st.copy(), st.copy()
        self.assume(v, True, s1)
        self.assume(v, False, s2)
        return [(True, s1), (False, s2)]

    def nvariants(self, ty):
        d = ty.get("d", "") if ty["k"] == "adt" else ""
        if d in self.prog.adts:
            return len(self.prog.adts[d]["vars"])
        return 2 if d.split("::")[-1] in ("Option", "Result", "Control", "ControlFlow", "Cow") else None

    def variant(self, v, st, nvar=2):
        """-> known variant index or None"""
        if v[0] == "agg":
            return v[3]
        f = st.facts.get(("int", ("discr", v)))
        if f and f[0] == "eq":
            return f[1]
        if f and f[0] == "ne" and nvar == 2 and len(f[1]) == 1:
            return 1 - next(iter(f[1]))
        return None

    def split_variant(self, v, st):
        """fork a 2-variant enum value -> [(index, payload accessor value, state)]"""
        k = self.variant(v, st)
        if k is not None:
            return [(k, st)]
        out = []
        for i in (0, 1):
            s = st.copy()
            self.assume_int(("discr", v), i, True, s)
            out.append((i, s))
        return out

    def payload(self, v, vn):
        if v[0] == "agg":
            return v[5][0][1] if v[5] else UNIT
        return ("fld", ("as", v, vn), "0")

    def switch(self, fn, v, t, st):
        v = self.simplify(v, st)
        ty = None
        cases = t["cases"]
        if v[0] == "c":
            n = int(v[1])
            for val, tgt in cases:
                if val == n:
                    return [(tgt, st)]
            return [(t["else"], st)]
        if self.prog.tstr(fn.crate, t["ty"]) == "bool":
            out = []
            for b, s in self.cond(v, st):
                n = int(b)
                tgt = t["else"]
                for val, tg in cases:
                    if val == n:
                        tgt = tg
                out.append((tgt, s))
            return out
        out = []
        f = st.facts.get(("int", v))
        for val, tgt in cases:
            if f and ((f[0] == "eq" and f[1] != val) or (f[0] == "ne" and val in f[1])):
                continue
            s = st.copy()
            self.assume_int(v, val, True, s)
            out.append((tgt, s))
        if not (f and f[0] == "eq" and any(val == f[1] for val, _ in cases)):
            s = st.copy()
            for val, _ in cases:
                self.assume_int(v, val, False, s)
            out.append((t["else"], s))
        return out

    # ---------------------------------------------------------------- drops
    def drop_value(self, fn, fr, st, v, ty):
        if v[0] in ("undef",):
            return
        if v[0] == "ownbox":
            st.ev(("free", v[1], "loop" if any(e[0] == "loop" for e in st.events) else ""))
            self.drop_inner(fn, fr, st, v[1], ty)
        elif v[0] == "box":
            st.ev(("free", ("ref", v[1], ()), ""))
        else:
            st.ev(("drop", v, ty))

    def drop_inner(self, fn, fr, st, ptr, ty):
        """hook: user Drop impl of the pointee"""
        m = re.match(r"(?:std::boxed::)?Box<([\w:]+)", ty)
        if not m:
            return
        name = m.group(1).split("::")[-1]
        self.run_drop_impl(st, name, ("ref", ("O", ptr), ()) if ptr[0] != "ref" else ptr)

    def run_drop_impl(self, st, adt, selfref):
        for f in self.prog.fns.values():
            if f.n == "drop" and f.j.get("impl_trait", "").endswith("::Drop"):
                t = self.prog.ty(f.crate, f.j["impl_self"])
                if t["k"] == "adt" and t["d"].split("::")[-1] == adt:
                    # effects only; take the union of events over its paths
                    for o in list(self.run(f, [selfref], st.copy(), frame=("drop", adt))):
                        for e in o.st.events:
                            st.ev(e)

    # ---------------------------------------------------------------- calls
    def term(self, v, st, depth=0):
        """erase references: the content snapshot of a value (for opaque call arguments)"""
        if v[0] == "ref":
            if depth > 6:
                return ("deep",)
            return self.term(self.read(st, v[1], v[2]), st, depth + 1)
        if v[0] == "agg":
            return v[:5] + (tuple((n, self.term(x, st, depth + 1)) for n, x in v[5]),)
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.term(x, st, depth + 1) for x in v[2]))
        if v[0] == "box":
            return ("boxed", self.term(self.read(st, v[1], ()), st, depth + 1))
        return v

    def call(self, fn, fr, b, t, st, stack):
        args = [self.operand(fn, fr, st, a) for a in t["args"]]
        cc = t["c"]
        # indirect call through a function value
        if "ptr" in cc:
            fv = self.operand(fn, fr, st, t["f"]) if t["f"] else ("?",)
            yield from self.apply(fn, fr, b, t, st, fv, args, stack)
            return
        key = cc.get("r") or cc["d"]
        nk = norm(key)
        site = (fr, b)
        for pat, h in self.models.items():
            if nk == pat or nk.endswith("::" + pat):
                r = h(self, fn, fr, b, t, st, args, stack)
                if r is not NotImplemented:
                    yield from r
                    return
        r = self.std_model(fn, fr, b, t, st, nk, args, stack)
        if r is not NotImplemented:
            yield from r
            return
        g = self.prog.fns.get(key)
        if g is not None and g.kind in ("Fn", "AssocFn", "Closure") and self.inline(g) and g.d not in stack and len(stack) < self.max_depth:
            if g.kind == "Closure" and len(args) == 2 and "ops::function" in cc.get("d", ""):
                # Fn*::call(closure, (args...)): the argument tuple is spread over the closure's parameters
                tup_ = args[1]
                av = [x for _, x in tup_[5]] if tup_[0] == "agg" else [("fld", tup_, str(i)) for i in range(g.argc - 1)]
                selfv = args[0]
                if g.lty(1)["k"] != "ref" and selfv[0] == "ref":
                    selfv = self.read(st, selfv[1], selfv[2])
                args = [selfv] + av
            yield from self.run(g, args, st, frame=site, stack=stack)
            return
        yield self.opaque(fn, fr, b, t, st, nk, args)

    def opaque(self, fn, fr, b, t, st, nk, args):
        targs = tuple(self.term(a, st) for a in args)
        name = nk
        val = ("call", name, targs)
        if self.keep_calls:
            st.ev(("call", name, targs))
        # mutable references escape: their content is replaced
        for i, a in enumerate(args):
            ty = self.prog.operand_ty(fn, t["args"][i])
            if ty["k"] == "ref" and ty["mut"]:
                root, proj = self.deref(st, a)
                if root[0] == "O":
                    st.ev(("mutcall", root[1], proj, name, targs))
                    for k in [k for k in st.mem if k[0] == root and k[1][:len(proj)] == proj]:
                        del st.mem[k]
                    st.mem[(root, proj)] = ("after", val, i)
                else:
                    self.write(st, root, proj, ("after", val, i))
        return Out("ret", val, st)

    def apply(self, fn, fr, b, t, st, fv, args, stack):
        """call a closure / fn value"""
        if fv[0] == "ref":
            inner = self.read(st, fv[1], fv[2])
            if inner[0] in ("clo", "fn"):
                fv2 = inner
            else:
                fv2 = inner
        else:
            fv2 = fv
        if fv2[0] == "agg" and fv2[1] == "adt" and len(fv2[5]) == 1:   # AssertUnwindSafe(f)
            fv2 = fv2[5][0][1]
        if fv2[0] == "clo":
            g = self.prog.fns.get(fv2[1])
            if g is not None:
                sty = g.lty(1)
                if sty["k"] == "ref":
                    if fv[0] == "ref":
                        selfv = fv
                    else:
                        root = ("H", ("clo", fr, b))
                        st.mem[(root, ())] = fv2
                        selfv = ("ref", root, ())
                else:
                    selfv = fv2
                yield from self.run(g, [selfv] + list(args), st, frame=(fr, b, "clo"), stack=stack)
                return
        if fv2[0] == "fn":
            g = self.prog.fns.get(fv2[1])
            if g is not None and self.inline(g):
                yield from self.run(g, list(args), st, frame=(fr, b, "fn"), stack=stack)
                return
            # constructor of a tuple struct/variant, or an external function
            ext = norm(fv2[1])
            if ext.split("::")[-1] == "{constructor}" or ext.split("::")[-1][:1].isupper():
                yield Out("ret", agg("adt", "ctor:" + ext, 0, ext.split("::")[-1], [(str(i), a) for i, a in enumerate(args)]), st)
                return
            tt = dict(t)
            v = ("call", ext, tuple(self.term(a, st) for a in args))
            if self.keep_calls:
                st.ev(("call", ext, v[2]))
            yield Out("ret", v, st)
            return
        v = ("call", "apply", (fv2,) + tuple(self.term(a, st) for a in args))
        if self.keep_calls:
            st.ev(("call", "apply", v[2]))
        yield Out("ret", v, st)

    # iterators are modelled by an abstract element
    def elem(self, st, it):
        """generic element of iterator term -> list of (value, state)"""
        if it[0] == "iter":
            x = it[1]
            if x[0] == "range":
                return ("idxin", x[1], x[2])
            return ("elem", x)
        if it[0] == "enum":
            return tup(("idx", it[1]), self.elem(st, it[1]))
        if it[0] == "zip":
            return tup(self.elem(st, it[1]), self.elem(st, it[2]))
        if it[0] == "mapped":
            return it[2]
        if it[0] in ("rev", "skip", "take", "filtered"):
            return self.elem(st, it[1])
        return ("elem", it)

    def std_model(self, fn, fr, b, t, st, nk, args, stack):
        name = nk.split("::")[-1]
        T = lambda v: self.term(v, st)
        R = lambda v: iter([Out("ret", v, st)])
        A = args
        if nk.endswith(("ptr::const_ptr::is_null", "ptr::mut_ptr::is_null")):
            return R(("isnull", A[0]))
        if nk in ("core::ptr::null", "core::ptr::null_mut"):
            return R(("nullptr",))
        if nk.endswith(("const_ptr::cast", "mut_ptr::cast", "mut_ptr::cast_const", "const_ptr::cast_mut")):
            return R(A[0])
        if nk.endswith(("ptr::mut_ptr::write", "core::ptr::write")):
            root, proj = self.deref(st, A[0])
            if root[0] == "O":
                self.on_deref(st, root[1], fn)
            self.write(st, root, proj, A[1])
            return R(UNIT)
        if nk.endswith(("ptr::const_ptr::read", "ptr::mut_ptr::read", "core::ptr::read")):
            root, proj = self.deref(st, A[0])
            if root[0] == "O":
                self.on_deref(st, root[1], fn)
            return R(self.read(st, root, proj))
        if nk.endswith(("const_ptr::as_ref", "mut_ptr::as_ref", "mut_ptr::as_mut")):
            def g():
                for isn, s in self.cond(("isnull", A[0]), st):
                    yield Out("ret", NONE if isn else some(A[0]), s)
            return g()
        if nk.endswith("non_null::new"):
            def g():
                for isn, s in self.cond(("isnull", A[0]), st):
                    yield Out("ret", NONE if isn else some(A[0]), s)
            return g()
        if nk.endswith(("non_null::as_ptr", "non_null::as_ref", "non_null::as_mut")):
            v = A[0]
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            return R(v)
        if nk.endswith("panic::catch_unwind") or nk.endswith("panicking::catch_unwind"):
            def g():
                st.ev(("enter_catch",))
                pan = st.copy()
                pan.ev(("panicked",))
                pan.ev(("exit_catch",))
                for o in self.apply(fn, fr, b, t, st, A[0], [], stack):
                    if o.kind == "ret":
                        o.st.ev(("exit_catch",))
                        yield Out("ret", ok(o.val), o.st)
                # one abstract panic outcome, from any point of the closure
                yield Out("ret", err(("payload",)), pan)
            return g()
        if nk.endswith("boxed::new"):
            root = ("H", (fr, b))
            st.mem[(root, ())] = A[0]
            st.ev(("alloc", root))
            return R(("box", root))
        if nk.endswith("boxed::into_raw") or nk.endswith("boxed::leak"):
            v = A[0]
            if v[0] == "box":
                st.ev(("leak", v[1]))
                return R(("ref", v[1], ()))
            if v[0] == "ownbox":
                return R(v[1])
        if nk == "alloc::boxed::drop":          # box_free after the contents were moved out
            v = A[0]
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            if v[0] == "ownbox":
                st.ev(("free", v[1], "loop" if any(e[0] == "loop" for e in st.events) else ""))
            elif v[0] == "box":
                st.ev(("free", ("ref", v[1], ()), ""))
            return R(UNIT)
        if nk.endswith("boxed::from_raw"):
            self_p = A[0]
            if self_p[0] == "ref" and self_p[1][0] == "O" and self_p[2] == ():
                self_p = self_p[1][1]
            st.ev(("own", self_p, st.facts.get(("null", self_p))))
            return R(("ownbox", self_p))
        if nk in ("core::mem::drop",):
            ty = self.prog.operand_ty(fn, t["args"][0])["s"]
            self.drop_value(fn, fr, st, A[0], ty)
            return R(UNIT)
        if nk == "core::mem::forget":
            st.ev(("forget", T(A[0])))
            return R(UNIT)
        if nk.endswith(("slice::raw::from_raw_parts", "slice::raw::from_raw_parts_mut")):
            st.ev(("rawslice", A[0], A[1], st.facts.get(("null", A[0])), st.facts.get(("int", A[1]))))
            return R(("slice", A[0], A[1]))
        # ---- Option / Result
        opt = re.search(r"(option|result)::(\w+)$", nk)
        if opt and not nk.endswith(("::next", "::clone", "::eq")):
            r = self.opt_model(fn, fr, b, t, st, opt.group(1), opt.group(2), args, stack)
            if r is not NotImplemented:
                return r
        if name == "branch" and "try_trait" in t["c"].get("trait", t["c"]["d"]):
            def g():
                v = A[0]
                isres = "Result" in self.prog.operand_ty(fn, t["args"][0])["s"].split("<")[0]
                for i, s in self.split_variant(v, st):
                    if isres:
                        cont = i == 0
                        pay = self.payload(v, "Ok" if cont else "Err")
                    else:
                        cont = i == 1
                        pay = self.payload(v, "Some")
                    if cont:
                        yield Out("ret", agg("adt", "ControlFlow", 0, "Continue", (("0", pay),)), s)
                    else:
                        yield Out("ret", agg("adt", "ControlFlow", 1, "Break", (("0", err(pay) if isres else NONE),)), s)
            return g()
        if name == "from_residual":
            return R(A[0])
        if name == "from_output":
            return NotImplemented
        # ---- closures
        if name in ("call_once", "call_mut", "call") and "ops::function" in t["c"].get("d", ""):
            tupargs = A[1]
            if tupargs[0] == "agg":
                av = [x for _, x in tupargs[5]]
            else:
                av = [("fld", tupargs, str(i)) for i in range(2)]
            return self.apply(fn, fr, b, t, st, A[0], av, stack)
        # ---- iteration
        if name == "into_iter":
            v = A[0]
            if v[0] in ITERS:
                return R(v)
            if v[0] == "agg" and v[2] and v[2].endswith("Range"):
                d = dict(v[5])
                return R(("iter", ("range", d["start"], d["end"])))
            return R(("iter", T(v)))
        if nk.endswith(("slice::iter", "slice::iter_mut", "vec::drain")):
            return R(("iter", T(A[0])))
        if nk.endswith("slice::get") and len(A) == 2:
            arr, ix = strip_obj(T(A[0])), A[1]
            if arr[0] == "agg" and arr[1] == "array" and all(x[0] in ("c", "agg") for _, x in arr[5]):
                def g():
                    for i, (_, x) in enumerate(arr[5]):
                        for hit, s in self.cond(("eq", strip_ext(ix), c(i)), st.copy()):
                            if hit:
                                yield Out("ret", some(x), s)
                    s = st
                    for i in range(len(arr[5])):
                        rest = [s2 for hit, s2 in self.cond(("eq", strip_ext(ix), c(i)), s) if not hit]
                        if not rest:
                            return
                        s = rest[0]
                    yield Out("ret", NONE, s)
                return g()
        if name == "enumerate":
            return R(("enum", self.as_iter(A[0], st)))
        if name == "zip" and "iter" in nk:
            return R(("zip", self.as_iter(A[0], st), self.as_iter(A[1], st)))
        if name == "chain" and "iter" in nk:
            a, b_ = self.as_iter(A[0], st), self.as_iter(A[1], st)
            if a[0] == b_[0] == "iter":
                return R(("iter", ("call", "chain", (a[1], b_[1]))))
        if name in ("rev", "copied", "cloned", "by_ref", "fuse", "peekable") and "iter" in nk:
            return R(("rev", self.as_iter(A[0], st)) if name == "rev" else self.as_iter(A[0], st))
        if name == "map" and "iter" in nk:
            def g():
                it = self.as_iter(A[0], st)
                e = self.elem(st, it)
                for o in self.apply(fn, fr, b, t, st, A[1], [e], stack):
                    if o.kind == "panic":
                        yield o
                    else:
                        yield Out("ret", ("mapped", it, o.val), o.st)
            return g()
        if name == "for_each" and "iter" in nk:
            def g():
                it = self.as_iter(A[0], st)
                e = self.elem(st, it)
                s0 = st.copy()
                s0.ev(("each", srcs(it), False))
                yield Out("ret", UNIT, s0)
                st.ev(("each", srcs(it), True))
                for o in self.apply(fn, fr, b, t, st, A[1], [e], stack):
                    if o.kind == "ret":
                        o = Out("ret", UNIT, o.st)
                    yield o
            return g()
        if name == "collect" and "iter" in nk:
            it = self.as_iter(A[0], st)
            return R(("coll", srcs(it), self.elem(st, it)))
        if name == "next" and ("iter" in nk or "Iterator" in nk):
            it = A[0]
            if it[0] == "ref":
                it = self.read(st, it[1], it[2])
            it = self.as_iter(it, st)
            def g():
                s1 = st.copy()
                s1.ev(("exhausted", srcs(it)))
                yield Out("ret", NONE, s1)
                if strip_obj(srcs(it)) == agg("array", None, 0, None, ()):
                    return
                e = self.elem(st, it)
                # a new element: what was known of the previous one does not carry over
                gens = gen_atoms(e)
                if gens:
                    st.facts = {k: v for k, v in st.facts.items() if not has_sub(k, gens)}
                yield Out("ret", some(e), st)
            return g()
        if nk in ("alloc::vec::pop", "alloc::collections::vec_deque::pop_front", "alloc::collections::vec_deque::pop_back"):
            def g():
                old = T(A[0])
                v = ("call", nk, (old,))
                k = self.variant(v, st)
                if k in (0, None):
                    s1 = st.copy()
                    self.assume_int(("discr", v), 0, True, s1)
                    s1.ev(("call", nk, (old,)))
                    yield Out("ret", NONE, s1)       # empty: nothing removed
                s2 = st
                self.assume_int(("discr", v), 1, True, s2)
                o = self.opaque(fn, fr, b, t, s2, nk, A)
                yield Out("ret", some(("fld", ("as", v, "Some"), "0")), o.st)
            return g()
        # ---- misc
        if name in ("deref", "deref_mut", "as_slice", "as_mut_slice", "borrow", "as_ref", "as_mut", "as_ptr") and len(A) == 1 and ("vec" in nk or "boxed" in nk or "Deref" in nk or "ops::deref" in nk):
            return R(A[0])
        if name == "clone":
            return R(("call", "clone", (T(A[0]),)))
        if nk.endswith("convert::num::ptr_try_from_impls::try_from") or name in ("try_from", "try_into"):
            ft = self.prog.operand_ty(fn, t["args"][0])["s"]
            tt = self.prog.place_ty(fn, t["dst"])["s"]
            return R(("call", "try_from", (A[0], ("const", tt))))
        if nk in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
            root, proj = self.deref(st, A[0])
            old = self.read(st, root, proj)
            if name == "replace":
                self.write(st, root, proj, A[1])
                return R(old)
            if name == "take":
                self.write(st, root, proj, ("default",))
                return R(old)
            r2, p2 = self.deref(st, A[1])
            o2 = self.read(st, r2, p2)
            self.write(st, root, proj, o2)
            self.write(st, r2, p2, old)
            return R(UNIT)
        if name in ("from", "into") and len(A) == 1:
            ft = self.prog.operand_ty(fn, t["args"][0])["s"]
            tt = self.prog.place_ty(fn, t["dst"])["s"]
            if ft == tt:
                return R(A[0])
            if ft in INTW and tt in INTW or ft == "bool" and tt in INTW:
                return R(intcast(ft, tt, A[0]))
        if name in ("eq", "ne") and "cmp" in t["c"].get("d", "") and len(A) == 2:
            a, bb = T(A[0]), T(A[1])
            v = self.enum_eq(a, bb) or self.enum_eq(bb, a) or self.binop("Eq", a, bb)
            return R(v if name == "eq" else self.neg(v))
        if nk.startswith("core::panicking") or nk.startswith("std::rt::begin_panic") or nk.endswith(("unwrap_failed", "expect_failed", "panic_fmt")):
            def g():
                st.ev(("panic", name, fn.d, ()))
                yield Out("panic", None, st)
            return g()
        return NotImplemented

    def enum_eq(self, v, k):
        """comparison with a fieldless enum variant"""
        if k[0] != "agg" or k[1] != "adt" or k[5] or k[4] is None or k[4] == str(k[2]).split("::")[-1]:
            return None
        if v[0] == "agg":
            return c(v[4] == k[4])
        ad = self.prog.adts.get(k[2])
        if ad is None or len(ad["vars"]) != 2:
            WIDE.add(("discr", v))
        return ("eq", ("discr", v), c(k[3]))

    def as_iter(self, v, st):
        if v[0] == "ref":
            v = self.read(st, v[1], v[2])
        if v[0] in ITERS:
            return v
        if v[0] == "agg" and v[2] and str(v[2]).endswith("Range"):
            d = dict(v[5])
            return ("iter", ("range", d["start"], d["end"]))
        return ("iter", self.term(v, st))

    def opt_model(self, fn, fr, b, t, st, ty, m, A, stack):
        isres = ty == "result"
        v = A[0]
        pos = "Ok" if isres else "Some"
        def okidx(i):
            return (i == 0) if isres else (i == 1)
        def deref_self():
            x = v
            if x[0] == "ref":
                x = self.read(st, x[1], x[2])
            return x
        if m in ("is_some", "is_ok", "is_none", "is_err"):
            x = deref_self()
            wantok = m in ("is_some", "is_ok")
            if x[0] == "agg":
                return iter([Out("ret", c(okidx(x[3]) == wantok), st)])
            idx = (0 if isres else 1)
            tv = ("eq", ("discr", x), c(idx))
            f = self.variant(x, st)
            if f is not None:
                return iter([Out("ret", c(okidx(f) == wantok), st)])
            def g():
                for i, s in self.split_variant(x, st):
                    yield Out("ret", c(okidx(i) == wantok), s)
            return g()
        if m in ("unwrap", "expect"):
            def g():
                for i, s in self.split_variant(v, st):
                    if okidx(i):
                        yield Out("ret", self.payload(v, pos), s)
                    else:
                        s.ev(("panic", m, fn.d, (self.term(v, s),)))
                        yield Out("panic", None, s)
            return g()
        if m in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else"):
            def g():
                for i, s in self.split_variant(v, st):
                    p = self.payload(v, pos if okidx(i) else "Err")
                    if okidx(i):
                        if m.startswith("map_or"):
                            yield from self.apply(fn, fr, b, t, s, A[2], [p], stack)
                        else:
                            yield Out("ret", p, s)
                    elif m in ("unwrap_or", "map_or"):
                        yield Out("ret", A[1], s)
                    elif m in ("unwrap_or_else", "map_or_else"):
                        yield from self.apply(fn, fr, b, t, s, A[1], [p] if isres else [], stack)
                    else:
                        yield Out("ret", ("default",), s)
            return g()
        if m in ("map", "and_then"):
            def g():
                for i, s in self.split_variant(v, st):
                    if okidx(i):
                        for o in self.apply(fn, fr, b, t, s, A[1], [self.payload(v, pos)], stack):
                            if o.kind == "ret" and m == "map":
                                yield Out("ret", ok(o.val) if isres else some(o.val), o.st)
                            else:
                                yield o
                    else:
                        yield Out("ret", err(self.payload(v, "Err")) if isres else NONE, s)
            return g()
        if m in ("ok_or", "ok_or_else", "ok", "err"):
            def g():
                for i, s in self.split_variant(v, st):
                    if m == "ok":
                        yield Out("ret", some(self.payload(v, "Ok")) if okidx(i) else NONE, s)
                    elif m == "ok_or":
                        yield Out("ret", ok(self.payload(v, pos)) if okidx(i) else err(A[1]), s)
                    elif m == "ok_or_else":
                        if okidx(i):
                            yield Out("ret", ok(self.payload(v, pos)), s)
                        else:
                            for o in self.apply(fn, fr, b, t, s, A[1], [], stack):
                                yield Out("ret", err(o.val), o.st) if o.kind == "ret" else o
            return g()
        if m in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned"):
            x = deref_self()
            return iter([Out("ret", x, st)])
        if m == "filter":
            def g():
                for i, s in self.split_variant(v, st):
                    if not okidx(i):
                        yield Out("ret", NONE, s)
                        continue
                    p = self.payload(v, pos)
                    for o in self.apply(fn, fr, b, t, s, A[1], [p], stack):
                        if o.kind != "ret":
                            yield o
                            continue
                        for bv, s3 in self.cond(o.val, o.st):
                            yield Out("ret", some(p) if bv else NONE, s3)
            return g()
        if m == "take":
            root, proj = self.deref(st, v)
            old = self.read(st, root, proj)
            self.write(st, root, proj, NONE)
            return iter([Out("ret", old, st)])
        return NotImplemented


INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "bool": 1}


def intcast(fs, ts, a):
    if a[0] == "c":
        return c(int(a[1]))
    if fs in INTW and ts in INTW:
        signed_f, signed_t = fs[0] == "i", ts[0] == "i"
        if INTW[ts] > INTW[fs] and not (signed_f and not signed_t) or INTW[ts] == INTW[fs] and signed_f == signed_t:
            if fs == "bool":
                return ("ext", a)
            return ("ext", a)
        return ("trunc", fs, ts, a)
    return ("cast", fs, ts, a)


def strip_ext(t):
    while t[0] == "ext":
        t = t[1]
    return t


ITERS = ("iter", "enum", "zip", "mapped", "rev", "skip", "take", "filtered", "lmap", "lfilter", "lflat")


def srcs(it):
    if it[0] in ("iter",):
        return it[1]
    if it[0] == "rev":
        return ("rev", srcs(it[1]))
    if it[0] in ("enum", "mapped", "lmap"):
        return srcs(it[1])
    if it[0] in ("filtered", "lfilter", "lflat"):
        return srcs(it[1])
    return it


def strip_obj(t):
    while t[0] == "obj":
        t = t[1]
    return t


def gen_atoms(e):
    """the generic-element symbols in an iterator's element"""
    if not isinstance(e, tuple) or not e:
        return set()
    if e[0] in ("elem", "idxin", "idx"):
        return {e}
    out = set()
    for x in e:
        if isinstance(x, tuple):
            out |= gen_atoms(x)
    return out


_gen_memo = {}


def gen_in(t):
    """generic-element symbols occurring anywhere in a term"""
    if not isinstance(t, tuple) or not t:
        return frozenset()
    r = _gen_memo.get(t)
    if r is None:
        s = set()
        if t[0] in ("elem", "idxin", "idx"):
            s.add(t)
        for x in t:
            if isinstance(x, tuple):
                s |= gen_in(x)
        r = frozenset(s)
        if len(_gen_memo) > 400000:
            _gen_memo.clear()
        _gen_memo[t] = r
    return r


def has_sub(t, gens):
    if isinstance(t, tuple):
        return t in gens or any(has_sub(x, gens) for x in t)
    return False


def mentions(t, heads, d):
    if isinstance(t, tuple):
        if t and t[0] in heads and len(t) > 1 and t[1] == d:
            return True
        return any(mentions(x, heads, d) for x in t)
    return False


def widened(ov, nv, d, b, name):
    """aggregates of one shape are widened field by field"""
    if ov == nv:
        return ov
    if ov[0] == "agg" and nv[0] == "agg" and ov[1:5] == nv[1:5] and ov[1] in ("adt", "tuple") and [n for n, _ in ov[5]] == [n for n, _ in nv[5]] and ov[5]:
        d2 = dict(nv[5])
        return agg(ov[1], ov[2], ov[3], ov[4], [(n, widened(x, d2[n], d, b, name + (("f", n),))) for n, x in ov[5]])
    return ("loop", d, b, name)


def loop_parts(w, d, b):
    """(symbol, access path) of the loop unknowns of header b in a widened value"""
    if w[0] == "loop" and w[1] == d and w[2] == b:
        yield w, ()
    elif w[0] == "agg":
        for n, x in w[5]:
            for s, p in loop_parts(x, d, b):
                yield s, (n,) + p


def locname(loc):
    root, proj = loc
    if root[0] == "L":
        return ("L", root[1][1] if isinstance(root[1], tuple) else root[1], root[2]) + tuple(proj)
    return (root,) + tuple(proj)


def show(t, depth=0):
    """compact rendering of a term for reports"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if depth > 8:
        return "…"
    d = depth + 1
    if k == "c":
        return str(t[1])
    if k == "fl":
        return t[1]
    if k == "sym":
        return t[1]
    if k == "agg":
        fs = ", ".join("%s: %s" % (n, show(v, d)) for n, v in t[5])
        return "%s{%s}" % ((t[4] or t[1]), fs)
    if k == "fld":
        return "%s.%s" % (show(t[1], d), t[2])
    if k == "as":
        return "%s?%s" % (show(t[1], d), t[2])
    if k == "obj":
        return "*%s" % show(t[1], d)
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x, d) for x in t[2]))
    if k == "not":
        return "!" + show(t[1], d)
    if k == "ref":
        return "&" + "/".join(map(str, t[1][:1])) + str(t[2])
    return "%s(%s)" % (k, ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:]))
