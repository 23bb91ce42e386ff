"""Whole-program inference of linear "grades" for numeric values over MIR.

Every numeric leaf of every local, parameter, result and struct field gets an unknown rational grade; each
arithmetic operation contributes linear equations between grades; the library's public data types fix
the grades of their fields.  The property (scale covariance / translation covariance) holds by construction
when the equation system of the whole program is consistent: an inconsistent equation is a specific
operation that mixes quantities which transform differently.  Functions are polymorphic (Kennedy-style):
each is summarised by the equations its parameters and result must satisfy, and the summary is
instantiated at each call.  Nothing is executed and no path is enumerated: the analysis is flow-insensitive
per local, interprocedural, and independent of how code is split into helpers or ordered."""
import re
from fractions import Fraction as Fr
from absint import norm


class Sys:
    def __init__(self, prefer=None):
        self.rows = {}
        self.iface = prefer or set()       # variables that may only be pivots as a last resort

    def reduce(self, co):
        out = {}
        work = dict(co)
        while work:
            v, k = work.popitem()
            if v in self.rows:
                for u, c in self.rows[v].items():
                    n = work.get(u, 0) + k * c
                    if n:
                        work[u] = n
                    else:
                        work.pop(u, None)
            else:
                n = out.get(v, 0) + k
                if n:
                    out[v] = n
                else:
                    out.pop(v, None)
        # rows may have been extended while out was collected: re-check
        if any(v in self.rows for v in out):
            return self.reduce(out)
        return out

    def add(self, co):
        """sum co[v]*v = 0 where key 1 (int ONE) is the constant; -> True ok / False contradiction"""
        r = self.reduce(co)
        vs = [v for v in r if v != ONE]
        if not vs:
            return not r
        piv = None
        for v in vs:
            if v not in self.iface:
                piv = v
                break
        if piv is None:
            piv = vs[0]
        k = r.pop(piv)
        self.rows[piv] = {u: -c / k for u, c in r.items()}
        return True


ONE = "1"


class Shape:
    pass


class Leaf:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Node:
    """kind: 'S' struct by field name, 'C' container by arg index, 'G' global adt, 'N' nothing"""
    __slots__ = ("k", "d", "kids")

    def __init__(self, k, d=None, kids=None):
        self.k = k
        self.d = d
        self.kids = kids if kids is not None else {}


NOTHING = Node("N")

ZEROISH = {"zero", "max_value", "min_value", "fuzzy_epsilon", "infinity", "neg_infinity", "nan", "epsilon",
           "min_positive_value", "default"}
UNITLESS = {"one", "pi", "tau", "two", "four"}
SAMEN = {"abs", "neg", "floor", "ceil", "round", "trunc", "fract", "to_owned", "clone"}
EQ2 = {"min", "max", "add", "sub", "rem", "hypot", "abs_sub", "copysign0"}
TRIG = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "sinh", "cosh", "tanh", "to_degrees", "to_radians", "exp_m1", "ln_1p", "log2", "log10"}
CMP = {"lt", "le", "gt", "ge", "eq", "ne", "partial_cmp", "cmp", "total_cmp", "fuzzy_eq", "fuzzy_eq_eps", "fuzzy_lt", "fuzzy_lt_eps",
       "fuzzy_gt", "fuzzy_gt_eps", "abs_diff_eq"}
PASS = {"unwrap", "expect", "unwrap_or_default", "clone", "cloned", "copied", "as_ref", "as_mut", "iter", "iter_mut", "into_iter", "get", "get_mut",
        "first", "last", "pop", "index", "index_mut", "deref", "deref_mut", "next", "next_back", "rev", "skip", "take", "cycle",
        "peekable", "collect", "to_vec", "borrow", "as_slice", "into", "from", "by_ref", "get_or_insert", "first_mut", "last_mut", "remove",
        "swap_remove", "drain", "peek", "as_deref", "ok", "some", "is_some_and", "fuse", "unwrap_unchecked", "from_residual", "nth", "into_boxed_slice",
        "min_by", "max_by", "step_by"}
PUSH = {"push", "push_back", "push_front", "extend", "append", "extend_from_slice", "swap", "replace", "insert", "or_insert", "unwrap_or", "or", "chain", "fill"}
OWNER = {"closure"}


class Engine:
    """mode: 'scale' | 'tx' | 'ty'"""

    def __init__(self, prog, mode, crate="cavalier_contours", exempt=(), seeds=None, field_grades=None):
        self.prog = prog
        self.mode = mode
        self.crate = crate
        self.n = 0
        self.info = {}
        self.gshapes = {}
        self.exempt = exempt
        self.seeds = seeds or {}
        self.field_grades = field_grades or {}
        self.summ = {}
        self.cons = {}
        self.fnv = {}
        self.unmodelled = {}
        self.stats = {"equations": 0, "operations": 0, "calls_summarised": 0, "numeric_locals": 0}
        self.fns = {f.d: f for f in prog.fns.values() if f.crate == crate}
        self.wild_fields = re.compile(r"(^|_)(eps|epsilon)$")
        self.litparam = {}
        self.trees_of = {}
        self.clones = 0
        self.depth = 0
        self.site = None
        self._nums = {}
        self.tolsites = []
        self.compute_wild()

    # ------------------------------------------------------------------ variables and shapes
    def fresh(self, tag=""):
        self.n += 1
        v = "v%d" % self.n
        self.info[v] = tag
        return v

    def is_num(self, fn, ti):
        t = self.prog.ty(fn.crate, ti)
        if t["k"] == "prim":
            return t["s"] in ("f64", "f32")
        if t["k"] in ("param", "alias"):
            return ti in self.numset(fn)
        return False

    def numset(self, fn):
        s = self._nums
        if fn.d not in s:
            a = set(fn.j.get("nums", []))
            r = fn.root and self.prog.fns.get(fn.root)
            if r:
                a |= set(r.j.get("nums", []))
            for pr in fn.j.get("prom", []):
                a |= set(pr.get("nums", []))
            s[fn.d] = a
        return s[fn.d]

    def shape(self, fn, ti, tag="", depth=0):
        if ti is None or ti < 0 or depth > 8:
            return NOTHING
        if self.is_num(fn, ti):
            return Leaf(self.fresh(tag))
        t = self.prog.ty(fn.crate, ti)
        k = t["k"]
        if k in ("ref", "ptr"):
            return self.shape(fn, t["t"], tag, depth + 1)
        if k in ("array", "slice"):
            if self.is_num(fn, t["t"]):
                return NOTHING           # a bare number array is heterogeneous (x, y, bulge): elements are free
            return Node("C", "seq", {0: self.shape(fn, t["t"], tag, depth + 1)})
        if k == "tuple":
            return Node("S", "tuple", {str(i): self.shape(fn, a, tag + ".%d" % i, depth + 1) for i, a in enumerate(t["args"])})
        if k == "closure":
            return Node("K", t["d"])
        if k == "adt":
            d = t["d"]
            short = d.split("::")[-1]
            if short == "Vector2":
                if self.mode == "scale":
                    l = Leaf(self.fresh(tag))
                    return Node("S", "Vector2", {"x": l, "y": l})
                return Node("S", "Vector2", {"x": Leaf(self.fresh(tag + ".x")), "y": Leaf(self.fresh(tag + ".y"))})
            if d.startswith("static_aabb2d_index") and short == "AABB" or d in self.prog.adts and self.prog.adts[d]["crate"] == self.crate:
                return Node("G", d, {"args": t["args"]})
            if short in ("Box", "Rc", "Arc", "Reverse"):
                return self.shape(fn, t["args"][0], tag, depth + 1)
            return Node("C", short, {i: self.shape(fn, a, tag, depth + 1) for i, a in enumerate(t["args"])})
        return NOTHING

    def gfield(self, fn, adt, variant, field, fti):
        """shape of a field of a library data type: one per (type, field) for the whole program"""
        kind = self.prog.ty(fn.crate, fti)
        kk = "num" if self.is_num(fn, fti) else re.sub(r"<.*", "", kind["s"]) if kind["k"] != "ref" else "ref"
        key = (adt.split("::")[-1], variant, field)
        ck = key + (kk,)
        if ck not in self.gshapes:
            sh = self.shape(fn, fti, "%s.%s" % (key[0], field))
            self.gshapes[ck] = sh
            for path, v in self.leaves(sh):
                self.globals.add(v)
                g = self.field_grades.get((key[0], field) + path)
                if g is None and len(path) <= 1:
                    g = self.field_grades.get((key[0], field))
                    if isinstance(g, dict):
                        g = g.get(path[-1] if path else None)
                if g is not None:
                    self.gfix.append((v, Fr(g)))
        return self.gshapes[ck]

    def leaves(self, sh, path=()):
        if isinstance(sh, Leaf):
            return [(path, sh.v)]
        if sh.k in ("S", "C"):
            out = []
            for k, s in sh.kids.items():
                out += self.leaves(s, path + (str(k),))
            return out
        return []

    # ------------------------------------------------------------------ wild (tolerance / zero) values
    def compute_wild(self):
        """locals that only ever hold a tolerance, a zero or an extreme value: each use is free of grade"""
        self.defs = {}
        for f in self.fns.values():
            d = {}
            for b in f.reachable_blocks():
                for s in f.blocks[b]["s"]:
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append(("rv", s[1], s[2]))
                t = f.blocks[b]["t"]
                if t["t"] == "call":
                    d.setdefault(t["dst"][0], []).append(("call", t["dst"], t))
                # mutable borrows make later writes invisible
            self.defs[f.d] = d
        self.wildparam = {}
        callers = {}
        for f in self.fns.values():
            for b, t in f.calls():
                k = self.prog.callee(f, t)
                g = self.fns.get(k) if k else None
                if g is not None:
                    callers.setdefault(g.d, []).append((f, t))
        self.callers = callers
        for f in self.fns.values():
            for i in range(1, f.argc + 1):
                nm = f.lname(i)
                self.wildparam[(f.d, i)] = bool(nm and self.wild_fields.search(nm))
        for _ in range(4):
            self._wild = {}
            ch = False
            for f in self.fns.values():
                if f.kind not in ("Fn", "AssocFn") or not callers.get(f.d):
                    continue
                if f.j.get("reach") :
                    continue
                for i in range(1, f.argc + 1):
                    if self.wildparam[(f.d, i)] or not self.is_num(f, f.locals[i][0]):
                        continue
                    if all(len(t["args"]) >= i and self.op_wild(g, t["args"][i - 1], 0) for g, t in callers[f.d]):
                        self.wildparam[(f.d, i)] = True
                        ch = True
            if not ch:
                break
        self._wild = {}

    def op_wild(self, fn, o, depth=0):
        if o["o"] == "const":
            return o.get("f") in ("0.0", "-0.0")
        if o["o"] not in ("copy", "move"):
            return False
        return self.place_wild(fn, o["p"], depth)

    def place_wild(self, fn, p, depth=0):
        l, proj = p
        for e in reversed(proj):
            if e[0] == ".":
                if self.wild_fields.search(str(e[2])):
                    return True
                if fn.kind == "Closure" and l == 1:
                    return self.upvar_wild(fn, e[1], depth)
                return False
            if e[0] == "*":
                continue
            return False
        return self.local_wild(fn, l, depth)

    def upvar_wild(self, fn, i, depth):
        nm = None
        for u in fn.j.get("upv", []):
            for e in u[1][1]:
                if e[0] == "." and e[1] == i:
                    nm = u[0]
        if nm and self.wild_fields.search(nm):
            return True
        par = self.fns.get(fn.j.get("parent") or "")
        if par is None or depth > 12:
            return False
        for ds in self.defs[par.d].values():
            for kind, dst, r in ds:
                if kind == "rv" and r["r"] == "agg" and r["k"] == "closure" and r["d"] == fn.d:
                    return i < len(r["ops"]) and self.op_wild(par, r["ops"][i], depth + 1)
        return False

    def local_wild(self, fn, l, depth=0):
        key = (fn.d, l)
        if key in self._wild:
            return self._wild[key]
        if depth > 24:
            return False
        self._wild[key] = False
        if 1 <= l <= fn.argc:
            r = self.wildparam.get(key, False)
            self._wild[key] = r
            return r
        ds = [x for x in self.defs[fn.d].get(l, [])]
        if any(x[1][1] for x in ds) or not ds:
            return False
        r = len(ds) == 1 or all(x[0] == "rv" for x in ds)
        for kind, dst, v in ds:
            if kind == "call":
                n = (v["c"].get("n") or (v["c"].get("r") or v["c"].get("d", "")).split("::")[-1])
                if n in ZEROISH and not v["args"]:
                    continue
                if n in ("neg", "abs", "clone", "mul", "div", "add", "sub", "min", "max") and v["args"]:
                    ws = [self.op_wild(fn, a, depth + 1) or self.op_lit(fn, a) is not None for a in v["args"]]
                    if all(ws) and any(self.op_wild(fn, a, depth + 1) for a in v["args"]):
                        continue
                r = False
            else:
                k = v["r"]
                if k == "use" and self.op_wild(fn, v["a"], depth + 1):
                    continue
                if k == "ref" and self.place_wild(fn, v["p"], depth + 1):
                    continue
                if k == "un" and v["op"] == "Neg" and self.op_wild(fn, v["a"], depth + 1):
                    continue
                r = False
            if not r:
                break
        self._wild[key] = r
        return r

    # ------------------------------------------------------------------ numeric literals
    def op_lit(self, fn, o, depth=0):
        """value of a numeric literal operand (through single-assignment temporaries), else None"""
        if o["o"] == "const":
            if "f" in o:
                try:
                    return Fr(float(o["f"])).limit_denominator(10**9)
                except (ValueError, OverflowError):
                    return None
            return None
        if o["o"] not in ("copy", "move") or o["p"][1] or depth > 10:
            return None
        l = o["p"][0]
        if l <= fn.argc:
            return self.litparam.get((fn.d, l))
        ds = self.defs[fn.d].get(l, [])
        if len(ds) != 1 or ds[0][1][1]:
            return None
        kind, _, v = ds[0]
        if kind == "rv":
            if v["r"] == "use":
                return self.op_lit(fn, v["a"], depth + 1)
            if v["r"] == "bin" and v["op"] in ("Add", "Sub", "Mul", "Div"):
                return arith(v["op"], self.op_lit(fn, v["a"], depth + 1), self.op_lit(fn, v["b"], depth + 1))
            return None
        n = v["c"].get("n") or ""
        if not v["args"]:
            return {"one": Fr(1), "two": Fr(2), "four": Fr(4), "zero": Fr(0)}.get(n)
        if n in ("add", "sub", "mul", "div") and len(v["args"]) == 2:
            return arith(n.capitalize(), self.op_lit(fn, v["args"][0], depth + 1), self.op_lit(fn, v["args"][1], depth + 1))
        if n == "neg":
            x = self.op_lit(fn, v["args"][0], depth + 1)
            return None if x is None else -x
        if n in ("unwrap", "expect", "from", "into") and v["args"]:
            return self.op_lit(fn, v["args"][0], depth + 1)
        return None

    # ------------------------------------------------------------------ constraint generation
    def run(self):
        self.globals = set()
        self.gfix = []
        order = self.order()
        for f in order:
            if f.kind == "Closure":
                continue
            self.generate(f)
            self.summarise(f)
        return order

    def order(self):
        """callees before callers (roots only; closures belong to their root)"""
        import networkx as nx
        g = nx.DiGraph()
        roots = [f for f in self.fns.values() if f.kind in ("Fn", "AssocFn")]
        rootof = lambda f: self.fns.get(f.root) if f.root else f
        for f in roots:
            g.add_node(f.d)
        for f in self.fns.values():
            r = rootof(f)
            if r is None or r.kind not in ("Fn", "AssocFn"):
                continue
            for b, t in f.calls():
                k = self.prog.callee(f, t)
                h = self.fns.get(k) if k else None
                if h is not None:
                    hr = rootof(h)
                    if hr is not None and hr.d != r.d and hr.d in g:
                        g.add_edge(r.d, hr.d)
        c = nx.condensation(g)
        out = []
        for n in reversed(list(nx.topological_sort(c))):
            for d in sorted(c.nodes[n]["members"]):
                out.append(self.fns[d])
        return out

    def generate(self, root):
        self.cur = []
        self.tmpv = {}
        bodies = [root] + sorted(self.prog.closures_of(root), key=lambda x: x.d)
        self.lsh = {}
        self.ups = {}
        for f in bodies:
            for i, l in enumerate(f.locals):
                nm = f.lname(i) or "_%d" % i
                self.lsh[(f.d, i)] = self.shape(f, l[0], nm)
                if self.leaves(self.lsh[(f.d, i)]):
                    self.stats["numeric_locals"] += 1
        for f in bodies:
            self.body(f)
        self.cons[root.d] = self.cur
        self.fnv[root.d] = (self.lsh, bodies)

    def body(self, f):
        skip = {}
        if self.mode != "scale":
            for roots, weight, members, xs, ys in self.trees(f):
                for m in members:
                    skip[m] = True
                for r in roots:
                    l = self.lsh[(f.d, r)]
                    if isinstance(l, Leaf):
                        self.eq(f, f.line, "translation-invariant expression", [(l.v, 1), (ONE, -weight[self.mode[1]])])
                for grp in (xs, ys):
                    prev = None
                    for o in grp:
                        l = self.pshape(f, o["p"])
                        if isinstance(l, Leaf):
                            if prev is not None:
                                self.eq(f, f.line, "same kind of coordinate", [(prev.v, 1), (l.v, -1)])
                            prev = l
                self.stats["invariant_expressions"] = self.stats.get("invariant_expressions", 0) + 1
        for b in sorted(f.reachable_blocks()):
            for s in f.blocks[b]["s"]:
                if s[0] == "=" and not (s[1][0] in skip and not s[1][1] and s[2]["r"] == "bin"):
                    self.stmt(f, s)
            t = f.blocks[b]["t"]
            if t["t"] == "call" and not (t["dst"][0] in skip and not t["dst"][1]):
                self.call(f, t)

    # polynomial expressions that are translation invariant although their products are not
    ARI = {"add": "Add", "sub": "Sub", "mul": "Mul", "neg": "Neg"}

    def trees(self, f):
        if f.d in self.trees_of:
            return self.trees_of[f.d]
        ops = {}
        for l, ds in self.defs[f.d].items():
            if len(ds) != 1 or ds[0][1][1] or l <= f.argc or not self.is_num(f, f.locals[l][0]):
                continue
            kind, _, v = ds[0]
            if kind == "rv" and v["r"] == "bin" and v["op"] in ("Add", "Sub", "Mul"):
                ops[l] = (v["op"], [v["a"], v["b"]])
            elif kind == "rv" and v["r"] == "use":
                ops[l] = ("Use", [v["a"]])
            elif kind == "call" and (v["c"].get("n") in self.ARI) and "ops::arith" in v["c"].get("d", ""):
                ops[l] = (self.ARI[v["c"]["n"]], v["args"])
        used = set()
        for l, (op, a) in ops.items():
            if op == "Use":
                continue
            for o in a:
                x = o
                n = 0
                while x["o"] in ("copy", "move") and not x["p"][1] and x["p"][0] in ops and n < 20:
                    used.add(x["p"][0])
                    if ops[x["p"][0]][0] != "Use":
                        break
                    x = ops[x["p"][0]][1][0]
                    n += 1
        out = []
        for l, (op, a) in ops.items():
            if op in ("Use", "Neg") or l in used:
                continue
            mem = set()
            atoms = {}
            poly = self.poly(f, ops, {"o": "copy", "p": [l, []]}, mem, atoms, 0)
            if poly is None:
                continue
            def axis(k):
                m = re.search(r"\.(x|y)$", k)
                return m and m.group(1)
            if not any(len(mono) >= 2 and any(axis(k) for k in mono) for mono in poly):
                continue
            good = True
            weight = {"x": 0, "y": 0}
            for ax in ("x", "y"):
                d = {}
                for mono, c in poly.items():
                    for i, k in enumerate(mono):
                        if axis(k) == ax:
                            m2 = tuple(mono[:i] + mono[i + 1:])
                            d[m2] = d.get(m2, 0) + c
                            if not d[m2]:
                                del d[m2]
                weight[ax] = d.pop((), 0)      # a shift of the input adds this multiple of itself to the value
                if d:
                    good = False
            if not good or not atoms:
                continue
            # default rules already cover expressions built from differences
            if not self.bare_product(f, ops, mem):
                continue
            arith_mem = {m for m in mem if ops[m][0] != "Use"}
            out.append(([l], weight, arith_mem, [o for k, o in atoms.items() if axis(k) == "x"], [o for k, o in atoms.items() if axis(k) == "y"]))
        self.trees_of[f.d] = out
        return out

    def resolve_op(self, ops, o):
        n = 0
        while o["o"] in ("copy", "move") and not o["p"][1] and o["p"][0] in ops and ops[o["p"][0]][0] == "Use" and n < 20:
            o = ops[o["p"][0]][1][0]
            n += 1
        return o

    def bare_product(self, f, ops, mem):
        for m in mem:
            op, a = ops[m]
            if op == "Mul":
                for o in a:
                    o = self.resolve_op(ops, o)
                    if o["o"] in ("copy", "move") and re.search(r"\.(x|y)$", self.place_key(f, ops, o["p"])):
                        return True
        return False

    def poly(self, f, ops, o, mem, atoms, depth):
        if depth > 30:
            return None
        if o["o"] == "const":
            l = self.op_lit(f, o)
            return {(): l} if l is not None else None
        if o["o"] not in ("copy", "move"):
            return None
        p = o["p"]
        lit = self.op_lit(f, o)
        if lit is not None:
            return {(): lit} if lit else {}
        if not p[1] and p[0] in ops:
            op, a = ops[p[0]]
            mem.add(p[0])
            ps = [self.poly(f, ops, x, mem, atoms, depth + 1) for x in a]
            if any(x is None for x in ps):
                return None
            if op == "Use":
                return ps[0]
            if op == "Neg":
                return {k: -v for k, v in ps[0].items()}
            out = {}
            if op in ("Add", "Sub"):
                out = dict(ps[0])
                sg = 1 if op == "Add" else -1
                for k, v in ps[1].items():
                    out[k] = out.get(k, 0) + sg * v
            else:
                for k1, v1 in ps[0].items():
                    for k2, v2 in ps[1].items():
                        k = tuple(sorted(k1 + k2))
                        out[k] = out.get(k, 0) + v1 * v2
                        if len(out) > 300:
                            return None
            return {k: v for k, v in out.items() if v}
        key = self.place_key(f, ops, p)
        atoms.setdefault(key, o)
        return {(key,): Fr(1)}

    def place_key(self, f, ops, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e[0] == ".":
                s += "." + str(e[2])
            elif e[0] != "*":
                s += str(e)
        return s

    def eq(self, f, ln, what, co):
        acc = {}
        for k, v in (co.items() if isinstance(co, dict) else co):
            acc[k] = acc.get(k, 0) + Fr(v)
        co = {k: v for k, v in acc.items() if v}
        if not co:
            return
        self.stats["equations"] += 1
        if self.site is not None:
            self.cur.append((co, self.site[0], self.site[1], what + " in " + getattr(f, "n", "")))
        else:
            self.cur.append((co, f, ln, what))

    def same(self, f, ln, what, a, b):
        if a is NOTHING or b is NOTHING:
            return
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            if a.v != b.v:
                self.eq(f, ln, what, [(a.v, 1), (b.v, -1)])
            return
        if isinstance(a, Leaf) or isinstance(b, Leaf):
            return
        if a.k == b.k and a.k in ("S", "C"):
            for k in a.kids:
                if k in b.kids:
                    self.same(f, ln, what, a.kids[k], b.kids[k])

    def peel(self, s):
        while isinstance(s, Node) and s.k == "C" and len(s.kids) >= 1 and s.d not in ("Result",):
            nxt = None
            for k in sorted(s.kids):
                if s.kids[k] is not NOTHING:
                    nxt = s.kids[k]
                    break
            if nxt is None:
                return NOTHING
            s = nxt
        return s

    def pshape(self, f, p):
        """shape at a place"""
        s = self.lsh[(f.d, p[0])]
        variant = None
        proj = p[1]
        i = 0
        if f.kind == "Closure" and p[0] == 1:
            # upvar access
            j = 0
            while j < len(proj) and proj[j][0] == "*":
                j += 1
            if j < len(proj) and proj[j][0] == ".":
                s = self.upshape(f, proj[j][1], proj[j][3])
                i = j + 1
        for e in proj[i:]:
            if e[0] == "*":
                continue
            if e[0] == "d":
                variant = e[2]
                continue
            if e[0] == ".":
                if isinstance(s, Leaf):
                    return NOTHING
                if s.k == "G":
                    s = self.gfield(f, s.d, variant, e[2], e[3])
                elif s.k == "S":
                    s = s.kids.get(str(e[2]), NOTHING)
                elif s.k == "C":
                    if s.d == "Option":
                        s = s.kids.get(0, NOTHING)
                    elif s.d == "Result":
                        s = s.kids.get(0 if variant == "Ok" else 1, NOTHING)
                    elif s.d == "ControlFlow":
                        s = s.kids.get(0 if variant == "Break" else 1, NOTHING)
                    elif s.d in ("Range", "RangeInclusive"):
                        s = s.kids.get(0, NOTHING)
                    else:
                        s = NOTHING
                else:
                    s = NOTHING
                variant = None
                continue
            if e[0] in ("i", "c"):
                s = s.kids.get(0, NOTHING) if isinstance(s, Node) and s.k == "C" else NOTHING
                continue
            if e[0] == "s":
                continue
            return NOTHING
        return s

    def upshape(self, f, i, fti):
        key = (f.d, i)
        if key not in self.ups:
            self.ups[key] = self.shape(f, fti, "upvar%d" % i)
        return self.ups[key]

    def oshape(self, f, o):
        """shape of an operand: tolerances, zeros and extreme values are free at each use"""
        if o["o"] == "const":
            ti = o["t"]
            if self.is_num(f, ti):
                if "f" in o and o["f"] not in ("0.0", "-0.0", "inf", "-inf", "NaN") and not o["f"].startswith("1.797"):
                    v = self.fresh("literal " + o["f"])
                    self.eq(f, f.line, "literal", [(v, 1)])
                    return Leaf(v)
                return Leaf(self.fresh("const"))
            return self.shape(f, ti, "const")
        if o["o"] in ("copy", "move"):
            s = self.pshape(f, o["p"])
            if isinstance(s, Leaf) and self.place_wild(f, o["p"]):
                return Leaf(self.fresh("tolerance/zero"))
            return s
        return NOTHING

    def stmt(self, f, s):
        dst = self.pshape(f, s[1])
        r, ln = s[2], s[3]
        k = r["r"]
        if k == "use":
            self.same(f, ln, "assignment", dst, self.oshape(f, r["a"]))
        elif k in ("ref", "rawptr"):
            if isinstance(dst, Leaf) and self.place_wild(f, r["p"]):
                return
            self.same(f, ln, "borrow", dst, self.pshape(f, r["p"]))
        elif k == "cast":
            a = self.oshape(f, r["a"])
            self.same(f, ln, "cast", dst, a)
            if isinstance(dst, Leaf) and not isinstance(a, Leaf):
                self.eq(f, ln, "number from integer", [(dst.v, 1)])
        elif k == "repeat":
            if isinstance(dst, Node) and dst.k == "C":
                self.same(f, ln, "array", dst.kids.get(0, NOTHING), self.oshape(f, r["a"]))
        elif k == "un":
            self.same(f, ln, "negation", dst, self.oshape(f, r["a"]))
        elif k == "bin":
            self.arith(f, ln, r["op"], r["a"], r["b"], dst)
        elif k == "agg":
            self.aggregate(f, ln, r, dst)

    def aggregate(self, f, ln, r, dst):
        k = r["k"]
        if k == "closure":
            g = self.fns.get(r["d"])
            for i, o in enumerate(r["ops"]):
                if g is not None:
                    self.capture(f, ln, g, i, o)
            return
        if k == "tuple":
            for i, o in enumerate(r["ops"]):
                if isinstance(dst, Node) and dst.k == "S":
                    self.same(f, ln, "tuple", dst.kids.get(str(i), NOTHING), self.oshape(f, o))
        elif k == "array":
            for o in r["ops"]:
                if isinstance(dst, Node) and dst.k == "C":
                    self.same(f, ln, "array", dst.kids.get(0, NOTHING), self.oshape(f, o))
        elif k == "adt":
            for nm, o in zip(r["names"], r["ops"]):
                if o["o"] == "other":
                    continue
                a = self.oshape(f, o)
                if isinstance(dst, Leaf) or dst is NOTHING:
                    continue
                if dst.k == "G":
                    adt = self.prog.adts.get(dst.d)
                    variant = r["vn"] if adt is not None and adt["kind"] == "Enum" else None
                    fti = self.op_ti(f, o)
                    if fti is None:
                        continue
                    fs = self.gfield(f, dst.d, variant, nm, fti)
                    self.same(f, ln, "field %s.%s" % (dst.d.split("::")[-1], nm), fs, a)
                elif dst.k == "S":
                    self.same(f, ln, "field " + nm, dst.kids.get(nm, NOTHING), a)
                elif dst.k == "C":
                    idx = 0
                    if dst.d == "Result" and r["vn"] == "Err" or dst.d == "ControlFlow" and r["vn"] == "Continue":
                        idx = 1
                    self.same(f, ln, "wrap", dst.kids.get(idx, NOTHING), a)

    def op_ti(self, f, o):
        """type id of an operand"""
        if o["o"] == "const":
            return o["t"]
        p = o["p"]
        if not p[1]:
            return f.locals[p[0]][0]
        for e in reversed(p[1]):
            if e[0] == ".":
                return e[3]
            if e[0] == "*":
                continue
            break
        # deref of a local reference
        ti = f.locals[p[0]][0]
        t = self.prog.ty(f.crate, ti)
        while t["k"] in ("ref", "ptr"):
            ti = t["t"]
            t = self.prog.ty(f.crate, ti)
        if t["k"] in ("array", "slice"):
            return t["t"]
        return ti

    def capture(self, f, ln, g, i, o):
        # type of the upvar: that of the operand
        ti = self.op_ti(f, o)
        if ti is None:
            return
        s = self.upshape(g, i, ti)
        a = self.oshape(f, o)
        self.same(f, ln, "capture", s, a)
        if isinstance(a, Node) and a.k == "K":
            self.ups[(g.d, i)] = a

    # grades of arithmetic
    def arith(self, f, ln, op, ao, bo, dst):
        op = {"AddUnchecked": "Add", "SubUnchecked": "Sub"}.get(op, op)
        a, b = self.oshape(f, ao), self.oshape(f, bo)
        if not (isinstance(a, Leaf) and isinstance(b, Leaf)):
            return
        self.stats["operations"] += 1
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp", "Rem"):
            self.eq(f, ln, "comparison", [(a.v, 1), (b.v, -1)])
            if op == "Rem" and isinstance(dst, Leaf):
                self.eq(f, ln, "remainder", [(dst.v, 1), (a.v, -1)])
            return
        if not isinstance(dst, Leaf):
            return
        self.arith_l(f, ln, op, a, b, dst, self.op_lit(f, ao), self.op_lit(f, bo))

    def arith_l(self, f, ln, op, a, b, dst, la, lb):
        if self.mode == "scale":
            if op in ("Add", "Sub"):
                self.eq(f, ln, "addition" if op == "Add" else "subtraction", [(a.v, 1), (b.v, -1)])
                self.eq(f, ln, "addition" if op == "Add" else "subtraction", [(dst.v, 1), (a.v, -1)])
            elif op == "Mul":
                self.eq(f, ln, "multiplication", [(dst.v, 1), (a.v, -1), (b.v, -1)])
            elif op == "Div":
                self.eq(f, ln, "division", [(dst.v, 1), (a.v, -1), (b.v, 1)])
        else:
            if op in ("Add", "Sub"):
                s = 1 if op == "Add" else -1
                self.eq(f, ln, "addition" if op == "Add" else "subtraction", [(dst.v, 1), (a.v, -1), (b.v, -s)])
            elif op == "Mul":
                if la is not None:
                    self.eq(f, ln, "multiplication by a constant", [(dst.v, 1), (b.v, -la)])
                elif lb is not None:
                    self.eq(f, ln, "multiplication by a constant", [(dst.v, 1), (a.v, -lb)])
                else:
                    for x in (a, b, dst):
                        self.eq(f, ln, "multiplication", [(x.v, 1)])
            elif op == "Div":
                if lb is not None and lb != 0:
                    self.eq(f, ln, "division by a constant", [(dst.v, 1), (a.v, -Fr(1) / lb)])
                else:
                    for x in (a, b, dst):
                        self.eq(f, ln, "division", [(x.v, 1)])

    def zero(self, f, ln, what, s):
        if isinstance(s, Leaf):
            self.eq(f, ln, what, [(s.v, 1)])

    def call(self, f, t):
        c = t["c"]
        if "ptr" in c:
            return
        ln = t["ln"]
        key = c.get("r") or c["d"]
        n = c.get("n") or key.split("::")[-1]
        args = t["args"]
        dst = self.pshape(f, t["dst"])
        g = self.fns.get(key)
        ext = norm(key)
        A = [self.oshape(f, a) for a in args]
        islib = g is not None
        # closures called directly
        if n in ("call", "call_mut", "call_once") and "ops::function" in c.get("d", ""):
            h = A and A[0]
            if isinstance(h, Node) and h.k == "K":
                self.closure_call(f, ln, h.d, A[1], dst)
            return
        if g is not None and g.kind == "Closure":
            self.closure_call(f, ln, g.d, A[1] if len(A) > 1 else NOTHING, dst)
            return
        trait = (c.get("trait") or "").split("::")[-1]
        # numeric vocabulary: on plain numbers (generic or primitive)
        if trait in ("FuzzyEq", "FuzzyOrd", "PartialEq", "PartialOrd", "IndexableNum", "Ord") and n in CMP:
            if len(A) >= 2:
                self.stats["operations"] += 1
                self.same(f, ln, "comparison", A[0], A[1])
                if trait in ("FuzzyEq", "FuzzyOrd"):
                    self.tolsites.append((f, ln, n, A, args[2] if len(args) > 2 else None))
            return
        if trait in ("FuzzyEq", "FuzzyOrd"):
            if n in ("fuzzy_in_range", "fuzzy_in_range_eps", "fuzzy_in_bounds"):
                self.stats["operations"] += 1
                for x in A[1:3]:
                    self.same(f, ln, "comparison", A[0], x)
                self.tolsites.append((f, ln, n, A, args[3] if len(args) > 3 else None))
            elif A:
                self.tolsites.append((f, ln, n, A, args[1] if len(args) > 1 else None))
            return
        num0 = A and isinstance(A[0], Leaf)
        if n in ZEROISH and not args:
            return
        if not args and n in UNITLESS:
            self.zero(f, ln, "constant", dst)
            return
        if num0 and not (islib and trait not in ("Real", "Num")):
            self.stats["operations"] += 1
            if n in ("add", "sub", "mul", "div", "rem") and len(A) == 2 and isinstance(A[1], Leaf) and isinstance(dst, Leaf):
                if n == "rem":
                    self.eq(f, ln, "remainder", [(A[0].v, 1), (A[1].v, -1)])
                    self.eq(f, ln, "remainder", [(dst.v, 1), (A[0].v, -1)])
                else:
                    self.arith_l(f, ln, n.capitalize(), A[0], A[1], dst, self.op_lit(f, args[0]), self.op_lit(f, args[1]))
                return
            if n in ("add_assign", "sub_assign", "mul_assign", "div_assign") and len(A) == 2 and isinstance(A[1], Leaf):
                old = Leaf(self.fresh("old"))
                self.same(f, ln, "assignment", old, A[0])
                self.arith_l(f, ln, n.split("_")[0].capitalize(), old, A[1], A[0], None, self.op_lit(f, args[1]))
                return
            if n == "neg" and self.mode != "scale":
                if isinstance(dst, Leaf):
                    self.eq(f, ln, "negation", [(dst.v, 1), (A[0].v, 1)])
                return
            if n in ("abs", "floor", "ceil", "round", "trunc", "fract") and self.mode != "scale":
                self.zero(f, ln, n, A[0])
                self.zero(f, ln, n, dst)
                return
            if n in SAMEN:
                self.same(f, ln, n, dst, A[0])
                return
            if n in ("min", "max") and len(A) == 2:
                self.same(f, ln, n, A[0], A[1])
                self.same(f, ln, n, dst, A[0])
                return
            if n == "clamp":
                for x in A[1:3]:
                    self.same(f, ln, n, A[0], x)
                self.same(f, ln, n, dst, A[0])
                return
            if n == "hypot":
                self.same(f, ln, n, A[0], A[1])
                self.same(f, ln, n, dst, A[0])
                if self.mode != "scale":
                    self.zero(f, ln, n, dst)
                return
            if n == "sqrt":
                if self.mode == "scale" and isinstance(dst, Leaf):
                    self.eq(f, ln, "square root", [(dst.v, 2), (A[0].v, -1)])
                else:
                    self.zero(f, ln, n, A[0])
                    self.zero(f, ln, n, dst)
                return
            if n in TRIG:
                self.zero(f, ln, n, A[0])
                self.zero(f, ln, n, dst)
                return
            if n == "sin_cos":
                self.zero(f, ln, n, A[0])
                for _, v in self.leaves(dst):
                    self.eq(f, ln, n, [(v, 1)])
                return
            if n == "atan2":
                self.same(f, ln, n, A[0], A[1])
                if self.mode != "scale":
                    self.zero(f, ln, n, A[0])
                self.zero(f, ln, n, dst)
                return
            if n == "signum":
                self.zero(f, ln, n, dst)
                if self.mode != "scale":
                    self.zero(f, ln, n, A[0])
                return
            if n == "recip":
                if self.mode == "scale" and isinstance(dst, Leaf):
                    self.eq(f, ln, n, [(dst.v, 1), (A[0].v, 1)])
                else:
                    self.zero(f, ln, n, A[0])
                return
            if n == "powi":
                e = args[1].get("v") if args[1]["o"] == "const" else None
                if self.mode == "scale" and e is not None and isinstance(dst, Leaf):
                    self.eq(f, ln, n, [(dst.v, 1), (A[0].v, -e)])
                else:
                    self.zero(f, ln, n, A[0])
                    self.zero(f, ln, n, dst)
                return
            if n == "mul_add" and len(A) == 3:
                m = Leaf(self.fresh("product"))
                self.arith_l(f, ln, "Mul", A[0], A[1], m, self.op_lit(f, args[0]), self.op_lit(f, args[1]))
                self.arith_l(f, ln, "Add", m, A[2], dst, None, None)
                return
            if n == "to_usize" or n.startswith("to_"):
                self.zero(f, ln, "conversion to an integer", A[0])
                return
            if n.startswith("is_"):
                return
        if n in ("from",) and trait in ("NumCast", "FromPrimitive"):
            d = self.peel(dst)
            if isinstance(d, Leaf) and not (A and isinstance(A[0], Leaf)):
                self.zero(f, ln, "number from integer", d)
            elif isinstance(d, Leaf):
                self.same(f, ln, "conversion", d, A[0])
            return
        if islib:
            self.summary_call(f, ln, g, A, dst, t)
            return
        # --- std containers and adaptors
        if n == "fold" and len(A) == 3 and isinstance(A[2], Node) and A[2].k == "K":
            self.same(f, ln, "fold", dst, A[1])
            h = self.fns.get(A[2].d)
            if h is not None and (h.d, 0) in self.lsh:
                self.same(f, ln, "fold", dst, self.lsh[(h.d, 0)])
                self.same(f, ln, "fold", dst, self.lsh[(h.d, 2)])
                self.same(f, ln, "fold", self.peel(A[0]), self.lsh[(h.d, 3)]) if h.argc >= 3 else None
            return
        if n in ("get_or_insert_with", "unwrap_or_else", "or_else", "map_or_else") and len(A) >= 2:
            self.same(f, ln, n, self.peel(dst), self.peel(A[0]))
            h = isinstance(A[-1], Node) and A[-1].k == "K" and self.fns.get(A[-1].d)
            if h and (h.d, 0) in self.lsh:
                self.same(f, ln, n, self.peel(dst), self.peel(self.lsh[(h.d, 0)]))
            return
        if n in ("map", "and_then", "flat_map", "filter_map", "map_or", "then") and len(A) >= 2:
            h = isinstance(A[-1], Node) and A[-1].k == "K" and self.fns.get(A[-1].d)
            if h and (h.d, 0) in self.lsh:
                if h.argc >= 2:
                    self.same(f, ln, n, self.peel(A[0]), self.peel(self.lsh[(h.d, 2)]))
                if "option" in ext or "result" in ext:
                    self.same(f, ln, n, self.peel(dst), self.peel(self.lsh[(h.d, 0)]))
            return
        if n in PUSH and len(A) >= 2:
            for x in A[1:]:
                self.same(f, ln, n, self.peel(A[0]), self.peel(x))
            self.same(f, ln, n, self.peel(dst), self.peel(A[0]))
            return
        if ext.endswith("static_aabb2d_index::add") and len(A) == 5 or n == "new" and "AABB" in str(c.get("p", "")) and len(A) == 4:
            v = A[-4:]
            flds = ("min_x", "min_y", "max_x", "max_y")
            self.stats["operations"] += 1
            for x, nm in zip(v, flds):
                if isinstance(x, Leaf):
                    gf = self.gfield(f, "static_aabb2d_index::core::AABB", None, nm, self.op_ti(f, args[-4]))
                    self.same(f, ln, "box " + nm, gf, x)
            return
        if ext.split("::")[-1] in ("visit_query_with_stack", "query", "query_with_stack", "visit_query", "query_iter"):
            flds = ("min_x", "min_y", "max_x", "max_y")
            v = A[1:5]
            if len(v) == 4:
                self.stats["operations"] += 1
                for x, nm, ao in zip(v, flds, args[1:5]):
                    if isinstance(x, Leaf):
                        gf = self.gfield(f, "static_aabb2d_index::core::AABB", None, nm, self.op_ti(f, ao))
                        self.same(f, ln, "query " + nm, gf, x)
            return
        if n == "branch" and A and isinstance(dst, Node) and dst.k == "C":
            # the ? operator: Continue carries the payload on
            self.same(f, ln, "?", self.peel(dst.kids.get(1, NOTHING)), self.peel(A[0]))
            return
        if n in PASS and A:
            self.same(f, ln, n, self.peel(dst), self.peel(A[0]))
            return
        if any(self.leaves(x) for x in A) and (self.leaves(dst)):
            self.unmodelled.setdefault(ext, []).append((f.d, ln))

    def closure_call(self, f, ln, d, argt, dst):
        if (d, 0) not in self.lsh:
            return
        h = self.fns[d]
        if isinstance(argt, Node) and argt.k == "S":
            for i, s in argt.kids.items():
                li = 2 + int(i)
                if li <= h.argc and not self.wildparam.get((d, li)):
                    self.same(f, ln, "closure argument", self.lsh[(d, li)], s)
        self.same(f, ln, "closure result", dst, self.lsh[(d, 0)])

    # ------------------------------------------------------------------ summaries
    def iface_paths(self, f):
        lsh, _ = self.fnv[f.d]
        out = {}
        for i in range(0, f.argc + 1):
            if i > 0 and self.wildparam.get((f.d, i)):
                continue
            for path, v in self.leaves(lsh[(f.d, i)]):
                out.setdefault(v, (i, path))
        return out

    def summarise(self, f):
        if self.is_exempt(f):
            self.summ[f.d] = []
            return
        ip = self.iface_paths(f)
        s = Sys(prefer=set(ip) | self.globals)
        ok = True
        for co, g, ln, what in self.cons[f.d]:
            s.add(co)
        eqs = []
        for piv, row in s.rows.items():
            if piv in s.iface:
                co = dict(row)
                co = s.reduce(co)
                if all(v in s.iface or v == ONE for v in co):
                    e = dict(co)
                    e[piv] = e.get(piv, 0) - 1
                    if any(v in ip for v in e if v != ONE):
                        eqs.append({(ip.get(v) or v): c for v, c in e.items()})
        self.summ[f.d] = eqs

    def is_exempt(self, f):
        """the named functions, and private helpers reachable only from them"""
        if not hasattr(self, "_ex"):
            ex = {d for d in self.fns if d in self.exempt or norm(d) in self.exempt}
            root = lambda g: self.fns.get(g.root, g) if g.root else g
            while True:
                add = {d for d, cs in self.callers.items() if d not in ex and not self.fns[d].j.get("reach")
                       and self.fns[d].kind in ("Fn", "AssocFn") and all(root(g).d in ex for g, _ in cs)}
                if not add:
                    break
                ex |= add
            self._ex = ex
        return f.d in self._ex

    def small(self, g):
        s = getattr(self, "_small", None)
        if s is None:
            s = self._small = {}
        if g.d not in s:
            s[g.d] = g.kind in ("Fn", "AssocFn") and len(g.reachable_blocks()) <= 12 and not g.loops() and not self.prog.closures_of(g)
        return s[g.d]

    def inline(self, f, ln, g, t, A, dst):
        """expand a small loop-free helper at its call: literal and tolerance arguments stay visible"""
        import mir
        self.clones += 1
        h = mir.Fn(g.j, g.crate, g.prog)
        h.d = "%s@%d" % (g.d, self.clones)
        h.base = g
        self.defs[h.d] = self.defs[g.d]
        self._nums[h.d] = self.numset(g)
        self.trees_of[h.d] = self.trees(g)
        for i in range(1, g.argc + 1):
            self.wildparam[(h.d, i)] = self.wildparam.get((g.d, i)) or (i - 1 < len(t["args"]) and self.op_wild(f, t["args"][i - 1]))
            if i - 1 < len(t["args"]):
                self.litparam[(h.d, i)] = self.op_lit(f, t["args"][i - 1])
        for i, l in enumerate(h.locals):
            if 1 <= i <= h.argc and i - 1 < len(A):
                self.lsh[(h.d, i)] = A[i - 1]
            elif i == 0:
                self.lsh[(h.d, 0)] = dst
            else:
                self.lsh[(h.d, i)] = self.shape(h, l[0], "%s:%s" % (g.n, h.lname(i) or i))
        self.depth += 1
        site = self.site
        if self.site is None:
            self.site = (f, ln)
        self.body(h)
        self.site = site
        self.depth -= 1

    def summary_call(self, f, ln, g, A, dst, t=None):
        if g.d not in self.summ or g.d not in self.fnv:
            return
        if t is not None and self.depth < 3 and self.small(g) and not self.is_exempt(g):
            self.stats["calls_expanded"] = self.stats.get("calls_expanded", 0) + 1
            return self.inline(f, ln, g, t, A, dst)
        # small loop-free helpers are expanded with the literal arguments visible
        self.stats["calls_summarised"] += 1
        def find(ip):
            i, path = ip
            s = dst if i == 0 else (A[i - 1] if i - 1 < len(A) else NOTHING)
            for k in path:
                if isinstance(s, Leaf) or s is NOTHING:
                    return None
                s = s.kids.get(k, s.kids.get(int(k)) if k.isdigit() else None)
                if s is None:
                    return None
            return s.v if isinstance(s, Leaf) else None
        # aliasing inside the callee's interface: two interface paths sharing a variable
        cache = {}
        for e in self.summ[g.d]:
            co = {}
            okk = True
            for k, c in e.items():
                if k == ONE:
                    v = ONE
                elif isinstance(k, tuple):
                    v = cache.get(k)
                    if v is None:
                        v = cache[k] = find(k) or self.fresh("missing")
                else:
                    v = k
                co[v] = co.get(v, 0) + c
            self.eq(f, ln, "call of %s" % g.n, co)
        # interface leaves that share one variable in the callee (e.g. the two components of a vector in scale mode)
        seen = {}
        lsh, _ = self.fnv[g.d]
        for i in range(0, g.argc + 1):
            if i > 0 and self.wildparam.get((g.d, i)):
                continue
            for path, v in self.leaves(lsh[(g.d, i)]):
                if v in seen and seen[v] != (i, path):
                    a, b = find(seen[v]), find((i, path))
                    if a and b and a != b:
                        self.eq(f, ln, "call of %s" % g.n, [(a, 1), (b, -1)])
                seen.setdefault(v, (i, path))

    # ------------------------------------------------------------------ verdict
    def solve(self):
        """-> list of (fn, line, what, message) contradictions"""
        order = self.run()
        s = Sys()
        bad = []
        for v, g in self.gfix:
            s.add({v: Fr(1), ONE: -g})
        for (fd, i, path), g in self.seeds.items():
            f = self.fns.get(fd)
            if f is None or f.d not in self.fnv:
                continue
            lsh, _ = self.fnv[f.d]
            for p, v in self.leaves(lsh[(f.d, i)]):
                if p[-len(path):] == path if path else True:
                    if not s.add({v: Fr(1), ONE: -Fr(g)}):
                        bad.append((f, f.line, "interface", v))
        done = set()
        for f in order:
            if f.kind == "Closure" or self.is_exempt(f):
                continue
            for co, g, ln, what in self.cons[f.d]:
                if not s.add(co):
                    bad.append((g, ln, what, co))
        self.system = s
        return bad

    def grade(self, v):
        r = self.system.reduce({v: Fr(1)})
        if not r:
            return Fr(0)
        if set(r) == {ONE}:
            return r[ONE]
        return None


def arith(op, a, b):
    if a is None or b is None:
        return None
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mul":
        return a * b
    if op == "Div":
        return a / b if b else None
