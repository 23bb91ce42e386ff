"""Program model over the dumped MIR facts: functions, types, CFG, resolved call graph."""
import json, re
from functools import lru_cache


class Fn:
    __slots__ = ("j", "crate", "d", "n", "kind", "blocks", "argc", "locals", "root", "prog", "_cfg", "base")

    def __init__(self, j, crate, prog):
        self.j = j
        self.crate = crate
        self.d = j["d"]
        self.n = j.get("n", "")
        self.kind = j.get("kind", "")
        self.blocks = j["blocks"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.root = j.get("root")
        self.prog = prog
        self._cfg = None

    def lty(self, i):
        return self.prog.ty(self.crate, self.locals[i][0])

    def lname(self, i):
        return self.locals[i][1] if len(self.locals[i]) > 1 else None

    @property
    def file(self):
        return self.j["span"][0] if "span" in self.j else "?"

    @property
    def line(self):
        return self.j["span"][1] if "span" in self.j else 0

    @property
    def short(self):
        return short(self.d)

    def succs(self, b, unwind=False):
        t = self.blocks[b]["t"]
        k = t["t"]
        out = []
        if k == "goto":
            out = [t["to"]]
        elif k == "switch":
            out = [x[1] for x in t["cases"]] + [t["else"]]
        elif k in ("drop", "assert"):
            out = [t["to"]]
        elif k == "call":
            out = [t["to"]] if t["to"] is not None else []
        if unwind and t.get("uw") is not None:
            out.append(t["uw"])
        return out

    def reachable_blocks(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def preds(self):
        p = {}
        for b in self.reachable_blocks():
            for s in self.succs(b):
                p.setdefault(s, set()).add(b)
        return p

    def calls(self):
        """(block, term) for every non-cleanup reachable call"""
        for b in sorted(self.reachable_blocks()):
            t = self.blocks[b]["t"]
            if t["t"] == "call":
                yield b, t

    def dominators(self):
        import networkx as nx
        g = self.graph()
        idom = nx.immediate_dominators(g, 0)
        return idom

    def graph(self):
        import networkx as nx
        g = nx.DiGraph()
        g.add_node(0)
        for b in self.reachable_blocks():
            for s in self.succs(b):
                g.add_edge(b, s)
        return g

    def loops(self):
        """SCCs (non trivial) of the CFG"""
        import networkx as nx
        g = self.graph()
        out = []
        for c in nx.strongly_connected_components(g):
            if len(c) > 1 or any(g.has_edge(x, x) for x in c):
                out.append(frozenset(c))
        return out


def short(d):
    d = re.sub(r"\{impl#\d+\}::", "", d)
    parts = d.split("::")
    # keep last two meaningful parts
    out = []
    for p in reversed(parts):
        out.insert(0, p)
        if not p.startswith("{"):
            break
    i = len(parts) - len(out)
    if i > 1:
        out.insert(0, parts[i - 1])
    return "::".join(out)


class Program:
    def __init__(self, facts):
        self.facts = facts
        self.fns = {}
        self.tys = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.statics = []
        for c, f in facts.items():
            self.tys[c] = f["tys"]
            for j in f["fns"]:
                self.fns[j["d"]] = Fn(j, c, self)
            for a in f["adts"]:
                a["crate"] = c
                self.adts[a["d"]] = a
            for i in f["impls"]:
                i["crate"] = c
                self.impls.append(i)
            for t in f["traits"]:
                self.traits[t["d"]] = t
            self.statics += [dict(s, crate=c) for s in f["statics"]]
        self._impl_of = {}
        for im in self.impls:
            st = self.ty(im["crate"], im["self"])
            for name, key, tkey in im["items"]:
                if tkey:
                    self._impl_of.setdefault(tkey, []).append((st, key, im))

    def ty(self, crate, i):
        if i < 0:
            return {"k": "const", "s": "const"}
        return self.tys[crate][i]

    def tstr(self, crate, i):
        return self.ty(crate, i)["s"]

    def sub(self, crate, t, key="t"):
        return self.ty(crate, t[key])

    # ---- lookups ------------------------------------------------------------------------
    def by_name(self, name, crate=None, **kw):
        out = []
        for f in self.fns.values():
            if f.n == name and (crate is None or f.crate == crate) and f.kind in ("Fn", "AssocFn"):
                if all(self._match(f, k, v) for k, v in kw.items()):
                    out.append(f)
        return out

    def _match(self, f, k, v):
        if k == "impl_adt":
            if "impl_self" not in f.j:
                return False
            t = self.ty(f.crate, f.j["impl_self"])
            return adt_name(t) == v
        if k == "trait":
            t = f.j.get("trait") or f.j.get("impl_trait")
            return t is not None and t.split("::")[-1] == v
        if k == "trait_default":
            return f.j.get("trait") is not None and f.j["trait"].split("::")[-1] == v and "impl_self" not in f.j
        if k == "free":
            return (f.kind == "Fn") == v
        return f.j.get(k) == v

    def one(self, name, crate=None, **kw):
        r = self.by_name(name, crate, **kw)
        if len(r) != 1:
            raise MissingAnchor("anchor %s %s: expected exactly one function, found %d" % (name, kw, len(r)))
        return r[0]

    def closures_of(self, fn):
        """closure bodies lexically inside fn (any depth)"""
        return [g for g in self.fns.values() if g.root == fn.d]

    def callee(self, fn, t):
        """best resolved callee key of call terminator t: (key, trait_method_key, name)"""
        c = t["c"]
        if "ptr" in c:
            return None
        return c.get("r") or c["d"]

    def callee_fn(self, fn, t):
        k = self.callee(fn, t)
        if k is None:
            return None
        return self.fns.get(k)

    def closure_arg_defs(self, fn, t):
        out = []
        for a in t["args"]:
            ty = self.operand_ty(fn, a)
            while ty["k"] in ("ref", "ptr"):
                ty = self.ty(fn.crate, ty["t"])
            if ty["k"] == "closure":
                out.append(ty["d"])
        return out

    def operand_ty(self, fn, o):
        if o["o"] == "const":
            return self.ty(fn.crate, o["t"])
        if o["o"] == "other":
            return {"k": "other", "s": "?"}
        return self.place_ty(fn, o["p"])

    def place_ty(self, fn, p):
        t = fn.lty(p[0])
        for e in p[1]:
            if e[0] == "*":
                if t["k"] in ("ref", "ptr"):
                    t = self.ty(fn.crate, t["t"])
                elif t["k"] == "adt" and t["args"]:  # Box
                    t = self.ty(fn.crate, t["args"][0])
                else:
                    t = {"k": "other", "s": "?"}
            elif e[0] == ".":
                t = self.ty(fn.crate, e[3])
            elif e[0] in ("i", "c"):
                if t["k"] in ("slice", "array"):
                    t = self.ty(fn.crate, t["t"])
        return t


class MissingAnchor(Exception):
    pass


def adt_name(t):
    """last path component of an adt type (through references)"""
    if t["k"] == "adt":
        return t["d"].split("::")[-1]
    return None


# ---- pretty printer (debugging and reports) -------------------------------------------------
def pplace(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == ".":
            s += "." + str(e[2])
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s = "(%s as %s)" % (s, e[2])
        else:
            s += "[%s]" % ",".join(map(str, e))
    return s


def pop(o):
    if o["o"] == "const":
        for k in ("v", "f", "named", "s", "cty"):
            if k in o:
                return "const %s" % o[k]
        return "const prom%s" % o.get("promoted")
    if o["o"] == "other":
        return o["s"]
    return o["o"] + " " + pplace(o["p"])


def prv(r):
    k = r["r"]
    if k == "use":
        return pop(r["a"])
    if k == "ref":
        return "&" + ("mut " if r["mut"] else "") + pplace(r["p"])
    if k == "rawptr":
        return "&raw " + pplace(r["p"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], pop(r["a"]), pop(r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], pop(r["a"]))
    if k == "cast":
        return "cast[%s](%s)" % (r["k"], pop(r["a"]))
    if k == "discr":
        return "discr(%s)" % pplace(r["p"])
    if k == "agg":
        return "agg %s %s %s(%s)" % (r["k"], r.get("d", ""), r.get("vn", ""), ", ".join(map(pop, r["ops"])))
    return json.dumps(r)


def pfn(f):
    out = ["fn %s  argc=%d  [%s:%s]" % (f.d, f.argc, f.file, f.line)]
    for i, l in enumerate(f.locals):
        out.append("  _%d%s: %s" % (i, " (" + l[1] + ")" if len(l) > 1 else "", f.prog.tstr(f.crate, l[0])))
    for i, b in enumerate(f.blocks):
        if b["cl"]:
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=":
                out.append("    %s = %s   ;%d" % (pplace(s[1]), prv(s[2]), s[3]))
            elif s[0] != "dead":
                out.append("    %s" % s)
        t = b["t"]
        if t["t"] == "call":
            c = t["c"]
            out.append("    %s = %s(%s) -> %s   ;%d %s" % (pplace(t["dst"]), c.get("r") or c.get("d") or c, ", ".join(map(pop, t["args"])), t["to"], t["ln"], t.get("mac") or ""))
        elif t["t"] == "switch":
            out.append("    switch %s %s else %s ;%d" % (pop(t["on"]), t["cases"], t["else"], t["ln"]))
        elif t["t"] == "assert":
            out.append("    assert %s==%s %s -> %s ;%d" % (pop(t["c"]), t["exp"], t["msg"][0], t["to"], t["ln"]))
        elif t["t"] == "drop":
            out.append("    drop %s -> %s ;%d" % (pplace(t["p"]), t["to"], t["ln"]))
        else:
            out.append("    %s %s" % (t["t"], t.get("to", "")))
    return "\n".join(out)


def load(serde=False, cache=None):
    import facts, os, pickle
    if cache and os.path.exists(cache):
        return Program(json.load(open(cache)))
    d = facts.dump(serde)
    if cache:
        json.dump(d, open(cache, "w"))
    return Program(d)


if __name__ == "__main__":
    import sys
    p = load(cache="/tmp/b/c.json")
    for f in p.fns.values():
        if any(a in f.d for a in sys.argv[1:]):
            print(pfn(f))
            print()
