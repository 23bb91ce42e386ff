"""C83: every loop has a ranking argument, and nothing calls itself.

For every strongly connected part of a control flow graph a ranking is looked for: an iterator (or stack) whose next element is
taken and whose end leaves the loop, or an integer counter that only moves one way by a constant, tested in every round
against a bound that does not move with it.  Where one is found, the blocks in which it progresses are removed and what
remains strongly connected must be ranked in turn (a lexicographic ranking)."""
import re
try:
    import networkx as nx
except ImportError:                     # the registry is also read without it
    nx = None

CRATES = ("cavalier_contours", "cavalier_contours_ffi")
TAKES = {"next", "next_back", "nth", "nth_back", "find", "find_map", "position", "rfind", "rposition", "pop", "pop_front", "pop_back"}
CONSUME = {"collect", "for_each", "fold", "sum", "product", "count", "last", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "partition", "rev", "extend",
           "all", "any", "find", "find_map", "position", "try_for_each", "try_fold", "reduce", "unzip", "eq", "cmp", "partial_cmp", "is_sorted", "from_iter", "into_iter"}
ENDLESS = {"Cycle", "Repeat", "RepeatWith", "RangeFrom", "Successors", "FromFn", "OnceWithForever"}
SHRINK = {"set", "swap", "index_mut", "deref_mut", "iter_mut", "as_mut_slice", "clear", "truncate", "remove", "pop", "remove_last", "swap_remove", "retain", "drain", "first_mut", "last_mut", "reverse", "as_mut",
          "len", "vertex_count", "is_empty", "pop_front", "pop_back", "sort", "fill"}
COUNTS = {"len", "vertex_count", "segment_count", "count", "capacity"}
CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
FLIP = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}


# ------------------------------------------------------------------------------------------ endless iterators
def parse(s):
    """type string -> (head, [args]) or None"""
    s = s.strip()
    m = re.match(r"^([\w:]+)<(.*)>$", s, re.S)
    if not m:
        return s.split("::")[-1], []
    out, d, cur = [], 0, ""
    prev = ""
    for ch in m.group(2):
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or ch == ">" and prev != "-":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        prev = ch
    out.append(cur)
    return m.group(1).split("::")[-1], [x.strip() for x in out]


def endless(s):
    s = re.sub(r"^&(?:'\w+ )?(mut )?", "", s.strip())
    h, a = parse(s)
    if h in ENDLESS:
        return True
    if h in ("Take",):
        return False
    if h == "Zip":
        return len(a) == 2 and endless(a[0]) and endless(a[1])
    if h in ("Chain", "Interleave"):
        return any(endless(x) for x in a[:2])
    if h in ("Map", "Filter", "FilterMap", "Enumerate", "Skip", "SkipWhile", "StepBy", "Peekable", "Fuse", "Copied", "Cloned", "Inspect", "Rev", "TakeWhile", "MapWhile", "Scan", "FlatMap", "Flatten", "Box", "ByRefSized"):
        return bool(a) and endless(a[0])
    return False


# ------------------------------------------------------------------------------------------ one function
def key(p):
    return (p[0], tuple((e[0], e[1]) if e[0] == "." else (e[0],) for e in p[1]))


class Body:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.g = f.graph()
        self.reach = f.reachable_blocks()
        self.asg = {}                       # local -> [(block, kind, payload, dst projection)]
        self.mutref = {}                    # local -> [(block, place, dst local)]
        for b in self.reach:
            for st in f.blocks[b]["s"]:
                if st[0] != "=":
                    continue
                self.asg.setdefault(st[1][0], []).append((b, "rv", st[2], st[1][1]))
                if st[2].get("r") == "ref" and st[2]["mut"] or st[2].get("r") in ("rawptr", "addr"):
                    self.mutref.setdefault(st[2]["p"][0], []).append((b, st[2]["p"], st[1]))
            t = f.blocks[b]["t"]
            if t["t"] == "call":
                self.asg.setdefault(t["dst"][0], []).append((b, "call", t, t["dst"][1]))
        # locals that are changed through a reference to themselves
        self.lent = {i for i, l in self.mutref.items() if any(not p[1] or p[1][0][0] != "*" for _, p, _ in l)}

    def whole(self, i):
        """the single assignment of a temporary"""
        if i in self.lent:
            return None
        a = self.asg.get(i, [])
        if len(a) == 1 and a[0][3] == [] and i > self.f.argc:
            return a[0]
        return None

    def res(self, o, depth=0):
        """operand -> term over constants, places, sums and calls"""
        if o["o"] == "const":
            return ("c", o.get("v"), o.get("s"))
        if o["o"] not in ("copy", "move"):
            return ("?",)
        return self.resp(o["p"], depth)

    def resp(self, p, depth=0):
        i, proj = p
        if depth < 30:
            w = self.whole(i)
            if w and w[1] == "rv":
                rv = w[2]
                if proj == [] or rv.get("r") == "bin" and rv["op"].endswith("WithOverflow") and len(proj) == 1 and proj[0][0] == "." and proj[0][1] == 0:
                    r = self.rv(rv, depth + 1)
                    if r is not None:
                        return r
                if proj and proj[0][0] == "*" and rv.get("r") == "ref":
                    return self.resp([rv["p"][0], rv["p"][1] + proj[1:]], depth + 1)
                if proj and proj[0][0] == "*" and rv.get("r") == "use" and rv["a"]["o"] in ("copy", "move"):
                    return self.resp([rv["a"]["p"][0], rv["a"]["p"][1] + proj], depth + 1)
            if w and w[1] == "rv" and w[2].get("r") == "agg" and proj and proj[0][0] == "." and isinstance(proj[0][1], int) and i not in self.lent and w[2].get("k") == "tuple":
                fs = w[2]["ops"]
                if proj[0][1] < len(fs):
                    r = self.res(fs[proj[0][1]], depth + 1)
                    if len(proj) == 1:
                        return r
            if w and w[1] == "call" and proj == [] and i not in self.lent:
                t = w[2]
                return ("call", t["c"].get("n") or (t["c"].get("d") or "").split("::")[-1], tuple(self.res(a, depth + 1) for a in t["args"]), w[0])
        return ("pl", key(p))

    def rv(self, rv, depth):
        k = rv.get("r")
        if k == "use":
            return self.res(rv["a"], depth)
        if k == "bin":
            op = re.sub(r"(WithOverflow|Unchecked)$", "", rv["op"])
            return ("bin", op, self.res(rv["a"], depth), self.res(rv["b"], depth))
        if k == "cast":
            return self.res(rv["a"], depth)
        if k == "un" and rv.get("op") == "Not":
            return ("not", self.res(rv["a"], depth))
        if k == "ref":
            return ("ref", self.resp(rv["p"], depth))
        if k == "len":
            return ("call", "len", (self.resp(rv["p"], depth),), None)
        if k in ("discr", "discriminant"):
            return ("discr", self.resp(rv["p"], depth))
        return None

    # -------------------------------------------------------------------------------- what changes in a loop
    def written(self, L, pk):
        """is the place or a part of it assigned or mutably lent inside L"""
        base, proj = pk
        return any(b in L and self.over(pr, proj) for b, _, _, pr in self.asg.get(base, [])) or \
            any(b in L and self.over(p[1], proj) for b, p, _ in self.mutref.get(base, []))

    def through(self, t):
        """the reference a call returned, for what is behind it"""
        if t[0] == "pl" and t[1][1][:1] == (("*",),):
            w = self.whole(t[1][0])
            if w and w[1] == "call":
                return self.callterm(w[2], w[0])
        return t

    def keeps(self, t, L):
        """nothing is put into the collection t inside L"""
        while t[0] == "ref" or t[0] == "call" and t[1] in ("deref", "as_slice", "borrow", "as_ref") and t[2]:
            t = self.through(t[1] if t[0] == "ref" else t[2][0])
        if t[0] != "pl":
            return False
        base, proj = t[1]
        for b, k, p, pr in self.asg.get(base, []):
            if b in L and not any(e[0] == "*" for e in pr) and len(pr) <= len(proj) and self.over(pr, proj):
                return False
        tmps = [dst for b, p, dst in self.mutref.get(base, []) if b in L and self.over(p[1], proj)]
        return all(dst[1] == [] and self.only(dst[0], SHRINK) for dst in tmps)

    def only(self, tmp, names, depth=0):
        """the mutable reference is only handed to functions of these names"""
        if depth > 4:
            return False
        for b in self.reach:
            t = self.f.blocks[b]["t"]
            if t["t"] == "call" and any(a["o"] in ("copy", "move") and a["p"][0] == tmp for a in t["args"]):
                n = t["c"].get("n") or ""
                if n not in names and not n.startswith(("get_", "set_", "swap_", "sort_")):
                    return False
            for st in self.f.blocks[b]["s"]:
                if st[0] != "=" or st[2].get("r") not in ("use", "cast", "agg", "ref"):
                    continue
                rv = st[2]
                ops = [rv["p"][0]] if rv["r"] == "ref" else [o["p"][0] for o in (rv["ops"] if rv["r"] == "agg" else [rv["a"]]) if o["o"] in ("copy", "move")]
                if tmp in ops:
                    if rv["r"] in ("agg",) or st[1][1] or not self.only(st[1][0], names, depth + 1):
                        return False
        return True

    def steady(self, t, L, shrink=False):
        """the value of t is the same in every round (or, for a count, does not grow)"""
        if t[0] == "c":
            return True
        t = self.through(t)
        if t[0] == "pl":
            return not self.written(L, t[1])
        if t[0] == "bin":
            if shrink and t[1] in ("Sub", "Add", "Div", "Mul") and self.steady(t[3], L):
                return self.steady(t[2], L, True)
            return self.steady(t[2], L) and self.steady(t[3], L)
        if t[0] == "ref":
            return self.steady(t[1], L)
        if t[0] == "call":
            if t[1] in COUNTS and shrink and len(t[2]) == 1 and self.keeps(t[2][0], L):
                return True
            if t[1] in COUNTS or t[1] in ("deref", "min", "max", "clone", "as_slice", "borrow", "as_ref", "into", "saturating_sub"):
                return all(self.steady(a, L) for a in t[2])
            return t[3] is not None and t[3] not in L
        return False

    def callterm(self, t, b):
        return ("call", t["c"].get("n"), tuple(self.res(a) for a in t["args"]), b)

    def unwrapped(self, u):
        """what is inside the option u was taken from"""
        if u[0] == "call" and u[1] in ("unwrap", "expect", "branch", "ok_or", "ok_or_else", "unwrap_or_else") and u[2]:
            return u[2][0] if u[1] in ("unwrap", "expect") else self.unwrapped(u[2][0])
        if u[0] == "pl" and u[1][1]:
            w = self.whole(u[1][0])
            if w and w[1] == "call":
                c = self.callterm(w[2], w[0])
                return self.unwrapped(c) if c[1] in ("branch", "ok_or", "ok_or_else") else c
        return u

    def moves(self, L):
        """places that only move one way by a constant inside L -> (direction, step, blocks)"""
        cand = {}
        self.selfguard = own = set()
        for i, l in self.asg.items():
            for b, k, p, proj in l:
                if b in L:
                    cand.setdefault(key([i, proj]), []).append((b, k, p))
        out = {}
        for pk, l in cand.items():
            base = pk[0]
            d, steps, blocks = None, set(), set()
            for b, k, rv in l:
                t = self.rv(rv, 0) if k == "rv" else None
                if k == "rv" and rv.get("r") == "bin":
                    t = self.rv(rv, 0)
                s = None
                if t and t[0] == "bin" and t[1] in ("Add", "Sub"):
                    if t[2] == ("pl", pk) and t[3][0] == "c" and isinstance(t[3][1], int) and t[3][1] > 0:
                        s = (1 if t[1] == "Add" else -1, t[3][1])
                    elif t[1] == "Add" and t[3] == ("pl", pk) and t[2][0] == "c" and isinstance(t[2][1], int) and t[2][1] > 0:
                        s = (1, t[2][1])
                u = t if k == "rv" else self.callterm(rv, b)
                if s is None and u is not None:
                    u = self.unwrapped(u)
                    if u and u[0] == "call" and u[1] == "checked_sub" and len(u[2]) == 2 and u[2][0] == ("pl", pk) and u[2][1][0] == "c" and isinstance(u[2][1][1], int) and u[2][1][1] > 0:
                        s = (-1, u[2][1][1])
                        own.add(pk)
                if s is None or d not in (None, s[0]):
                    d = None
                    break
                d = s[0]
                steps.add(s[1])
                blocks.add(b)
            else:
                # nobody else writes it: no overlapping place assigned, no mutable reference
                others = [q for q in cand if q != pk and q[0] == base and (q[1][:len(pk[1])] == pk[1] or pk[1][:len(q[1])] == q[1])]
                lent = [1 for b, p, _ in self.mutref.get(base, []) if b in L and (key(p)[1][:len(pk[1])] == pk[1] or pk[1][:len(key(p)[1])] == key(p)[1])]
                if d is not None and not others and not lent:
                    out[pk] = (d, max(steps), blocks)
        return out

    def is_checked(self, pk, b):
        for bb, k, rv, proj in self.asg.get(pk[0], []):
            if bb == b and key([pk[0], proj]) == pk:
                u = self.rv(rv, 0) if k == "rv" else self.callterm(rv, b)
                if u is None or self.unwrapped(u)[:2] != ("call", "checked_sub"):
                    return False
        return True

    def tests(self, L):
        """(block, condition that keeps the round going) for every two-way test with an exit"""
        for b in L:
            t = self.f.blocks[b]["t"]
            if t["t"] != "switch":
                continue
            c = self.res(t["on"])
            neg = False
            while c[0] == "not":
                c, neg = c[1], not neg
            if c[0] == "discr":
                y = c[1]
                if y[0] == "pl" and not y[1][1]:
                    w = self.whole(y[1][0])
                    y = self.callterm(w[2], w[0]) if w and w[1] == "call" else y
                if y[0] == "call" and y[1] in ("get", "get_mut", "nth") and len(y[2]) == 2 and dict((v, x) for v, x in t["cases"]).get(0, t["else"]) not in L:
                    yield b, ("Lt", y[2][1], ("call", "len", (y[2][0],), None))
            if c[0] != "bin" or c[1] not in CMP:
                continue
            stay = []
            for v, to in t["cases"]:
                if to in L:
                    stay.append(bool(v) != neg)
            if t["else"] in L:
                stay.append((not bool(t["cases"][0][0])) != neg)
            if len(set(stay)) == 1:
                yield b, (c[1] if stay[0] else NEG[c[1]], c[2], c[3])

    def counters(self, L):
        mv = self.moves(L)
        if not mv:
            return
        tests = list(self.tests(L))
        for pk, (d, step, blocks) in mv.items():
            if pk in self.selfguard:
                # every step is a subtraction that fails below zero
                if all(self.is_checked(pk, b) for b in blocks):
                    yield "counter", pk, set(blocks)
                    continue
            guards = set()
            for b, (op, x, y) in tests:
                for o, u, w in ((op, x, y), (FLIP[op], y, x)):
                    while u[0] == "bin" and u[1] in ("Add", "Sub") and u[3][0] == "c":
                        u = u[2]
                    if u != ("pl", pk):
                        continue
                    ok = o in (("Lt", "Le") if d > 0 else ("Gt", "Ge")) or o == "Ne" and step == 1
                    fixed = self.steady(w, L, d > 0 and o != "Ne") or w[0] == "pl" and w[1] in mv and mv[w[1]][0] == -d and o != "Ne"
                    if ok and fixed:
                        guards.add(b)
            if not guards:
                continue
            sub = self.g.subgraph(set(L) - guards)
            loose = set()
            for c in nx.strongly_connected_components(sub):
                if len(c) > 1 or any(sub.has_edge(x, x) for x in c):
                    loose |= c & blocks
            good = blocks - loose
            if good:
                yield "counter", pk, good

    def takers(self, L):
        for b in L:
            t = self.f.blocks[b]["t"]
            if t["t"] != "call" or (t["c"].get("n") or "") not in TAKES or not t["args"] or t["to"] is None:
                continue
            src = self.res(t["args"][0])
            while src[0] == "ref":
                src = src[1]
            while src[0] == "call" and src[1] in ("by_ref", "deref_mut", "deref", "as_mut", "borrow_mut") and src[2]:
                src = src[2][0]
                while src[0] == "ref":
                    src = src[1]
            if src[0] == "call" and src[3] is not None and src[3] not in L:
                # an iterator made before the loop
                n = t["c"]["n"]
                ty = self.prog.operand_ty(self.f, t["args"][0])["s"]
                if n not in ("pop", "pop_front", "pop_back") and not endless(ty) and self.ends(t, L):
                    yield "elements", src[1], {b}
                continue
            if src[0] != "pl":
                continue
            base = src[1][0]
            # the source is not replaced inside the loop
            if any(q[0] in L and not any(e[0] == "*" for e in q[3][:1]) and (self.over(q[3], src[1][1])) for q in self.asg.get(base, [])):
                continue
            ty = self.prog.operand_ty(self.f, t["args"][0])["s"]
            if endless(ty):
                continue
            n = t["c"]["n"]
            if n in ("pop", "pop_front", "pop_back"):
                # nothing is put back
                if any(bb in L and dst and not self.only_taken(dst[0]) for bb, p, dst in self.mutref.get(base, [])):
                    continue
            if self.ends(t, L):
                yield "elements", src[1], {b}

    def only_taken(self, tmp):
        """the mutable reference is only used to take elements"""
        for b in self.reach:
            t = self.f.blocks[b]["t"]
            if t["t"] == "call" and any(a["o"] in ("copy", "move") and a["p"][0] == tmp for a in t["args"]):
                if (t["c"].get("n") or "") not in TAKES:
                    return False
        return True

    @staticmethod
    def over(proj, want):
        k = tuple((e[0], e[1]) if e[0] == "." else (e[0],) for e in proj)
        return want[:len(k)] == k or k[:len(want)] == want

    def ends(self, t, L):
        """with nothing left to take, the loop is left"""
        res = ("call", t["c"].get("n"))
        dst = t["dst"]
        if dst[1]:
            return False
        alias = {dst[0]}
        grown = True
        while grown:
            grown = False
            for i, l in self.asg.items():
                for b, k, p, proj in l:
                    if proj == [] and k == "rv" and p.get("r") == "use" and p["a"]["o"] in ("copy", "move") and p["a"]["p"][0] in alias and p["a"]["p"][1] == [] and i not in alias:
                        alias.add(i)
                        grown = True
                    if proj == [] and k == "call" and (p["c"].get("n") or "") in ("branch", "as_ref", "as_mut", "copied", "cloned", "map", "ok_or", "ok_or_else", "filter") and p["args"] and p["args"][0]["o"] in ("copy", "move") and p["args"][0]["p"][0] in alias and i not in alias:
                        if p["c"]["n"] == "filter":
                            continue
                        alias.add(i)
                        grown = True
        disc = {i for i, l in self.asg.items() for b, k, p, proj in l if k == "rv" and p.get("r") in ("discr", "discriminant") and p["p"][0] in alias}
        for b in self.reach:
            tt = self.f.blocks[b]["t"]
            if tt["t"] == "call" and (tt["c"].get("n") or "") in ("unwrap", "expect") and tt["args"] and tt["args"][0]["o"] in ("copy", "move") and tt["args"][0]["p"][0] in alias:
                return True
            if tt["t"] != "switch" or tt["on"]["o"] not in ("copy", "move"):
                continue
            c, neg = self.res(tt["on"]), False
            while c[0] == "not":
                c, neg = c[1], not neg
            if c[0] == "call" and c[1] in ("is_none", "is_some") and c[2]:
                x = c[2][0]
                while x[0] == "ref":
                    x = x[1]
                if x[0] == "pl" and x[1][0] in alias and not x[1][1] or x[0] == "call" and x[3] in self.at_blocks(alias):
                    gone = (c[1] == "is_none") != neg
                    cases = dict((bool(v), to) for v, to in tt["cases"])
                    if cases.get(gone, tt["else"]) not in L:
                        return True
                continue
            if tt["on"]["p"][0] in disc:
                cases = dict((v, to) for v, to in tt["cases"])
                branch = any(self.is_branch(a) for a in self.disc_of(tt["on"]["p"][0]))
                none = cases.get(1 if branch else 0, tt["else"])
                if none not in L:
                    return True
        return False

    def at_blocks(self, alias):
        return {b for i in alias for b, k, p, proj in self.asg.get(i, []) if k == "call" and proj == []}

    def source(self, x):
        while True:
            if x[0] == "ref":
                x = x[1]
            elif x[0] == "call" and x[1] in ("by_ref", "deref_mut", "deref", "as_mut", "borrow_mut", "as_ref", "borrow", "iter") and x[2]:
                x = x[2][0]
            else:
                return x

    def watched(self, L):
        """elements taken from a source that is asked in every round whether it has any left"""
        asks = {}
        for b in L:
            tt = self.f.blocks[b]["t"]
            if tt["t"] != "switch":
                continue
            c, neg = self.res(tt["on"]), False
            while c[0] == "not":
                c, neg = c[1], not neg
            cases = dict((bool(v), to) for v, to in tt["cases"])
            gone = src = None
            if c[0] == "call" and c[1] in ("is_none", "is_some") and c[2]:
                y = self.source(c[2][0])
                if y[0] == "call" and y[1] in ("peek", "first", "last", "front", "back") and y[2]:
                    src, gone = self.source(y[2][0]), (c[1] == "is_none") != neg
                elif y[0] == "pl":
                    w = self.whole(y[1][0])
                    if w and w[1] == "call" and w[2]["c"].get("n") in ("peek", "first", "last", "front", "back"):
                        src, gone = self.source(self.callterm(w[2], w[0])[2][0]), (c[1] == "is_none") != neg
            elif c[0] == "call" and c[1] == "is_empty" and c[2]:
                src, gone = self.source(c[2][0]), not neg
            elif c[0] == "discr":
                y = self.source(c[1])
                if y[0] == "pl" and not y[1][1]:
                    w = self.whole(y[1][0])
                    y = self.callterm(w[2], w[0]) if w and w[1] == "call" else y
                if y[0] == "call" and y[1] in ("peek", "first", "last", "front", "back") and y[2]:
                    src = self.source(y[2][0])
                    to = dict((v, x) for v, x in tt["cases"]).get(0, tt["else"])
                    if to not in L:
                        asks.setdefault(src, set()).add(b)
                    continue
            if src is not None and cases.get(gone, tt["else"]) not in L:
                asks.setdefault(src, set()).add(b)
        for b in L:
            t = self.f.blocks[b]["t"]
            if t["t"] != "call" or (t["c"].get("n") or "") not in TAKES - {"nth", "nth_back"} or not t["args"]:
                continue
            src = self.source(self.res(t["args"][0]))
            if src not in asks or src[0] != "pl" or endless(self.prog.operand_ty(self.f, t["args"][0])["s"]):
                continue
            base, proj = src[1]
            if any(q[0] in L and self.over(q[3], proj) for q in self.asg.get(base, [])) or \
                    not all(d[1] == [] and self.only(d[0], SHRINK | TAKES | {"peek", "peek_mut", "next_if"}) for bb, p, d in self.mutref.get(base, []) if bb in L):
                continue
            # the question is asked between any two takes
            sub = self.g.subgraph(set(L) - asks[src])
            if any(b in c and (len(c) > 1 or sub.has_edge(b, b)) for c in nx.strongly_connected_components(sub)):
                continue
            yield "elements", src[1], {b}

    def disc_of(self, i):
        return [p["p"][0] for b, k, p, proj in self.asg.get(i, []) if k == "rv" and p.get("r") in ("discr", "discriminant")]

    def is_branch(self, i):
        return any(k == "call" and (p["c"].get("n") or "") in ("branch", "ok_or", "ok_or_else") for b, k, p, proj in self.asg.get(i, []))

    # -------------------------------------------------------------------------------- ranking
    def rank(self, L, found):
        """parts of L no ranking was found for"""
        for kind, what, blocks in list(self.takers(L)) + list(self.watched(L)) + list(self.counters(L)):
            found.append((kind, what))
            bad = []
            for c in nx.strongly_connected_components(self.g.subgraph(set(L) - blocks)):
                if len(c) > 1 or any(self.g.has_edge(x, x) for x in c):
                    bad += self.rank(frozenset(c), found)
            return bad
        return [L]

    def name(self, pk):
        n = self.f.lname(pk[0])
        return n or "_%d" % pk[0]


def line_of(f, L):
    ls = [t.get("ln") for t in (f.blocks[b]["t"] for b in sorted(L)) if (t.get("ln") or 0) >= f.line]
    return min(ls) if ls else f.line


# ------------------------------------------------------------------------------------------ recursion
def part(a, own):
    """type a is a proper component of type own"""
    a = re.sub(r"^(&('\w+ )?(mut )?)+", "", a.strip())
    return a != own and re.search(r"(?<![\w:])%s(?![\w<])" % re.escape(a), own.split("<", 1)[1] if "<" in own else "") is not None


def add(g, a, b, how):
    """the worst way of a call counts"""
    o = {"smaller": 0, "same": 1, "larger": 2}
    if g.has_edge(a, b) and o[g[a][b].get("how", "same")] >= o[how]:
        return
    g.add_edge(a, b, how=how)


def circles(g):
    """cycles in which the types do not get smaller"""
    for c in nx.strongly_connected_components(g):
        sub = g.subgraph(c)
        if not sub.number_of_edges():
            continue
        es = list(sub.edges(data="how"))
        if any(h == "smaller" for _, _, h in es) and not any(h == "larger" for _, _, h in es):
            sub = nx.DiGraph([(a, b) for a, b, h in es if h != "smaller"])
            if nx.is_directed_acyclic_graph(sub):
                continue
        yield c


def head(s):
    s = re.sub(r"^(&('\w+ )?(mut )?)+", "", s.strip())
    return s.split("<")[0].split("::")[-1]


def call_graph(prog, fns):
    g = nx.DiGraph()
    bymeth = {}
    for f in fns:
        if f.j.get("impl_trait") or f.j.get("trait"):
            bymeth.setdefault(((f.j.get("impl_trait") or f.j.get("trait")), f.n), []).append(f)
    n = 0
    for f in fns:
        g.add_node(f.d)
        if f.root and f.root in prog.fns:
            add(g, f.root, f.d, "same")
        owner = prog.fns.get(f.root) if f.root else f
        for b, t in f.calls():
            c = t["c"]
            if "ptr" in c:
                continue
            n += 1
            own = prog.tstr(owner.crate, owner.j["impl_self"]) if owner and "impl_self" in owner.j else None
            r = c.get("r")
            if r and r in prog.fns:
                args = [re.sub(r"^<(.*?) as .*>::\w+$", r"\1", prog.ty(f.crate, a)["s"]) for a in c.get("rargs") or [] if isinstance(a, int)]
                args = [a for a in args if not a.startswith("'")]
                if own and args and all(part(a, own) for a in args):
                    add(g, f.d, r, "smaller")
                else:
                    add(g, f.d, r, "larger" if any("<" in a and not (own and (a == own or part(a, own))) for a in args) else "same")
                continue
            tr = c.get("trait")
            if tr is None:
                if c.get("d") in prog.fns:
                    add(g, f.d, c["d"], "same")
                continue
            sty = prog.ty(f.crate, c["self"])["s"] if isinstance(c.get("self"), int) else "?"
            # on a component of the type being implemented the types get smaller
            small = own and sty != "Self" and part(sty, own)
            local = tr.startswith("cavalier_contours")
            for h in bymeth.get((tr, c.get("n")), []):
                his = prog.tstr(h.crate, h.j["impl_self"]) if "impl_self" in h.j else "Self"
                # a trait of the library on an unknown type may be any of its implementations; otherwise the types have to agree
                if head(sty) == head(his) or local and re.match(r"^[A-Z]\w*$|^<|^\?$", sty):
                    add(g, f.d, h.d, "smaller" if small else "larger" if "<" in sty and sty != own and head(sty) != "Vec" and not sty.startswith("<") else "same")
    return g, n


def check_ends(rep, prog, serde=None, tier=None):
    rep.rule("every strongly connected part of a control flow graph has a lexicographic ranking: elements taken from an iterator or stack whose end leaves the loop, "
             "or an integer counter moving one way by a constant and tested in every round against a bound that does not move with it")
    rep.rule("no cycle in the call graph (a call on a component of the type being implemented excepted: types are finite)")
    rep.rule("an endless iterator (cycle, repeat, successors, from_fn, open range) is consumed only through take or zip with a finite one")
    fns = [f for f in prog.fns.values() if f.crate in CRATES and "::tests::" not in f.d]
    for f in fns:
        B = None
        loops = f.loops()
        if loops:
            B = Body(prog, f)
            rep.fn(f)
        for L in loops:
            found = []
            bad = B.rank(L, found)
            rep.ob()
            rep.count("loops")
            for k, w in found:
                rep.count("ranked by %s" % k)
            for x in bad:
                rep.fail("loop:%s" % f.short, "%s (%s:%d): no ranking for the loop at line %d: nothing is taken from an iterator whose end leaves it, and no counter moves towards a fixed bound that is tested in every round" %
                         (f.d, f.file, f.line, line_of(f, x)))
        for b, t in f.calls():
            c = t["c"]
            n = c.get("n")
            if n in CONSUME and t["args"] and ("iter" in (c.get("trait") or "") or "Iterator" in (c.get("trait") or "")):
                ty = prog.operand_ty(f, t["args"][0])["s"]
                rep.count("iterators consumed")
                if n == "into_iter":
                    continue
                rep.check(not endless(ty), "endless:%s:%s" % (f.short, n), "%s (%s:%s): `%s` runs an iterator without end: %s" % (f.d, f.file, t.get("ln"), n, ty))
    g, n = call_graph(prog, fns)
    rep.count("calls", n)
    rep.ob()
    for c in circles(g):
        names = sorted(c)
        rep.fail("recursion:%s" % names[0].split("::")[-1], "functions call themselves: %s" % " -> ".join(prog.fns[x].short if x in prog.fns else x for x in names[:6]))
    rep.floor("loops", 20)
    rep.floor("calls", 500)
