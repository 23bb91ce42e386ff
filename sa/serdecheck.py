"""C13: what the serializer writes is what the deserializer reads back, field by field.
The generated (derived) and hand written Serialize / Deserialize / Visitor bodies are interpreted abstractly:
the sequence of serializer calls on the path that reaches end(), the field each key string selects, and the
field each position of a sequence fills."""
import re
import absint
from absint import Interp, Out, ok, some, NONE, c

SPEC = {   # ADT -> None (struct: every field, camelCase) or the tuple order
    "Vector2": ["x", "y"],
    "PlineVertex": ["x", "y", "bulge"],
    "Polyline": {"vertex_data": "vertexes", "is_closed": "isClosed"},
    "PlineViewData": None,
    "BooleanPlineSlice": None,
    "BooleanResultPline": None,
}


def camel(s):
    p = s.split("_")
    return p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])


def cstr(t):
    if t[0] == "const":
        m = re.match(r'^(?:const )?"(.*)"$', str(t[1]))
        if m:
            return m.group(1)
    return None


def adt_of(prog, f):
    if "impl_self" not in f.j:
        return None
    t = prog.ty(f.crate, f.j["impl_self"])
    return t["d"].split("::")[-1] if t["k"] == "adt" else None


def field_of(v, recv):
    """field name when v is exactly a field of the receiver"""
    while v[0] == "obj":
        v = v[1]
    if v[0] == "fld":
        b = v[1]
        while b[0] == "obj":
            b = b[1]
        if b == recv:
            return v[2]
    return None


def struct_fields(prog, name):
    for d, a in prog.adts.items():
        if d.split("::")[-1] == name:
            return [f[0] for f in a["vars"][0][1]]
    return []


def serialize_order(rep, prog, f, name):
    """-> (kind, announced length, [(key or None, field)]) ; reports problems"""
    I = Interp(prog, inline=lambda g: g.crate == "cavalier_contours" and g.n not in ("serialize", "deserialize"))
    recv = ("sym", "self")
    seqs = set()
    for o in I.run(f, [recv, ("sym", "ser")]):
        if o.kind != "ret":
            continue
        v = o.val
        if v[0] == "agg" and v[4] == "Err":
            continue
        evs = [e for e in o.st.events if e[0] == "call" and "::ser::" in e[1]]
        kind, n, items, ended = None, None, [], False
        for e in evs:
            m = e[1].split("::")[-1]
            a = e[2]
            if m in ("serialize_tuple", "serialize_struct", "serialize_tuple_struct", "serialize_seq", "serialize_map"):
                kind = m[len("serialize_"):]
                n = a[-1]
            elif m in ("serialize_element", "serialize_field", "serialize_entry"):
                key = cstr(a[1]) if len(a) > 2 else None
                items.append((key, field_of(a[-1], recv) or "?" + absint.show(a[-1])[:60]))
            elif m == "end":
                ended = True
            else:
                items.append((None, "?" + m))
        direct = not evs
        if direct or not ended:
            items.append((None, "?no end()"))
        seqs.add((kind, n[1] if n and n[0] == "c" else None, tuple(items)))
    return seqs


class KeyInterp(Interp):
    """one document key, then the end of the document: the key loop is unrolled exactly"""

    def widen(self, fn, fr, b, st):
        n = st.visits.get((fr, b), 0)
        st.visits[(fr, b)] = n + 1
        return n < 3


def run_visitor(prog, f, args, models):
    I = KeyInterp(prog, inline=lambda g: g.crate == "cavalier_contours" and "deserialize" not in g.n, models=models)
    return [o for o in I.run(f, args)]


def okval(o):
    if o.kind == "ret" and o.val[0] == "agg" and o.val[4] == "Ok":
        return o.val[5][0][1]
    return None


def check(rep, prog, serde, tier):
    p = serde
    rep.rule("serialize(): on every path that finishes, exactly the announced number of elements or fields is written, each struct field once, as itself")
    rep.rule("deserialize(): the same positions and the same keys select the same fields; a missing field is an error")
    rep.rule("field keys are the camelCase names (vertex data: 'vertexes'); vectors and vertices are the flat sequences [x, y] and [x, y, bulge]")
    ser, de = {}, {}
    for f in p.fns.values():
        t = (f.j.get("impl_trait") or "").split("::")[-1]
        a = adt_of(p, f)
        if t == "Serialize" and f.n == "serialize" and not a.startswith("__"):
            ser[a] = f
        if t == "Deserialize" and f.n == "deserialize" and a and not a.startswith("__"):
            de[a] = f
    for a in sorted(set(ser) | set(de) | set(SPEC)):
        rep.check(a in ser and a in de, "pair:" + a, "%s has no matching pair of Serialize and Deserialize implementations" % a)
        if a not in ser or a not in de:
            continue
        fs, fd = ser[a], de[a]
        rep.fn(fs)
        rep.fn(fd)
        rep.count("serializable types")
        fields = struct_fields(p, a)
        spec = SPEC.get(a)
        seqs = serialize_order(rep, p, fs, a)
        where = "%s:%s" % (fs.file, fs.line)
        rep.check(len(seqs) == 1, "paths:" + a, "%s (%s): the written elements differ between paths: %s" % (fs.short, where, sorted(map(str, seqs))))
        kind, n, items = sorted(seqs, key=str)[0]
        got = [x[1] for x in items]
        rep.check(sorted(got) == sorted(fields), "fields:" + a, "%s (%s) writes %s, the type has the fields %s" % (fs.short, where, got, fields))
        rep.check(n == len(got), "len:" + a, "%s (%s) announces %s elements and writes %d" % (fs.short, where, n, len(got)))
        rep.count("fields", len(got))
        if isinstance(spec, list):
            rep.check(kind in ("tuple", "seq") and got == spec, "order:" + a, "%s (%s) writes %s as %s, expected the sequence %s" % (fs.short, where, got, kind, spec))
            pos = tuple_positions(rep, p, fd, a, fields)
            rep.check(pos == spec, "read:" + a, "%s (%s:%s) reads positions as %s but they are written as %s" % (fd.short, fd.file, fd.line, pos, spec))
            continue
        keys = {x[1]: x[0] for x in items}
        want = spec or {x: camel(x) for x in fields}
        for x in fields:
            rep.check(keys.get(x) == want.get(x, camel(x)), "key:%s.%s" % (a, x), "%s (%s) writes field %s under key %s, expected %s" % (fs.short, where, x, keys.get(x), want.get(x, camel(x))))
        rep.check(kind == "struct", "kind:" + a, "%s (%s) is written as %s, expected a struct" % (fs.short, where, kind))
        # reading
        vs = [g for g in p.fns.values() if g.d.startswith(fd.d + "::")]
        vstr = [g for g in vs if g.n == "visit_str"]
        vmap = [g for g in vs if g.n == "visit_map"]
        vseq = [g for g in vs if g.n == "visit_seq"]
        if not (len(vstr) == 1 and len(vmap) == 1 and len(vseq) == 1):
            rep.fail("visitor:" + a, "%s (%s:%s): the visitor of %s was not recognised" % (fd.short, fd.file, fd.line, a))
            continue
        for g in vstr + vmap + vseq:
            rep.fn(g)
        for x in fields:
            k = keys.get(x)
            if k is None:
                continue
            fid = key_to_id(p, vstr[0], k)
            tgt = id_to_field(p, vmap[0], fid) if fid is not None else None
            rep.check(tgt == {x}, "key-read:%s.%s" % (a, x), "key %s of %s is written from field %s and read into %s (%s)" % (k, a, x, sorted(tgt) if tgt else "nothing", vmap[0].file))
        miss = missing(p, vmap[0])
        rep.check(miss == set(fields), "missing:" + a, "a document without field(s) %s is accepted for %s" % (sorted(set(fields) - miss), a))
        order = seq_order(p, vseq[0])
        rep.check(order == [got], "seq-order:" + a, "%s is written in the order %s but sequence formats read it back as %s" % (a, got, order))
    rep.floor("serializable types", 6)
    rep.floor("fields", 18)


def key_to_id(p, f, key):
    def eq(I, fn, fr, b, t, st, args, stack):
        for x in args:
            s = cstr(I.term(x, st))
            if s is not None:
                return iter([Out("ret", c(s == key), st)])
        return NotImplemented
    ids = set()
    for o in run_visitor(p, f, [("sym", "self"), ("sym", "key")], {"eq": eq}):
        v = okval(o)
        ids.add((v[3], v[4]) if v and v[0] == "agg" else None)
    if len(ids) == 1:
        return ids.pop()
    return None


def id_to_field(p, f, fid):
    """field filled by the value following a key with this id"""
    def next_key(I, fn, fr, b, t, st, args, stack):
        prev = any(e == ("key given",) for e in st.events)
        if prev:
            return iter([Out("ret", ok(NONE), st)])
        st.ev(("key given",))
        return iter([Out("ret", ok(some(absint.agg("adt", "__Field", fid[0], fid[1], ()))), st)])
    res = set()
    for o in run_visitor(p, f, [("sym", "self"), ("sym", "map")], {"next_key": next_key, "next_value": nval}):
        v = okval(o)
        if v and v[0] == "agg":
            hit = frozenset(n for n, x in v[5] if has(x, ("sym", "the value")))
            bad = frozenset(n for n, x in v[5] if n not in hit and not has_call(x, "missing_field"))
            res.add((hit, bad))
    if len(res) == 1:
        return set(res.pop()[0])
    return None


def nval(I, fn, fr, b, t, st, args, stack):
    return iter([Out("ret", ok(("sym", "the value")), st)])


def missing(p, f):
    """fields that are an error when absent"""
    def next_key(I, fn, fr, b, t, st, args, stack):
        return iter([Out("ret", ok(NONE), st)])
    out = None
    for o in run_visitor(p, f, [("sym", "self"), ("sym", "map")], {"next_key": next_key}):
        v = okval(o)
        if v and v[0] == "agg":
            s = {n for n, x in v[5] if has_call(x, "missing_field")}
            out = s if out is None else out & s
    return out or set()


def seq_order(p, f):
    orders = []
    for o in run_visitor(p, f, [("sym", "self"), ("sym", "seq")], {}):
        v = okval(o)
        if v and v[0] == "agg":
            r = sorted((count_call(x, "next_element"), n) for n, x in v[5])
            if [k for k, _ in r] != list(range(1, len(r) + 1)):
                orders.append(["?"] + [n for _, n in r])
            else:
                orders.append([n for _, n in r])
    out = []
    for x in orders:
        if x not in out:
            out.append(x)
    return out


def tuple_positions(rep, p, f, a, fields):
    """hand written sequence: Deserialize::deserialize into an array/tuple, then the struct is built from its elements"""
    n = None
    for b, t in f.calls():
        if (t["c"].get("r") or t["c"].get("d", "")).split("::")[-1] == "deserialize":
            s = p.place_ty(f, t["dst"])["s"]
            m = re.search(r"\[[^\[\];]+; (\d+)(_usize)?\]", s)
            if m:
                n = int(m.group(1))
            else:
                m = re.search(r"Result<\(([^()]*)\)", s)
                if m:
                    n = len([x for x in m.group(1).split(",") if x.strip()])
    vis = [g for g in p.fns.values() if g.d.startswith(f.d + "::") and g.n == "visit_seq"]
    if vis:
        r = seq_order(p, vis[0])
        return r[0] if len(r) == 1 else r
    if n is None:
        return None
    pos = None
    I = Interp(p, inline=lambda g: g.crate == "cavalier_contours" and g.n != "deserialize")
    for o in I.run(f, [("sym", "de")]):
        v = okval(o)
        if v and v[0] == "agg":
            m = {}
            for fn_, x in v[5]:
                if x[0] == "proj" and x[2][0] in ("c",) or x[0] == "proj":
                    m[int([q for q in x[2] if str(q).isdigit()][0])] = fn_
                elif x[0] == "fld" and str(x[2]).isdigit():
                    m[int(x[2])] = fn_
                elif x[0] == "index" and x[2][0] == "c":
                    m[int(x[2][1])] = fn_
            r = [m.get(i) for i in range(n)]
            pos = r if pos in (None, r) else ["?"]
    return pos


def has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(y, x) for y in t)


def has_call(t, name):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "call" and isinstance(t[1], str) and t[1].split("::")[-1] == name:
            return True
        return any(has_call(y, name) for y in t)
    return False


def count_call(t, name):
    if isinstance(t, tuple):
        k = 1 if len(t) > 1 and t[0] == "call" and isinstance(t[1], str) and t[1].split("::")[-1] == name else 0
        return k + sum(count_call(y, name) for y in t)
    return 0
