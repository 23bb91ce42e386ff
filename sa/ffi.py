"""Rules over the exported C API (crate cavalier_contours_ffi)."""
from absint import *
import re

CR = "cavalier_contours_ffi"

# ---------------------------------------------------------------------------------------------
# The documented C API (doc comments of the exported functions): parameter roles in order.
#   h  = object handle (null -> code 1);  opt = optional pointer (null allowed)
#   out = out parameter (documented valid place, written exactly on success); buf = data buffer
#   v  = by-value argument
# codes = documented status codes besides -1
API = {
    "cavc_pline_parallel_offset_o_init": dict(params=[("options", "hout")], codes={0, 1}),
    "cavc_pline_boolean_o_init": dict(params=[("options", "hout")], codes={0, 1}),
    "cavc_pline_create": dict(params=[("vertexes", "buf"), ("n_vertexes", "v"), ("is_closed", "v"), ("pline", "out")], codes={0}),
    "cavc_pline_f": dict(params=[("pline", "h")], free=True),
    "cavc_pline_reserve": dict(params=[("pline", "h"), ("additional", "v")], codes={0, 1}),
    "cavc_pline_clone": dict(params=[("pline", "h"), ("cloned", "out")], codes={0, 1}),
    "cavc_pline_get_is_closed": dict(params=[("pline", "h"), ("is_closed", "out")], codes={0, 1}),
    "cavc_pline_set_is_closed": dict(params=[("pline", "h"), ("is_closed", "v")], codes={0, 1}),
    "cavc_pline_get_vertex_count": dict(params=[("pline", "h"), ("count", "out")], codes={0, 1}),
    "cavc_pline_get_vertex_data": dict(params=[("pline", "h"), ("vertex_data", "obuf")], codes={0, 1}),
    "cavc_pline_set_vertex_data": dict(params=[("pline", "h"), ("vertex_data", "buf"), ("n_vertexes", "v")], codes={0, 1}),
    "cavc_pline_clear": dict(params=[("pline", "h")], codes={0, 1}),
    "cavc_pline_add": dict(params=[("pline", "h"), ("x", "v"), ("y", "v"), ("bulge", "v")], codes={0, 1}),
    "cavc_pline_get_vertex": dict(params=[("pline", "h"), ("position", "v"), ("vertex", "out")], codes={0, 1, 2}),
    "cavc_pline_set_vertex": dict(params=[("pline", "h"), ("position", "v"), ("vertex", "v")], codes={0, 1, 2}),
    "cavc_pline_remove": dict(params=[("pline", "h"), ("position", "v")], codes={0, 1, 2}),
    "cavc_pline_eval_path_length": dict(params=[("pline", "h"), ("path_length", "out")], codes={0, 1}),
    "cavc_pline_eval_area": dict(params=[("pline", "h"), ("area", "out")], codes={0, 1}),
    "cavc_pline_eval_wn": dict(params=[("pline", "h"), ("x", "v"), ("y", "v"), ("winding_number", "out")], codes={0, 1}),
    "cavc_pline_invert_direction": dict(params=[("pline", "h")], codes={0, 1}),
    "cavc_pline_scale": dict(params=[("pline", "h"), ("scale_factor", "v")], codes={0, 1}),
    "cavc_pline_translate": dict(params=[("pline", "h"), ("x_offset", "v"), ("y_offset", "v")], codes={0, 1}),
    "cavc_pline_remove_repeat_pos": dict(params=[("pline", "h"), ("pos_equal_eps", "v")], codes={0, 1}),
    "cavc_pline_remove_redundant": dict(params=[("pline", "h"), ("pos_equal_eps", "v")], codes={0, 1}),
    "cavc_pline_eval_extents": dict(params=[("pline", "h"), ("min_x", "out"), ("min_y", "out"), ("max_x", "out"), ("max_y", "out")], codes={0, 1, 2}),
    "cavc_pline_parallel_offset": dict(params=[("pline", "h"), ("offset", "v"), ("options", "opt"), ("result", "out")], codes={0, 1}),
    "cavc_pline_boolean": dict(params=[("pline1", "h"), ("pline2", "h"), ("operation", "v"), ("options", "opt"), ("pos_plines", "out"), ("neg_plines", "out")], codes={0, 1, 2}),
    "cavc_pline_create_approx_aabbindex": dict(params=[("pline", "h"), ("aabbindex", "out")], codes={0, 1}),
    "cavc_pline_create_aabbindex": dict(params=[("pline", "h"), ("aabbindex", "out")], codes={0, 1}),
    "cavc_aabbindex_f": dict(params=[("aabbindex", "h")], free=True),
    "cavc_aabbindex_get_extents": dict(params=[("aabbindex", "h"), ("min_x", "out"), ("min_y", "out"), ("max_x", "out"), ("max_y", "out")], codes={0, 1}),
    "cavc_plinelist_f": dict(params=[("plinelist", "h")], free=True),
    "cavc_plinelist_get_count": dict(params=[("plinelist", "h"), ("count", "out")], codes={0, 1}),
    "cavc_plinelist_get_pline": dict(params=[("plinelist", "h"), ("position", "v"), ("pline", "out")], codes={0, 1, 2}),
    "cavc_plinelist_pop": dict(params=[("plinelist", "h"), ("pline", "out")], codes={0, 1, 2}),
    "cavc_plinelist_take": dict(params=[("plinelist", "h"), ("position", "v"), ("pline", "out")], codes={0, 1, 2}),
}


def sym(n):
    return ("sym", n)


def exported(prog):
    return {f.n: f for f in prog.fns.values() if f.crate == CR and f.kind == "Fn" and f.j.get("no_mangle")}


def is_ext(t, x):
    return strip_ext(t) == x


class VecInterp(Interp):
    """keeps the contents of vectors filled by hand: ("bvec", elements) while straight-line, ("bloop", loop, before, per round)
    once a loop pushed to it in every round so far, ("bpend", ...) inside a later round"""

    def std_model(self, fn, fr, b, t, st, nk, args, stack):
        if re.search(r"alloc::vec::(new|with_capacity)$", nk):
            return iter([Out("ret", ("bvec", ()), st)])
        if nk in ("alloc::vec::push", "alloc::vec::extend", "alloc::vec::len", "alloc::vec::reserve") and args and args[0][0] == "ref":
            root, proj = self.deref(st, args[0])
            v = self.read(st, root, proj)
            if v[0] in ("bvec", "bloop"):
                if nk.endswith("reserve"):
                    return iter([Out("ret", UNIT, st)])
                if nk.endswith("push"):
                    x = (args[1], self.term(args[1], st))
                    if v[0] == "bvec":
                        v2 = ("bvec", v[1] + (x,))
                    else:
                        v2 = ("bpend",) + v[1:] + ((x,),)
                    self.write(st, root, proj, v2)
                    return iter([Out("ret", UNIT, st)])
                if nk.endswith("extend") and v == ("bvec", ()):
                    it = self.as_iter(args[1], st)
                    self.write(st, root, proj, ("coll", srcs(it), self.elem(st, it)))
                    return iter([Out("ret", UNIT, st)])
        return Interp.std_model(self, fn, fr, b, t, st, nk, args, stack)

    def growing(self, v, key):
        return v is not None and v[0] == "bloop" and v[1] == key

    def widen_value(self, ov, nv, fn, b, loc, key, n):
        if ov[0] == nv[0] == "bvec" and len(nv[1]) > len(ov[1]) and nv[1][:len(ov[1])] == ov[1]:
            return ("bloop", key, ov[1], nv[1][len(ov[1]):])
        if ov[0] == "bloop" and nv[0] == "bpend" and nv[1:4] == ov[1:4] and key == ov[1] and nv[4] == ov[3]:
            return ov
        return ("loop", fn.d, b, locname(loc)) if "bloop" in (ov[0], nv[0]) or "bpend" in (ov[0], nv[0]) else widened(ov, nv, fn.d, b, locname(loc))


class Api:
    """outcomes of every exported function, computed once"""

    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.fns = exported(prog)
        self.cache = {}

    def get(self, name):
        return self.fns.get(name)

    def args(self, f):
        """symbolic arguments named by position (parameter renames are harmless)"""
        return [sym(n) for n, _ in API[f.n]["params"]]

    def outcomes(self, name, pre=None):
        key = (name, tuple(sorted((pre or {}).items(), key=repr)))
        if key not in self.cache:
            f = self.fns[name]
            I = VecInterp(self.prog, inline=lambda g: g.crate == CR)
            st = State()
            for k, v in (pre or {}).items():
                st.facts[k] = v
            outs = list(I.run(f, self.args(f), st))
            for o in outs:
                for e in o.st.events:
                    if e[0] == "unsupported":
                        raise Limit("unsupported construct %s in %s" % (e[1], name))
            self.cache[key] = outs
            self.rep.count("paths", len(outs))
        return self.cache[key]


def api(rep, prog):
    a = Api(prog, rep)
    for name, spec in API.items():
        f = a.get(name)
        if rep.check(f is not None, "missing:" + name, "exported C function %s is gone (documented C API)" % name):
            if rep.check(f.argc == len(spec["params"]), "arity:" + name,
                         "%s takes %d parameters, the documented API has %d" % (name, f.argc, len(spec["params"]))):
                rep.fn(f)
                rep.count("exported functions")
    return a


def usable(a):
    for name, spec in API.items():
        f = a.get(name)
        if f is not None and f.argc == len(spec["params"]):
            yield name, spec, f


def panicked(o):
    return ("panicked",) in o.st.events


def loc(f):
    return "%s (%s:%s)" % (f.n, f.file, f.line)


PTR_HEADS = ("sym",)


def touches(e, p):
    """does event e access memory through pointer term p"""
    if e[0] in ("deref", "own", "free", "rawslice"):
        return e[1] == p
    if e[0] in ("write", "mutcall"):
        return e[1] == p
    return False


# ------------------------------------------------------------------------------------------- null
def check_null(rep, prog, serde, tier):
    rep.rule("for every handle parameter p: on every path on which p is null the function returns the documented "
             "code (1; nothing for the three free functions), dereferences no pointer, writes no out parameter, "
             "and calls no library operation")
    rep.rule("on every path every dereference of a handle parameter is dominated by a null test of that parameter; "
             "optional pointers likewise")
    a = api(rep, prog)
    for name, spec, f in usable(a):
        handles = [n for n, r in spec["params"] if r in ("h", "hout")]
        for h in handles:
            rep.count("null handle obligations")
            outs = a.outcomes(name, {("null", sym(h)): True})
            got = 0
            for o in outs:
                if panicked(o):
                    continue
                got += 1
                if spec.get("free"):
                    rep.check(o.kind == "ret", "null:%s:%s:panics" % (name, h), "%s: may panic when `%s` is null" % (loc(f), h))
                else:
                    rep.check(o.kind == "ret" and o.val == c(1), "null:%s:%s:code" % (name, h),
                              "%s: returns %s instead of the documented code 1 when `%s` is null" % (loc(f), o.val and show(o.val) if o.kind == "ret" else "a panic", h))
                bad = [e for e in o.st.events if e[0] in ("deref", "own", "free", "write", "mutcall", "rawslice", "call", "leak", "alloc") and not (e[0] == "call" and harmless(e))]
                rep.check(not bad, "null:%s:%s:effect" % (name, h),
                          "%s: with `%s` null the function still performs: %s" % (loc(f), h, "; ".join(show(e) for e in bad[:3])))
            rep.check(got >= 1, "null:%s:%s:nopath" % (name, h), "%s: no non-panicking path when `%s` is null" % (loc(f), h))
        # guarded dereferences on all paths (unconstrained run)
        guarded = handles + [n for n, r in spec["params"] if r == "opt"]
        for o in a.outcomes(name):
            for e in o.st.events:
                if e[0] in ("deref", "own"):
                    p = e[1]
                    if p in [sym(g) for g in guarded]:
                        rep.check(e[2] is False, "deref:%s:%s" % (name, p[1]),
                                  "%s: `%s` is dereferenced on a path with no preceding null test" % (loc(f), p[1]))
                    elif p[0] == "fld" and p[1][0] == "obj" and p[1][1] == sym("options"):
                        rep.check(e[2] is False, "deref:%s:options.%s" % (name, p[2]),
                                  "%s: option field `%s` (documented: may be null) is dereferenced without a null test" % (loc(f), p[2]))
                if e[0] == "rawslice" and API[name]["params"] and e[1] == sym("vertexes"):
                    rep.check(e[3] is False, "deref:%s:vertexes" % name,
                              "%s: the vertex array (documented: may be null) is read without a null test" % loc(f))
    rep.floor("null handle obligations", 36)
    rep.floor("exported functions", 36)


def harmless(e):
    return e[1].split("::")[-1] in ("default", "fmt")


# ------------------------------------------------------------------------------------------ panics
def check_panic(rep, prog, serde, tier):
    rep.rule("every status-returning exported function runs all fallible work inside the closure given to "
             "catch_unwind: outside it there is no call into the library, no assertion and no indexing")
    rep.rule("the caught-panic arm returns exactly -1; every other path returns one of the documented codes of that function (never -1)")
    rep.rule("the free functions contain only a null test and destructors")
    a = api(rep, prog)
    for name, spec, f in usable(a):
        outs = a.outcomes(name)
        pan = [o for o in outs if panicked(o)]
        if spec.get("free"):
            for o in outs:
                rep.check(o.kind == "ret", "escape:" + name, "%s: a panic can leave the exported function" % loc(f))
                for e in o.st.events:
                    if e[0] in ("panic",) or (e[0] == "call" and not dropish(e)):
                        if ("enter_catch",) not in o.st.events:
                            rep.check(False, "escape:%s:%s" % (name, e[1].split("::")[-1]),
                                      "%s: fallible work outside catch_unwind: %s" % (loc(f), show(e)))
            rep.count("free functions")
            continue
        rep.count("status functions")
        rep.check(bool(pan), "nocatch:" + name, "%s: no catch_unwind around the body: a Rust panic would unwind into C" % loc(f))
        for o in outs:
            rep.check(o.kind == "ret", "escape:" + name, "%s: a panic can leave the exported function (%s)" %
                      (loc(f), "; ".join(show(e) for e in o.st.events if e[0] == "panic")))
            if o.kind != "ret":
                continue
            inside = False
            for e in o.st.events:
                if e[0] == "enter_catch":
                    inside = True
                elif e[0] == "exit_catch":
                    inside = False
                elif not inside and e[0] in ("call", "deref", "own", "rawslice", "panic", "mutcall"):
                    rep.check(False, "outside:%s:%s" % (name, e[1] if e[0] == "call" else e[0]),
                              "%s: performed outside catch_unwind: %s" % (loc(f), show(e)))
            if panicked(o):
                rep.check(o.val == c(-1), "paniccode:" + name, "%s: a caught panic is reported as %s instead of -1" % (loc(f), show(o.val)))
            else:
                rep.check(o.val[0] == "c" and o.val[1] in spec["codes"], "code:%s:%s" % (name, show(o.val)[:40]),
                          "%s: returns %s, documented status codes are %s (and -1 for panics)" % (loc(f), show(o.val), sorted(spec["codes"])))
    # every code documented is produced by some path
    for name, spec, f in usable(a):
        if spec.get("free"):
            continue
        vals = {o.val[1] for o in a.outcomes(name) if o.kind == "ret" and o.val[0] == "c" and not panicked(o)}
        for k in spec["codes"]:
            rep.check(k in vals, "codemissing:%s:%d" % (name, k), "%s: documented status code %d is never returned" % (loc(f), k))
    # panic=abort would defeat containment: the workspace profile must keep unwinding
    rep.floor("status functions", 33)
    rep.floor("free functions", 3)


def dropish(e):
    return e[1].split("::")[-1] in ("drop", "drop_in_place", "default")


# ------------------------------------------------------------------------------------- out params
def outparams(spec):
    return [n for n, r in spec["params"] if r in ("out", "hout")]


def written(o, p):
    return (("O", sym(p)), ()) in o.st.mem or full_fields(o, p)


def full_fields(o, p):
    return False


def check_out(rep, prog, serde, tier):
    rep.rule("on every path returning 0 each out parameter has been written in full; on every path returning any other "
             "status no out parameter, data buffer or input object has been written")
    a = api(rep, prog)
    for name, spec, f in usable(a):
        if spec.get("free"):
            continue
        outs_p = outparams(spec)
        for o in a.outcomes(name):
            if o.kind != "ret" or panicked(o):
                continue
            if o.val == c(0):
                for p in outs_p:
                    rep.count("success-path out parameters")
                    rep.check(written(o, p), "unwritten:%s:%s" % (name, p),
                              "%s: a path returns success (0) without writing out parameter `%s`" % (loc(f), p))
            else:
                effects = [e for e in o.st.events if e[0] in ("write", "mutcall", "free", "own") and rooted(e[1], [n for n, _ in spec["params"]])]
                rep.count("error paths")
                rep.check(not effects, "erreffect:%s:%s" % (name, show(o.val)[:20]),
                          "%s: a path returning error %s has already modified caller-visible state: %s" %
                          (loc(f), show(o.val), "; ".join(show(e)[:200] for e in effects[:2])))
                leaks = [e for e in o.st.events if e[0] == "leak"]
                rep.check(not leaks, "errleak:%s" % name, "%s: a path returning error %s leaks an allocated object" % (loc(f), show(o.val)))
    # the vertex-data buffer is filled for every vertex on success
    name = "cavc_pline_get_vertex_data"
    f = a.get(name)
    if f:
        ok = False
        for o in a.outcomes(name):
            if o.kind == "ret" and o.val == c(0) and not panicked(o):
                for e in o.st.events:
                    if e[0] == "write" and buf_root(e[1]) == sym("vertex_data"):
                        ok = True
        rep.check(ok, "unwritten:%s:vertex_data" % name, "%s: the vertex buffer is never written" % loc(f))
    rep.floor("success-path out parameters", 30)
    rep.floor("error paths", 33)


def buf_root(t):
    while t[0] in ("slice", "fld", "as", "index", "obj", "elem"):
        t = t[1]
    return t


def rooted(t, names):
    """pointer term t is (derived from) one of the parameters"""
    while isinstance(t, tuple) and t and t[0] in ("fld", "as", "obj", "index", "slice", "elem", "call"):
        if t[0] == "call":
            if not t[2]:
                return False
            t = t[2][0]
        else:
            t = t[1]
    return isinstance(t, tuple) and t and t[0] == "sym" and t[1] in names


# --------------------------------------------------------------------------------------- ownership
HANDLE_OUT = {"cavc_pline_create": ["pline"], "cavc_pline_clone": ["cloned"],
              "cavc_pline_parallel_offset": ["result"], "cavc_pline_boolean": ["pos_plines", "neg_plines"],
              "cavc_pline_create_approx_aabbindex": ["aabbindex"], "cavc_pline_create_aabbindex": ["aabbindex"]}


def list0(p):
    return ("fld", ("obj", sym(p)), "0")


def check_own(rep, prog, serde, tier):
    rep.rule("creating functions hand each out parameter its own freshly boxed object (released with into_raw, never "
             "freed or shared), list results hold one fresh object per result polyline")
    rep.rule("only the free functions take ownership of a handle parameter, exactly once, on exactly the non-null paths; "
             "freeing a polyline list also frees every polyline it holds")
    rep.rule("pop/take remove exactly the returned element from the list; get_pline returns the stored pointer and leaves the list untouched")
    a = api(rep, prog)
    for name, spec, f in usable(a):
        params = [n for n, _ in spec["params"]]
        for o in a.outcomes(name):
            if o.kind != "ret" or panicked(o):
                continue
            evs = o.st.events
            owns = [e for e in evs if e[0] == "own"]
            frees = [e for e in evs if e[0] == "free"]
            if not spec.get("free"):
                bad = [e for e in owns + frees if rooted(e[1], params)]
                rep.check(not bad, "steals:%s" % name, "%s: takes ownership of / frees an object it was only lent: %s" % (loc(f), "; ".join(show(e) for e in bad)))
                rep.check(not [e for e in evs if e[0] == "forget"], "forget:%s" % name, "%s: forgets an owned value" % loc(f))
                leaks = [e[1] for e in evs if e[0] == "leak"]
                final = {}
                for p in outparams(spec):
                    v = o.st.mem.get((("O", sym(p)), ()))
                    final[p] = v
                if name in HANDLE_OUT and o.val == c(0):
                    roots = []
                    for p in HANDLE_OUT[name]:
                        v = final.get(p)
                        okv = v is not None and v[0] == "ref" and v[2] == () and v[1][0] == "H"
                        rep.count("handles handed out")
                        if rep.check(okv, "notfresh:%s:%s" % (name, p), "%s: `%s` does not receive a freshly allocated object (got %s)" % (loc(f), p, v and show(v))):
                            roots.append(v[1])
                            rep.check(v[1] in leaks, "dangling:%s:%s" % (name, p), "%s: the object stored in `%s` is still owned (and freed) by Rust" % (loc(f), p))
                            rep.check(not any(e[0] == "free" and e[1] == v for e in evs), "freed:%s:%s" % (name, p), "%s: the object stored in `%s` is freed before return" % (loc(f), p))
                    rep.check(len(set(roots)) == len(roots), "shared:%s" % name, "%s: two out parameters receive the same object" % loc(f))
                    # nested heap objects of lists
                    reach = set(roots)
                    work = list(roots)
                    while work:
                        r = work.pop()
                        for k, v in o.st.mem.items():
                            if k[0] == r:
                                for h in heap_refs(v, o.st):
                                    if h not in reach:
                                        reach.add(h)
                                        work.append(h)
                    for l in leaks:
                        rep.check(l in reach, "leak:%s" % name, "%s: an allocated object is released from Rust ownership but never reaches the caller" % loc(f))
                elif name not in HANDLE_OUT:
                    rep.check(not leaks, "leak:%s" % name, "%s: leaks an allocated object" % loc(f))
            else:
                h = sym(params[0])
                isnull = o.st.facts.get(("null", h))
                if isnull is False:
                    n = len([e for e in frees if e[1] == h])
                    rep.count("free paths")
                    rep.check(n == 1, "free:%s" % name, "%s: a path with a non-null handle frees the object %d times" % (loc(f), n))
                    rep.check(not [e for e in evs if e[0] in ("leak", "forget")], "freeleak:%s" % name, "%s: a path keeps the object alive (forget/into_raw)" % loc(f))
                    others = [e for e in frees if e[1] != h and not list_elem(e[1], params[0])]
                    rep.check(not others, "freeother:%s" % name, "%s: frees something it does not own: %s" % (loc(f), "; ".join(show(e) for e in others)))
        # every null/non-null path exists
        if spec.get("free"):
            rep.check(any(o.st.facts.get(("null", sym(params[0]))) is False for o in a.outcomes(name)), "nofree:%s" % name,
                      "%s: no path handles a non-null handle" % loc(f))
    # list elements
    f = a.get("cavc_plinelist_f")
    if f:
        # on every path that exhausts the element iteration having entered it, elements are freed;
        # some path frees a generic element, and no path ends without having iterated
        okany = False
        bad = None
        for o in a.outcomes("cavc_plinelist_f"):
            if o.kind != "ret" or o.st.facts.get(("null", sym("plinelist"))) is not False:
                continue
            freed = [e for e in o.st.events if e[0] == "free" and list_elem(e[1], "plinelist")]
            exhausted = [e for e in o.st.events if e[0] == "exhausted" and "plinelist" in repr(e[1])]
            if freed:
                okany = True
            elif not exhausted and not any(e[0] == "foreach" for e in o.st.events):
                bad = o
        rep.check(okany and bad is None, "listfree:elements", "%s: freeing a polyline list does not free the polylines it owns (memory leak; documented: frees the list and all polylines owned by it)" % loc(f))
        # the loop leaves only when every element was visited
        for o in a.outcomes("cavc_plinelist_f"):
            if o.kind == "ret" and any(e[0] == "free" and list_elem(e[1], "plinelist") for e in o.st.events):
                rep.check(any(e[0] == "exhausted" for e in o.st.events), "listfree:partial", "%s: the element loop can stop before every owned polyline was freed" % loc(f))
    # pop / take / get
    for name, opn in (("cavc_plinelist_pop", "pop"), ("cavc_plinelist_take", "remove")):
        f = a.get(name)
        if not f:
            continue
        for o in a.outcomes(name):
            if o.kind != "ret" or panicked(o):
                continue
            muts = [e for e in o.st.events if e[0] == "mutcall" and rooted(e[1], ["plinelist"])]
            if o.val == c(0):
                v = o.st.mem.get((("O", sym("pline")), ()))
                vec_calls = [e for e in muts]
                ok = len(vec_calls) == 1
                rep.check(ok, "transfer:%s:count" % name, "%s: %d list mutations on the success path, exactly one removal expected" % (loc(f), len(vec_calls)))
                if ok:
                    nm = vec_calls[0][3].split("::")[-1]
                    call = ("call", vec_calls[0][3], vec_calls[0][4])
                    src = v
                    if src is not None and src[0] == "fld" and src[1][0] == "as" and src[1][2] == "Some":
                        src = src[1][1]
                    rep.check(src == call, "transfer:%s:value" % name, "%s: the returned pointer (%s) is not the element removed from the list (%s)" % (loc(f), v and show(v), show(call)))
                    idx_ok = nm in ("pop", "remove", "swap_remove")
                    if name.endswith("take"):
                        idx_ok = nm == "remove" and len(vec_calls[0][4]) == 2 and is_ext(vec_calls[0][4][1], sym("position"))
                    else:
                        idx_ok = nm == "pop"
                    rep.check(idx_ok, "transfer:%s:op" % name, "%s: removes the wrong element or reorders the list (%s)" % (loc(f), show(call)))
    f = a.get("cavc_plinelist_get_pline")
    if f:
        for o in a.outcomes("cavc_plinelist_get_pline"):
            if o.kind == "ret" and not panicked(o):
                muts = [e for e in o.st.events if e[0] in ("mutcall", "write") and rooted(e[1], ["plinelist"])]
                rep.check(not muts, "get:mutates", "%s: modifies the list (ownership must stay with the list)" % loc(f))
                if o.val == c(0):
                    v = o.st.mem.get((("O", sym("pline")), ()))
                    rep.check(v is not None and is_list_elem_at(v, "plinelist", "position"), "get:value", "%s: does not return the stored pointer at `position` (got %s)" % (loc(f), v and show(v)))
    rep.floor("handles handed out", 6)
    rep.floor("free paths", 3)


def is_list_elem_at(v, lst, pos):
    """v denotes list[pos]: *get(list, pos)?Some.0 | index(list,pos)"""
    if v[0] == "obj":
        v = v[1]
    if v[0] == "fld" and v[1][0] == "as" and v[1][2] == "Some":
        v = v[1][1]
    if v[0] == "call" and v[1].split("::")[-1] in ("get", "index", "get_unchecked"):
        return v[2][0] == list0(lst) and is_ext(v[2][1], sym(pos))
    if v[0] == "index":
        return v[1] == list0(lst) and is_ext(v[2], sym(pos))
    return False


def list_elem(t, p):
    """t is a generic element of list parameter p (or popped from it)"""
    r = repr(t)
    return ("'elem'" in r or "'pop'" in r or "::pop" in r or "'index'" in r or "remove" in r) and repr(sym(p)) in r


def heap_refs(v, st):
    out = set()
    def rec(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "ref" and isinstance(x[1], tuple) and x[1] and x[1][0] == "H":
                out.add(x[1])
            elif len(x) == 2 and x[0] == "H":
                out.add(x)
            for y in x:
                rec(y)
    rec(v)
    return out



# ---------------------------------------------------------------------------------------- options
def opt_fields(prog, adt):
    a = [x for k, x in prog.adts.items() if k.split("::")[-1] == adt]
    return [n for n, _, _ in a[0]["vars"][0][1]] if a else []


def check_options(rep, prog, serde, tier):
    rep.rule("with a non-null options pointer every field of the core options value handed to the core operation is that "
             "same-named field of the C struct (index: null -> none, else the wrapped index; flag: non-zero); with a null "
             "pointer the core defaults are used")
    rep.rule("the option initialisers store the core default of each field and a null index, and no other value")
    a = api(rep, prog)
    for name, opn, adt, idx, flags in (
            ("cavc_pline_parallel_offset", "parallel_offset", "PlineOffsetOptions", "aabb_index", ["handle_self_intersects"]),
            ("cavc_pline_boolean", "boolean", "PlineBooleanOptions", "pline1_aabb_index", [])):
        f = a.get(name)
        if not f:
            continue
        fields = opt_fields(prog, adt)
        rep.check(len(fields) >= 2, "fields:" + adt, "struct %s not found in the core crate" % adt)
        o_ptr = sym("options")
        for o in a.outcomes(name):
            if o.kind != "ret" or panicked(o) or o.val != c(0):
                continue
            calls = [e for e in o.st.events if e[0] == "call" and re.search(r"::%s(_opt)?$" % opn, e[1])]
            isnull = o.st.facts.get(("null", o_ptr))
            if not rep.check(len(calls) == 1, "opt:%s:calls" % name, "%s: %d calls of the core operation on a success path" % (loc(f), len(calls))):
                continue
            call = calls[0]
            withopt = call[1].endswith("_opt")
            rep.count("option paths")
            if isnull is not False:
                if withopt:
                    ov = call[2][-1]
                    rep.check(is_default(ov, fields), "opt:%s:nulldefault" % name, "%s: with null options the core operation is given %s instead of the defaults" % (loc(f), show(ov)))
                else:
                    rep.ob()
                continue
            if not rep.check(withopt, "opt:%s:ignored" % name, "%s: caller-supplied options are ignored (default variant called)" % loc(f)):
                continue
            ov = call[2][-1]
            if not rep.check(ov[0] == "agg", "opt:%s:shape" % name, "%s: cannot follow the options value %s" % (loc(f), show(ov))):
                continue
            got = dict(ov[5])
            for fld in fields:
                v = got.get(fld)
                src = ("fld", ("obj", o_ptr), fld)
                rep.count("option fields")
                if fld == idx:
                    nul = o.st.facts.get(("null", src))
                    if nul is False:
                        want = some(("fld", ("obj", src), "0"))
                        ok = v == want
                    else:
                        ok = nul is True and v == NONE
                elif fld in flags:
                    ok = v == ("not", ("eq", src, c(0))) or v == ("bin", "Ne", src, c(0)) or v == ("lt", c(0), src)
                    f_ = o.st.facts.get(("int", src))
                    if v is not None and v[0] == "c" and f_:
                        ok = ok or (v[1] == (not (f_ == ("eq", 0))))
                else:
                    ok = v == src
                rep.check(ok, "opt:%s:%s" % (name, fld), "%s: option `%s` reaches the core operation as %s" % (loc(f), fld, v and show(v)))
    for name, adt, idx in (("cavc_pline_parallel_offset_o_init", "PlineOffsetOptions", "aabb_index"),
                           ("cavc_pline_boolean_o_init", "PlineBooleanOptions", "pline1_aabb_index")):
        f = a.get(name)
        if not f:
            continue
        fields = opt_fields(prog, adt)
        for o in a.outcomes(name):
            if o.kind != "ret" or panicked(o) or o.val != c(0):
                continue
            v = read_out(o, "options")
            for fld in fields:
                rep.count("option defaults")
                x = field(v, fld)
                if fld == idx:
                    ok = x == ("nullptr",)
                else:
                    ok = is_default_field(strip_ext(x), adt, fld)
                rep.check(ok, "init:%s:%s" % (name, fld), "%s: `%s` is initialised to %s, expected %s" %
                          (loc(f), fld, show(x), "null" if fld == idx else "the core default of `%s`" % fld))
    rep.floor("option paths", 6)
    rep.floor("option fields", 14)
    rep.floor("option defaults", 7)


def read_out(o, p):
    st = o.st
    I = Interp(None)
    return I.read(st, ("O", sym(p)), ())


def field(v, n):
    if v[0] == "agg":
        return dict(v[5]).get(n, ("undef",))
    if v[0] == "upd" and v[2] and v[2][0] == ("f", n):
        return v[3]
    return ("fld", v, n)


def is_default_field(x, adt, fld):
    return x[0] == "fld" and x[2] == fld and is_default(x[1], None)


def is_default(v, fields):
    return v[0] == "call" and v[1].split("::")[-1] in ("default", "new") and v[2] == () or v == ("default",)


# ---------------------------------------------------------------------------------------- boolean
OPS = {0: "Or", 1: "And", 2: "Not", 3: "Xor"}


def check_boolop(rep, prog, serde, tier):
    rep.rule("operation codes 0,1,2,3 select Or, And, Not, Xor; every other code returns 2 before any computation")
    rep.rule("polyline 1 is the receiver and polyline 2 the argument; positive results go to pos_plines and negative results to neg_plines, each polyline unchanged")
    a = api(rep, prog)
    name = "cavc_pline_boolean"
    f = a.get(name)
    if not f:
        return
    op = sym("operation")
    codes = list(OPS) + [4, 5, 0xFFFFFFFF, None]
    for n in codes:
        pre = {("null", sym("pline1")): False, ("null", sym("pline2")): False}
        if n is None:
            pre[("int", op)] = ("ne", frozenset(OPS))
        else:
            pre[("int", op)] = ("eq", n)
        got = 0
        for o in a.outcomes(name, pre):
            if o.kind != "ret" or panicked(o):
                continue
            got += 1
            calls = [e for e in o.st.events if e[0] == "call" and re.search(r"::boolean(_opt)?$", e[1])]
            rep.count("operation code cases")
            if n not in OPS:
                rep.check(o.val == c(2) and not calls, "boolop:unknown:%s" % ("other" if n is None else n), "%s: operation code %s (not documented) yields %s" % (loc(f), "outside 0..3" if n is None else n, show(o.val)))
                continue
            if not rep.check(o.val == c(0) and len(calls) == 1, "boolop:%d" % n, "%s: operation code %d does not run the boolean operation exactly once (returns %s)" % (loc(f), n, show(o.val))):
                continue
            call = calls[0][2]
            v = call[2]
            rep.check(v[0] == "agg" and v[4] == OPS[n], "boolop:%d:op" % n, "%s: operation code %d runs %s, documented: %s" % (loc(f), n, show(v), OPS[n]))
            rep.check(call[0] == list0("pline1") and call[1] == list0("pline2"), "boolop:operands", "%s: operands are %s and %s instead of pline1 and pline2" % (loc(f), show(call[0]), show(call[1])))
            res = ("call",) + calls[0][1:3]
            for p, fld in (("pos_plines", "pos_plines"), ("neg_plines", "neg_plines")):
                ok, why = list_of(o, p, ("fld", res, fld))
                rep.check(ok, "boolop:result:%s" % p, "%s: `%s` does not receive the %s of the operation: %s" % (loc(f), p, fld, why))
        rep.check(got > 0, "boolop:%s:nopath" % n, "%s: no path for operation code %s" % (loc(f), n))
    rep.floor("operation code cases", 4)


def list_of(o, p, source):
    """out parameter p holds a heap cavc_plinelist whose elements are one boxed cavc_pline per
    element of `source` (possibly through field .pline), in order"""
    v = o.st.mem.get((("O", sym(p)), ()))
    if v is None or v[0] != "ref" or v[1][0] != "H":
        return False, "not a fresh list (%s)" % (v and show(v))
    lst = o.st.mem.get((v[1], ()))
    if lst is None or lst[0] != "agg":
        return False, "no list object"
    coll = lst[5][0][1]
    e = ("elem", source)
    if coll[0] in ("bvec", "bloop"):
        # a vector filled by hand: pushed to once for each element of one exhausted iteration over the source
        each = ("each", source, True) in o.st.events
        if not each and ("exhausted", source) not in o.st.events and ("each", source, False) not in o.st.events:
            return False, "the loop building it does not run over every element of %s" % show(source)
        if coll[0] == "bvec" and len(coll[1]) != (1 if each else 0) or coll[0] == "bloop" and (len(coll[2]), len(coll[3])) != (0, 1):
            return False, "it does not receive exactly one object per element"
        for _, h in coll[-1]:
            if not (h[0] == "agg" and len(h[5]) == 1 and h[5][0][1] in (e, ("fld", e, "pline"))):
                return False, "element is %s" % show(h)
        return True, ""
    if coll[0] != "coll":
        return False, "the list is not one element per result (%s)" % show(coll)
    if coll[1] != source:
        return False, "it is built from %s" % show(coll[1])
    h = Interp(None).term(coll[2], o.st)
    if h[0] == "agg" and len(h[5]) == 1:
        inner = h[5][0][1]
        if inner in (e, ("fld", e, "pline")):
            return True, ""
        return False, "element is %s" % show(inner)
    return False, "element is %s" % show(h)


# ----------------------------------------------------------------------------------------- bounds
def check_bounds(rep, prog, serde, tier):
    rep.rule("position arguments: on every path an element access with `position` is preceded by a comparison establishing "
             "position < current element count of the very same object (or goes through a checked accessor), and the "
             "out-of-range side returns 2")
    rep.rule("counts handed to C are converted with a checked conversion (no truncation); buffers are sized with the element count of the same object / the caller's length")
    a = api(rep, prog)
    # (function, object param)
    for name, objp in (("cavc_pline_get_vertex", "pline"), ("cavc_pline_set_vertex", "pline"), ("cavc_pline_remove", "pline"),
                       ("cavc_plinelist_get_pline", "plinelist"), ("cavc_plinelist_take", "plinelist")):
        f = a.get(name)
        if not f:
            continue
        obj = list0(objp)
        for o in a.outcomes(name):
            if o.kind != "ret" or panicked(o) or o.st.facts.get(("null", sym(objp))) is not False:
                continue
            rng = in_range(o, obj, sym("position"))
            rep.count("position paths")
            if o.val == c(0):
                rep.check(rng is True, "bounds:%s:unchecked" % name, "%s: a success path uses `position` without having established that it is below the element count of `%s`" % (loc(f), objp))
                # the accessed position is `position` itself
                acc = [e for e in o.st.events if e[0] in ("call", "mutcall") and (e[1] if e[0] == "call" else e[3]).split("::")[-1] in ("index", "index_mut", "get", "get_mut", "at", "remove", "set", "set_vertex", "swap_remove", "get_unchecked")]
                for e in acc:
                    args = e[2] if e[0] == "call" else e[4]
                    rep.check(args[0] == obj and len(args) > 1 and is_ext(args[1], sym("position")), "bounds:%s:target" % name,
                              "%s: the element accessed is not `%s`[position]: %s" % (loc(f), objp, show(e)))
                rep.check(bool(acc), "bounds:%s:noaccess" % name, "%s: success path without an element access" % loc(f))
            else:
                rep.check(rng is False and o.val == c(2), "bounds:%s:code" % name, "%s: returns %s on a path where position is %s" % (loc(f), show(o.val), {True: "in range", False: "out of range", None: "not compared with the element count"}[rng]))
    for name, objp, counter in (("cavc_pline_get_vertex_count", "pline", "vertex_count"), ("cavc_plinelist_get_count", "plinelist", "len")):
        f = a.get(name)
        if not f:
            continue
        for o in a.outcomes(name):
            if o.kind == "ret" and o.val == c(0) and not panicked(o):
                v = read_out(o, "count")
                ok = checked_count(v, list0(objp), counter)
                rep.count("counts")
                rep.check(ok, "count:%s" % name, "%s: reported count is %s, expected a checked conversion of the element count of `%s`" % (loc(f), show(v), objp))
    # buffers
    f = a.get("cavc_pline_get_vertex_data")
    if f:
        for o in a.outcomes(f.n):
            for e in o.st.events:
                if e[0] == "rawslice" and e[1] == sym("vertex_data"):
                    rep.count("buffers")
                    rep.check(is_count(e[2], list0("pline"), "vertex_count"), "buffer:%s" % f.n, "%s: buffer length is %s, documented: the vertex count of `pline`" % (loc(f), show(e[2])))
    for name, buf in (("cavc_pline_create", "vertexes"), ("cavc_pline_set_vertex_data", "vertex_data")):
        f = a.get(name)
        if not f:
            continue
        for o in a.outcomes(name):
            for e in o.st.events:
                if e[0] == "rawslice" and e[1] == sym(buf):
                    rep.count("buffers")
                    rep.check(is_ext(e[2], sym("n_vertexes")), "buffer:%s" % name, "%s: reads %s elements from the caller's array, documented: n_vertexes" % (loc(f), show(e[2])))
    # raw slices only where documented, no unchecked element access anywhere in the FFI crate
    for name, spec, f in usable(a):
        for o in a.outcomes(name):
            for e in o.st.events:
                if e[0] == "rawslice":
                    rep.check(e[1] in (sym("vertexes"), sym("vertex_data")), "rawslice:%s" % name, "%s: builds a slice from %s" % (loc(f), show(e[1])))
                if e[0] == "call":
                    rep.check(not re.search(r"unchecked|const_ptr::(add|offset|sub)|mut_ptr::(add|offset|sub)", e[1]) or "iter" in e[1], "unchecked:%s" % name, "%s: unchecked memory access %s" % (loc(f), show(e)))
    rep.floor("position paths", 10)
    rep.floor("counts", 2)
    rep.floor("buffers", 3)


def is_count(t, obj, counter):
    t = strip_ext(t)
    if t[0] == "len":
        return t[1] == obj
    return t[0] == "call" and t[1].split("::")[-1] in (counter, "len", "vertex_count") and t[2] == (obj,)


def checked_count(v, obj, counter):
    # unwrap(try_from(count)) / try_into, i.e. payload Ok of the checked conversion
    if v[0] == "fld" and v[1][0] == "as" and v[1][2] == "Ok":
        v = v[1][1]
        return v[0] == "call" and v[1] == "try_from" and is_count(v[2][0], obj, counter)
    return False


def in_range(o, obj, pos):
    """True / False / None: what the path's facts say about pos < count(obj) at entry state"""
    for k, v in o.st.facts.items():
        if k[0] == "b" and k[1][0] == "lt":
            x, y = k[1][1], k[1][2]
            y2 = y[3] if y[0] == "trunc" else y
            if is_ext(x, pos) and is_count(y2, obj, "vertex_count"):
                return v
            x2 = strip_ext(x)
            if False:
                pass
        if k[0] == "int" and k[1][0] == "discr" and k[1][1][0] == "call":
            cl = k[1][1]
            if cl[1].split("::")[-1] in ("get", "get_mut") and len(cl[2]) == 2 and cl[2][0] == obj and is_ext(cl[2][1], pos):
                if v == ("eq", 1) or v == ("ne", frozenset([0])):
                    return True
                if v == ("eq", 0) or v == ("ne", frozenset([1])):
                    return False
    return None


# ------------------------------------------------------------------------------------ forwarding
def CALL(o, name):
    return [e for e in o.st.events if e[0] == "call" and e[1].split("::")[-1] == name]


def MUT(o, p):
    return [e for e in o.st.events if (e[0] == "mutcall" or e[0] == "write") and rooted(e[1], [p]) and e[1] == sym(p)]


def check_forward(rep, prog, serde, tier):
    rep.rule("each wrapper delivers exactly the result of the library operation it documents: receiver is the polyline "
             "behind the handle, arguments are the C arguments in order, every out parameter receives its own component")
    a = api(rep, prog)
    P = list0("pline")

    def succ(name):
        f = a.get(name)
        if f is None:
            return
        n = 0
        for o in a.outcomes(name):
            if o.kind == "ret" and o.val == c(0) and not panicked(o):
                n += 1
                yield f, o
        rep.check(n > 0, "fwd:%s:nosuccess" % name, "%s has no success path" % name)

    def opcall(v, name, args):
        if v is None:
            return False
        v = strip_ext(v)
        return v[0] == "call" and v[1].split("::")[-1] == name and v[1].startswith("cavalier_contours::") and tuple(strip_ext(x) for x in v[2]) == tuple(args)

    # value getters
    for name, p, op, args in (("cavc_pline_eval_path_length", "path_length", "path_length", [P]),
                              ("cavc_pline_eval_area", "area", "area", [P]),
                              ("cavc_pline_get_is_closed", "is_closed", "is_closed", [P])):
        for f, o in succ(name):
            v = read_out(o, p)
            rep.count("forwarded results")
            v2 = v
            ok = opcall(v, op, args)
            if op == "is_closed" and not ok:
                # also: if closed {1} else {0}
                fact = [b for k, b in o.st.facts.items() if k[0] == "b" and opcall(k[1], op, args)]
                ok = bool(fact) and v == c(int(fact[0]))
            rep.check(ok, "fwd:" + name, "%s: `%s` receives %s instead of %s of the polyline" % (loc(f), p, show(v), op))
            rep.check(not MUT(o, "pline"), "fwd:%s:mutates" % name, "%s: a query modifies its polyline" % loc(f))
    for f, o in succ("cavc_pline_eval_wn"):
        v = read_out(o, "winding_number")
        okv = v[0] == "call" and v[1].endswith("::winding_number") and v[2][0] == P and vec_of(v[2][1], "x", "y")
        rep.count("forwarded results")
        rep.check(okv, "fwd:cavc_pline_eval_wn", "%s: winding_number receives %s" % (loc(f), show(v)))
    for f, o in succ("cavc_pline_get_vertex"):
        v = read_out(o, "vertex")
        rep.count("forwarded results")
        rep.check(vertex_is(v, lambda t: at_pos(t, P, "position")), "fwd:cavc_pline_get_vertex", "%s: vertex receives %s" % (loc(f), show(v)))
    for f, o in succ("cavc_pline_eval_extents"):
        for p in ("min_x", "min_y", "max_x", "max_y"):
            v = read_out(o, p)
            src = ("fld", ("as", ("call", None, (P,)), "Some"), "0")
            ok = v[0] == "fld" and v[2] == p and some_of(v[1], "extents", (P,))
            rep.count("forwarded results")
            rep.check(ok, "fwd:cavc_pline_eval_extents:" + p, "%s: `%s` receives %s" % (loc(f), p, show(v)))
    A = list0("aabbindex")
    for f, o in succ("cavc_aabbindex_get_extents"):
        isnone = None
        for k, v in o.st.facts.items():
            if k[0] == "int" and k[1][0] == "discr" and k[1][1][0] == "call" and k[1][1][1].endswith("::bounds") and k[1][1][2] == (A,):
                isnone = v in (("eq", 0), ("ne", frozenset([1])))
        for p in ("min_x", "min_y", "max_x", "max_y"):
            v = read_out(o, p)
            rep.count("forwarded results")
            if isnone:
                ok = v[0] in ("const", "fl") and "nan" in str(v[1]).lower()
            else:
                ok = v[0] == "fld" and v[2] == p and some_of(v[1], "bounds", (A,))
            rep.check(ok, "fwd:cavc_aabbindex_get_extents:%s" % p, "%s: `%s` receives %s %s" % (loc(f), p, show(v), "for an empty index (documented: NaN)" if isnone else ""))
    # mutators: exactly one mutation, the documented one
    for name, op, extra in (("cavc_pline_reserve", "reserve", ["additional"]), ("cavc_pline_clear", "clear", []),
                            ("cavc_pline_add", "add", ["x", "y", "bulge"]), ("cavc_pline_remove", "remove", ["position"]),
                            ("cavc_pline_invert_direction", "invert_direction_mut", []), ("cavc_pline_scale", "scale_mut", ["scale_factor"]),
                            ("cavc_pline_translate", "translate_mut", ["x_offset", "y_offset"])):
        for f, o in succ(name):
            m = MUT(o, "pline")
            rep.count("forwarded mutations")
            ok = len(m) == 1 and m[0][0] == "mutcall" and (
                m[0][3].split("::")[-1] == op and tuple(strip_ext(x) for x in m[0][4][1:]) == tuple(sym(x) for x in extra)
                or op == "add" and m[0][3].split("::")[-1] in ("add_vertex",) and vertex_term(m[0][4][1], extra)
            ) and m[0][2] == (("f", "0"),)
            rep.check(ok, "fwd:" + name, "%s: performs %s; documented effect is %s(%s)" % (loc(f), "; ".join(show(e) for e in m) or "no mutation", op, ", ".join(extra)))
    for f, o in succ("cavc_pline_set_is_closed"):
        m = MUT(o, "pline")
        src = sym("is_closed")
        ok = len(m) == 1 and m[0][0] == "mutcall" and m[0][3].endswith("::set_is_closed") and nonzero(m[0][4][1], src, o)
        rep.count("forwarded mutations")
        rep.check(ok, "fwd:cavc_pline_set_is_closed", "%s: performs %s" % (loc(f), "; ".join(show(e) for e in m)))
    for f, o in succ("cavc_pline_set_vertex"):
        rep.count("forwarded mutations")
        ok = False
        for e in o.st.events:
            if e[0] == "write" and e[1][0] == "call" and e[1][1].endswith("::index_mut") and e[1][2][0] == P and is_ext(e[1][2][1], sym("position")) and e[2] == ():
                ok = pv_is(e[3], lambda t, k: t == ("fld", sym("vertex"), k))
            if e[0] == "mutcall" and e[3].split("::")[-1] in ("set_vertex", "set") and e[1] == sym("pline") and is_ext(e[4][1], sym("position")):
                if e[3].endswith("::set_vertex"):
                    ok = pv_is(e[4][2], lambda t, k: t == ("fld", sym("vertex"), k))
                else:
                    ok = tuple(e[4][2:]) == tuple(("fld", sym("vertex"), k) for k in ("x", "y", "bulge"))
        rep.check(ok, "fwd:cavc_pline_set_vertex", "%s: the vertex at `position` is not replaced by the given x, y, bulge" % loc(f))
    for nm in ("remove_repeat_pos", "remove_redundant"):
        name = "cavc_pline_" + nm
        seen = set()
        for f, o in succ(name):
            calls = CALL(o, nm)
            rep.count("forwarded mutations")
            if not rep.check(len(calls) == 1 and calls[0][2] == (P, sym("pos_equal_eps")), "fwd:%s:call" % name, "%s: %s is not run exactly once on the polyline with the given tolerance" % (loc(f), nm)):
                continue
            call = ("call",) + calls[0][1:3]
            var = [v for k, v in o.st.facts.items() if k == ("int", ("discr", call))]
            isnone = bool(var) and var[0] in (("eq", 0), ("ne", frozenset([1])))
            seen.add(isnone)
            m = MUT(o, "pline")
            if isnone:
                rep.check(not m, "fwd:%s:none" % name, "%s: modifies the polyline although nothing was removed: %s" % (loc(f), "; ".join(show(e) for e in m)))
            else:
                ok = len(m) == 1 and m[0][0] == "write" and m[0][2] == (("f", "0"),) and m[0][3] == ("fld", ("as", call, "Some"), "0")
                rep.check(ok, "fwd:%s:some" % name, "%s: the cleaned polyline is not stored back (effect: %s)" % (loc(f), "; ".join(show(e)[:160] for e in m) or "none"))
        rep.check(seen == {True, False}, "fwd:%s:cases" % name, "%s: the changed / unchanged cases are not distinguished" % name)
    # creators
    for name, p, op in (("cavc_pline_create_approx_aabbindex", "aabbindex", "create_approx_aabb_index"), ("cavc_pline_create_aabbindex", "aabbindex", "create_aabb_index")):
        for f, o in succ(name):
            v = heap_content(o, p)
            rep.count("forwarded results")
            rep.check(v is not None and opcall(v, op, [P]), "fwd:" + name, "%s: result wraps %s" % (loc(f), v and show(v)))
    for f, o in succ("cavc_pline_clone"):
        v = heap_content(o, "cloned")
        rep.count("forwarded results")
        rep.check(v in (("call", "clone", (P,)),) or v is not None and clone_of(v, P), "fwd:cavc_pline_clone", "%s: the clone wraps %s" % (loc(f), v and show(v)))
    for f, o in succ("cavc_pline_parallel_offset"):
        calls = [e for e in o.st.events if e[0] == "call" and re.search(r"::parallel_offset(_opt)?$", e[1])]
        rep.count("forwarded results")
        if rep.check(len(calls) == 1 and calls[0][2][0] == P and calls[0][2][1] == sym("offset"), "fwd:cavc_pline_parallel_offset:call", "%s: the offset is not run once on the polyline with the given distance" % loc(f)):
            ok, why = list_of(o, "result", ("call",) + calls[0][1:3])
            rep.check(ok, "fwd:cavc_pline_parallel_offset:result", "%s: result list: %s" % (loc(f), why))
    # vertex arrays
    for f, o in succ("cavc_pline_get_vertex_data"):
        ws = [e for e in o.st.events if e[0] == "write" and buf_root(e[1]) == sym("vertex_data")]
        rep.check(bool(ws) or not [e for e in o.st.events if e[0] == "loop" or e[0] == "each" and e[2]], "fwd:cavc_pline_get_vertex_data:skip", "%s: a path passes over a vertex without writing it" % loc(f))
        rep.check([e for e in o.st.events if e[0] in ("exhausted", "each")] or not ws or not iterates(a, "cavc_pline_get_vertex_data"), "fwd:cavc_pline_get_vertex_data:break", "%s: a path stops before the last vertex" % loc(f))
        for e in ws:
            rep.count("forwarded results")
            it = e[3]
            idx = e[2][0][1] if e[2] and e[2][0][0] == "i" else None
            # each slot of the buffer taken in step with the vertexes
            zipped = e[1][0] == "elem" and e[2] == () and any(x[0] == "exhausted" and x[1][0] == "zip" and ("elem", srcs(x[1][1])) == e[1] and srcs(x[1][2])[0] == "call" for x in o.st.events)
            ok = vertex_is(it, lambda t: is_vertex_elem(t, P)) and (zipped or idx is not None and (idx[0] in ("idx", "loop", "idxin")))
            rep.check(ok, "fwd:cavc_pline_get_vertex_data", "%s: writes %s at index %s" % (loc(f), show(it), idx and show(idx)))
    for name, buf in (("cavc_pline_create", "vertexes"), ("cavc_pline_set_vertex_data", "vertex_data")):
        any_add = False
        for f, o in succ(name):
            for e in o.st.events:
                if e[0] == "call" and e[1].split("::")[-1] == "add" and e[1].startswith("cavalier_contours::"):
                    any_add = True
                    args = e[2][1:]
                    rep.count("forwarded mutations")
                    el = ("elem", ("slice", sym(buf), None))
                    ok = all(x[0] == "fld" and x[2] == k and slice_elem(x[1], buf) for x, k in zip(args, ("x", "y", "bulge")))
                    rep.check(ok, "fwd:%s:add" % name, "%s: adds vertex (%s)" % (loc(f), ", ".join(show(x) for x in args)))
                if e[0] == "call" and e[1].split("::")[-1] == "add_vertex" and e[1].startswith("cavalier_contours::"):
                    any_add = True
                    rep.count("forwarded mutations")
                    rep.check(pv_is(e[2][1], lambda t, k: t[0] == "fld" and t[2] == k and slice_elem(t[1], buf)), "fwd:%s:add" % name, "%s: adds vertex %s" % (loc(f), show(e[2][1])))
                if e[0] == "call" and e[1].split("::")[-1] == "extend_vertexes" and e[1].startswith("cavalier_contours::"):
                    any_add = True
                    rep.count("forwarded mutations")
                    it = e[2][1]
                    rep.check(it[0] == "mapped" and it[1][0] == "iter" and slice_elem(it[1][1], buf) and pv_is(it[2], lambda t, k: t[0] == "fld" and t[2] == k and slice_elem(t[1], buf)),
                              "fwd:%s:add" % name, "%s: adds the vertexes %s" % (loc(f), show(it)))
            # every element of the array is added: iterations run to the end of the whole array and none passes without adding
            adds = [e for e in o.st.events if e[0] == "call" and e[1].split("::")[-1] in ("add", "add_vertex") and e[1].startswith("cavalier_contours::")]
            ends = [e[1] for e in o.st.events if e[0] == "exhausted"]
            rep.check(all(slice_elem(x, buf) or strip_obj(x)[:2] == ("agg", "array") or x[0] == "idxin" or x[0] == "range" for x in ends), "fwd:%s:whole" % name, "%s: iterates over %s instead of the caller's array in order" % (loc(f), "; ".join(show(x) for x in ends)))
            rep.check(bool(ends) or not adds or ("each",) in [e[:1] for e in o.st.events] or not iterates(a, name), "fwd:%s:break" % name, "%s: a path stops before the end of the caller's array" % loc(f))
            rep.check(bool(adds) or not [e for e in o.st.events if e[0] == "loop" or e[0] == "each" and e[2]], "fwd:%s:skip" % name, "%s: a path passes over an element of the caller's array without adding it" % loc(f))
            if name.endswith("set_vertex_data"):
                m = [e for e in o.st.events if e[0] == "mutcall" and e[1] == sym("pline")]
                names = [e[3].split("::")[-1] for e in m]
                rep.check(bool(names) and names[0] == "clear" and set(names) <= {"clear", "reserve", "add", "add_vertex", "extend_vertexes"} and names.count("clear") == 1, "fwd:%s:order" % name,
                          "%s: polyline mutations are %s; the old vertexes must be cleared first and only then the new ones added" % (loc(f), names))
        rep.check(any_add, "fwd:%s:noadd" % name, "%s: no vertex of the caller's array is added" % name)
    # create: closed flag
    for z in (True, False):
        f = a.get("cavc_pline_create")
        if not f:
            break
        pre = {("int", sym("is_closed")): ("eq", 0) if z else ("ne", frozenset([0]))}
        for o in a.outcomes("cavc_pline_create", pre):
            if o.kind != "ret" or o.val != c(0) or panicked(o):
                continue
            v = heap_content(o, "pline")
            rep.count("closed flag paths")
            sets = [e for e in o.st.events if e[0] == "call" and e[1].split("::")[-1] == "set_is_closed"]
            news = [e for e in o.st.events if e[0] == "call" and e[1].split("::")[-1] in ("new_closed",)]
            caps = [e for e in o.st.events if e[0] == "call" and e[1].split("::")[-1] in ("with_capacity", "from_iter")]
            st_ = None
            if sets:
                x = sets[-1][2][1]
                st_ = x[1] if x[0] == "c" else (not z if nonzero(x, sym("is_closed"), o) else "?")
            elif caps:
                x = caps[-1][2][-1]
                st_ = x[1] if x[0] == "c" else (not z if nonzero(x, sym("is_closed"), o) else "?")
            else:
                st_ = bool(news)
            rep.check(st_ == (not z), "fwd:cavc_pline_create:closed:%s" % z, "%s: with is_closed %s zero the polyline is created %s" % (loc(f), "=" if z else "!=", "closed" if st_ else "open"))
    rep.floor("forwarded results", 18)
    rep.floor("forwarded mutations", 11)


def iterates(a, name):
    return any(e[0] == "exhausted" for o in a.outcomes(name) for e in o.st.events)


def clone_of(v, P):
    return v[0] == "call" and v[1].split("::")[-1] in ("clone", "create_from") and v[2] == (P,)


def slice_elem(t, buf):
    while t[0] in ("obj", "elem", "index", "iter"):
        t = t[1]
    return t[0] == "slice" and t[1] == sym(buf)


def is_vertex_elem(t, P):
    if t[0] == "elem" and t[1][0] == "call" and t[1][1].split("::")[-1] in ("iter_vertexes", "iter") and t[1][2][0] == P:
        return True
    if t[0] == "call" and t[1].split("::")[-1] in ("at", "index") and t[2][0] == P:
        return True
    if t[0] == "obj":
        return is_vertex_elem(t[1], P)
    return False


def heap_content(o, p):
    v = o.st.mem.get((("O", sym(p)), ()))
    if v is None or v[0] != "ref" or v[1][0] != "H":
        return None
    x = Interp(None).read(o.st, v[1], ())
    x = Interp(None).term(x, o.st)
    if x[0] == "agg" and len(x[5]) == 1:
        return x[5][0][1]
    return None


def nonzero(x, src, o):
    if x == ("not", ("eq", src, c(0))) or x == ("lt", c(0), src):
        return True
    f = o.st.facts.get(("int", src))
    if x[0] == "c" and f:
        return x[1] == (f != ("eq", 0))
    return False


def some_of(t, op, args):
    return t[0] == "fld" and t[1][0] == "as" and t[1][2] == "Some" and t[1][1][0] == "call" and t[1][1][1].split("::")[-1] == op and t[1][1][2] == args


def vec_of(t, x, y):
    return pt_is(t, {"x": sym(x), "y": sym(y)})


def pt_is(t, want):
    if t[0] == "agg":
        return all(dict(t[5]).get(k) == v for k, v in want.items())
    if t[0] == "call" and t[1].split("::")[-1] == "new":
        return list(t[2]) == list(want.values())
    return False


def at_pos(t, P, pos):
    if t[0] == "obj":
        t = t[1]
    if t[0] == "fld" and t[1][0] == "as" and t[1][2] == "Some":
        t = t[1][1]
    return t[0] == "call" and t[1].split("::")[-1] in ("index", "at", "get") and t[2][0] == P and is_ext(t[2][1], sym(pos))


def vertex_is(v, pred):
    if v[0] != "agg":
        return False
    d = dict(v[5])
    return all(k in d and d[k][0] == "fld" and d[k][2] == k and pred(d[k][1]) for k in ("x", "y", "bulge"))


def vertex_term(t, names):
    return t[0] == "call" and t[1].split("::")[-1] == "new" and t[2] == tuple(sym(n) for n in names)


def pv_is(t, pred):
    if t[0] == "call" and t[1].split("::")[-1] == "new" and len(t[2]) == 3:
        return all(pred(x, k) for x, k in zip(t[2], ("x", "y", "bulge")))
    if t[0] == "agg":
        d = dict(t[5])
        return all(k in d and pred(d[k], k) for k in ("x", "y", "bulge"))
    return False


# -------------------------------------------------------------------------------------------- ABI
SIGS = {
    "cavc_pline_parallel_offset_o_init": "(*mut cavc_pline_parallel_offset_o)->i32",
    "cavc_pline_boolean_o_init": "(*mut cavc_pline_boolean_o)->i32",
    "cavc_pline_create": "(*const cavc_vertex,u32,u8,*mut *const cavc_pline)->i32",
    "cavc_pline_f": "(*mut cavc_pline)->()",
    "cavc_pline_reserve": "(*mut cavc_pline,u32)->i32",
    "cavc_pline_clone": "(*const cavc_pline,*mut *const cavc_pline)->i32",
    "cavc_pline_get_is_closed": "(*const cavc_pline,*mut u8)->i32",
    "cavc_pline_set_is_closed": "(*mut cavc_pline,u8)->i32",
    "cavc_pline_get_vertex_count": "(*const cavc_pline,*mut u32)->i32",
    "cavc_pline_get_vertex_data": "(*const cavc_pline,*mut cavc_vertex)->i32",
    "cavc_pline_set_vertex_data": "(*mut cavc_pline,*const cavc_vertex,u32)->i32",
    "cavc_pline_clear": "(*mut cavc_pline)->i32",
    "cavc_pline_add": "(*mut cavc_pline,f64,f64,f64)->i32",
    "cavc_pline_get_vertex": "(*const cavc_pline,u32,*mut cavc_vertex)->i32",
    "cavc_pline_set_vertex": "(*mut cavc_pline,u32,cavc_vertex)->i32",
    "cavc_pline_remove": "(*mut cavc_pline,u32)->i32",
    "cavc_pline_eval_path_length": "(*const cavc_pline,*mut f64)->i32",
    "cavc_pline_eval_area": "(*const cavc_pline,*mut f64)->i32",
    "cavc_pline_eval_wn": "(*const cavc_pline,f64,f64,*mut i32)->i32",
    "cavc_pline_invert_direction": "(*mut cavc_pline)->i32",
    "cavc_pline_scale": "(*mut cavc_pline,f64)->i32",
    "cavc_pline_translate": "(*mut cavc_pline,f64,f64)->i32",
    "cavc_pline_remove_repeat_pos": "(*mut cavc_pline,f64)->i32",
    "cavc_pline_remove_redundant": "(*mut cavc_pline,f64)->i32",
    "cavc_pline_eval_extents": "(*const cavc_pline,*mut f64,*mut f64,*mut f64,*mut f64)->i32",
    "cavc_pline_parallel_offset": "(*const cavc_pline,f64,*const cavc_pline_parallel_offset_o,*mut *const cavc_plinelist)->i32",
    "cavc_pline_boolean": "(*const cavc_pline,*const cavc_pline,u32,*const cavc_pline_boolean_o,*mut *const cavc_plinelist,*mut *const cavc_plinelist)->i32",
    "cavc_pline_create_approx_aabbindex": "(*const cavc_pline,*mut *const cavc_aabbindex)->i32",
    "cavc_pline_create_aabbindex": "(*const cavc_pline,*mut *const cavc_aabbindex)->i32",
    "cavc_aabbindex_f": "(*mut cavc_aabbindex)->()",
    "cavc_aabbindex_get_extents": "(*const cavc_aabbindex,*mut f64,*mut f64,*mut f64,*mut f64)->i32",
    "cavc_plinelist_f": "(*mut cavc_plinelist)->()",
    "cavc_plinelist_get_count": "(*const cavc_plinelist,*mut u32)->i32",
    "cavc_plinelist_get_pline": "(*const cavc_plinelist,u32,*mut *const cavc_pline)->i32",
    "cavc_plinelist_pop": "(*mut cavc_plinelist,*mut *const cavc_pline)->i32",
    "cavc_plinelist_take": "(*mut cavc_plinelist,u32,*mut *const cavc_pline)->i32",
}
STRUCTS = {
    "cavc_point": [("x", "f64"), ("y", "f64")],
    "cavc_vertex": [("x", "f64"), ("y", "f64"), ("bulge", "f64")],
    "cavc_pline_parallel_offset_o": [("aabb_index", "*const cavc_aabbindex"), ("pos_equal_eps", "f64"), ("slice_join_eps", "f64"),
                                     ("offset_dist_eps", "f64"), ("handle_self_intersects", "u8")],
    "cavc_pline_boolean_o": [("pline1_aabb_index", "*const cavc_aabbindex"), ("pos_equal_eps", "f64")],
}


def check_abi(rep, prog, serde, tier):
    rep.rule("the exported symbol set, each function's C ABI, unmangled name and parameter/return types, and the C layout "
             "(repr(C), field order, field types) of every struct passed by value or pointer are those of the published API")
    fns = exported(prog)
    for name, want in SIGS.items():
        f = fns.get(name)
        if not rep.check(f is not None, "abi:missing:" + name, "symbol %s is no longer exported unmangled" % name):
            continue
        rep.fn(f)
        rep.count("symbols")
        tys = [f.lty(i + 1)["s"] for i in range(f.argc)]
        got = "(%s)->%s" % (",".join(tys), f.lty(0)["s"])
        rep.check(got == want, "abi:sig:" + name, "%s: signature is %s, published ABI is %s" % (loc(f), got, want))
        rep.check(f.j.get("abi", "").strip('"') == "C", "abi:conv:" + name, "%s: calling convention %s instead of C" % (loc(f), f.j.get("abi")))
        rep.check(f.j.get("export", "") in ("", name), "abi:export:" + name, "%s: exported under the name %s" % (loc(f), f.j.get("export")))
    # symbol collisions / extra extern "C" functions not exported
    for f in prog.fns.values():
        if f.crate == CR and f.kind == "Fn" and f.j.get("pub") and f.n.startswith("cavc_") and not f.j.get("no_mangle"):
            rep.check(False, "abi:mangled:" + f.n, "%s: public C API function without an unmangled symbol" % loc(f))
    adts = {k.split("::")[-1]: v for k, v in prog.adts.items() if k.startswith(CR + "::")}
    for s, want in STRUCTS.items():
        d = adts.get(s)
        if not rep.check(d is not None, "abi:struct:" + s, "struct %s is gone" % s):
            continue
        rep.count("structs")
        rep.check(d["repr_c"] and d["packed"] in (None, False) and not d["align"], "abi:repr:" + s, "struct %s is not plain repr(C): its field layout is unspecified" % s)
        got = [(n, prog.tstr(d["crate"], t)) for n, t, _ in d["vars"][0][1]]
        rep.check(got == want, "abi:fields:" + s, "struct %s has layout %s, published ABI is %s" % (s, got, want))
    rep.floor("symbols", 36)
    rep.floor("structs", 4)
