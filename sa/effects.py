"""C01: no hidden inputs, no hidden outputs -- an effect analysis over every function body and every type
the two library crates use."""
import re
from mir import pfn

CRATES_OK = ("core", "alloc", "std", "num_traits", "static_aabb2d_index", "serde", "serde_core", "cavalier_contours",
             "cavalier_contours_ffi")
# state shared between calls, or input that is no argument
TYPES_BAD = [
    (r"^core::cell::", "interior mutability"),
    (r"^(core|std|alloc)::sync::", "shared or atomic state"),
    (r"^std::(thread|time|env|fs|net|process|io|os|random)(::|$)", "environment access"),
    (r"^(core|std)::time::", "clock"),
    (r"^alloc::(rc|sync)::", "shared ownership"),
    (r"^(core|std)::hash::random::(?!RandomState$)", "randomness"),
    (r"^core::sync::", "atomic state"),
]
CALLS_BAD = [
    (r"^std::(thread|time|env|fs|net|process|io|os|random|sync)(::|$)", "environment access"),
    (r"^core::sync::", "atomic state"),
    (r"^core::cell::", "interior mutability"),
    (r"^(core|std)::ptr::(eq|addr_eq|hash|fn_addr_eq)$", "decides on an address"),
    (r"ptr::(const_ptr|mut_ptr)::(\{impl#\d+\}::)?(addr|expose_provenance|to_bits|align_offset|offset_from|sub_ptr|is_aligned)$", "uses an address as a value"),
    (r"^core::any::(type_name|TypeId)", "type identity"),
    (r"intrinsics::f(add|sub|mul|div|rem)_(fast|algebraic)|::algebraic_", "inexact float arithmetic that depends on optimisation"),
    (r"^core::(core_arch|arch)::", "machine specific code"),
    (r"^core::panic::location", "call site identity"),
    (r"^core::fmt::Pointer", "formats an address"),
    (r"^std::hash::random::.*(build_hasher|finish|new)$", "randomness"),
    (r"BuildHasher::(build_hasher|hash_one)$", "hash value (randomly keyed)"),
    (r"^core::(option|result).*unwrap_unchecked|^core::hint::", "undefined behaviour hint"),
]
HASHCOLL = re.compile(r"^std::collections::hash::(map|set)")
HASH_OK = {"new", "with_capacity", "insert", "contains", "contains_key", "get", "get_mut", "remove", "clear", "len", "is_empty", "default",
           "entry", "or_insert", "or_insert_with", "or_default", "reserve", "take", "get_or_insert_with", "is_disjoint", "is_subset",
           "is_superset", "eq", "extend", "from", "from_iter", "index", "capacity", "clone", "replace", "and_modify", "drop",
           "with_hasher", "with_capacity_and_hasher", "shrink_to_fit", "or_insert_entry", "key", "get_mut", "insert_entry", "into_mut"}
HASHTYPE = re.compile(r"\b(HashMap|HashSet|hash_map::|hash_set::|hash::map::|hash::set::)")


def root(k):
    return k.split("::")[0].lstrip("<")


def walk_types(prog, crate):
    for i, t in enumerate(prog.tys[crate]):
        yield i, t


def is_ctor(prog, key):
    parts = key.split("::")
    return key in prog.adts or ("::".join(parts[:-1]) in prog.adts and parts[-1][:1].isupper())


def check_pure(rep, prog, serde, tier):
    rep.rule("no static item; no constant refers to a static or thread local")
    rep.rule("every callee lives in core, alloc, std (minus environment, time, threads, i/o, randomness, cells, atomics), num_traits, "
             "static_aabb2d_index, serde or the library itself; no foreign function, no inline assembly")
    rep.rule("hash collections are used only through operations whose result does not depend on iteration order")
    rep.rule("no pointer becomes a number, is compared (except with null) or formatted")
    rep.rule("no type with interior mutability or shared ownership appears in any signature, field or local")
    rep.rule("memory is initialised before it is read: the core library contains no unsafe code; the C API reads only what callers pass")
    for st in prog.statics:
        rep.count("statics")
        if st["mut"] or not st["freeze"]:
            rep.fail("static:" + st["d"], "static item %s: state shared by all calls" % st["d"])
    trait_items = {i[0] for t in prog.traits.values() for i in t["items"]}
    rep.ob(1 + len(prog.statics))
    for c in prog.tys:
        for i, t in walk_types(prog, c):
            if t["k"] not in ("adt", "foreign"):
                continue
            rep.count("types")
            rep.ob()
            for pat, why in TYPES_BAD:
                if re.search(pat, t["d"]):
                    users = [f.short for f in prog.fns.values() if f.crate == c and any(l[0] == i for l in f.locals)][:3]
                    rep.fail("type:%s" % t["d"], "type %s (%s) is used in %s" % (t["s"], why, ", ".join(users) or c))
            r = root(t["d"])
            if r not in CRATES_OK:
                rep.fail("crate:%s" % r, "type %s comes from crate %s, whose effects are not known" % (t["s"], r))
    for f in prog.fns.values():
        rep.fn(f)
        rep.count("functions")
        where = "%s:%s" % (f.file, f.line)
        if any(l for l in f.j.get("thread_locals", [])):
            rep.fail("tls:" + f.short, "thread local used in " + f.short)
        for b in f.reachable_blocks():
            blk = f.blocks[b]
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                rep.count("assignments")
                if r["r"] == "cast" and r["k"].startswith(("PointerExpose", "PointerWithExposed")):
                    rep.fail("addr:" + f.short, "%s turns a pointer into a number (%s:%s)" % (f.short, f.file, s[3]))
                if r["r"] == "cast" and r["k"].startswith("Transmute"):
                    fr, to = prog.operand_ty(f, r["a"]), prog.ty(f.crate, r["t"])
                    if fr["k"] in ("ptr", "ref", "fnptr") and to["k"] == "prim":
                        rep.fail("addr:" + f.short, "%s turns a pointer into a number (%s:%s)" % (f.short, f.file, s[3]))
                if r["r"] == "bin" and r["op"] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp") and prog.operand_ty(f, r["a"])["k"] in ("ptr", "fnptr"):
                    rep.fail("ptrcmp:" + f.short, "%s compares addresses (%s:%s)" % (f.short, f.file, s[3]))
                if r["r"] in ("tls", "threadlocal") or "ThreadLocal" in str(r.get("s", "")):
                    rep.fail("tls:" + f.short, "thread local used in %s (%s:%s)" % (f.short, f.file, s[3]))
                if r["r"] not in ("use", "ref", "rawptr", "bin", "un", "cast", "discr", "agg", "repeat"):
                    rep.fail("stmt:" + f.short, "%s contains an operation this analysis does not know (%s)" % (f.short, r["r"]))
            t = blk["t"]
            if t["t"] not in ("goto", "switch", "call", "return", "drop", "assert", "unreachable", "resume", "abort", "terminate"):
                rep.fail("term:" + f.short, "%s contains a terminator this analysis does not know (%s)" % (f.short, t["t"]))
            if t["t"] != "call":
                continue
            cc = t["c"]
            rep.count("call sites")
            rep.ob()
            if "ptr" in cc:
                continue                      # value of closure or fn type: its body is judged where it is written
            for key in {cc.get("r") or cc["d"], cc["d"]}:
                if root(key) not in CRATES_OK:
                    rep.fail("call:%s->%s" % (f.short, key), "%s calls %s (%s:%s): effects of that crate are not known" % (f.short, key, f.file, t["ln"]))
                k2 = re.sub(r"\{impl#\d+\}::", "", key)
                for pat, why in CALLS_BAD:
                    if re.search(pat, k2):
                        rep.fail("call:%s->%s" % (f.short, k2), "%s calls %s (%s:%s): %s" % (f.short, k2, f.file, t["ln"], why))
            key = cc.get("r") or cc["d"]
            if root(key).startswith("cavalier_contours") and key not in prog.fns and key not in trait_items and "{constructor" not in key \
                    and not is_ctor(prog, key):
                rep.fail("foreign:" + key, "%s calls %s (%s:%s), which has no body in the library" % (f.short, key, f.file, t["ln"]))
            # hash collections: receiver type or defining module
            recv = prog.operand_ty(f, t["args"][0]) if t["args"] else {"s": "", "k": "x"}
            direct = HASHCOLL.match(re.sub(r"\{impl#\d+\}::", "", key))
            k3 = key.split("::")[-1]
            rs = recv["s"]
            base = re.sub(r"^(&|mut |'\w+ )+", "", rs)
            if (direct or re.match(r"(std::collections::)?(hash::\w+::|hash_\w+::)?Hash(Map|Set)\b|std::collections::hash", base)) and k3 not in HASH_OK:
                rep.fail("hashiter:%s->%s" % (f.short, k3), "%s calls %s on a hash collection (%s:%s): its order differs from run to run" % (f.short, k3, f.file, t["ln"]))
            elif direct:
                rep.count("hash collection operations")
            # a hash collection handed to anything else than its own operations
            for a in t["args"][1:]:
                aty = prog.operand_ty(f, a)
                ab = re.sub(r"^(&|mut |'\w+ )+", "", aty["s"])
                if re.match(r"(std::collections::)?(hash::\w+::|hash_\w+::)?Hash(Map|Set)\b|std::collections::hash", ab) and root(key) not in ("cavalier_contours", "cavalier_contours_ffi") and k3 not in HASH_OK:
                    rep.fail("hashiter:%s->%s" % (f.short, k3), "%s passes a hash collection to %s (%s:%s): its order differs from run to run" % (f.short, k3, f.file, t["ln"]))
                if k3 in ("extend", "from_iter") and HASHTYPE.search(ab) and not HASHTYPE.search(base):
                    rep.fail("hashiter:%s->%s" % (f.short, k3), "%s fills an ordered collection from a hash collection (%s:%s)" % (f.short, f.file, t["ln"]))
    rep.floor("functions", 350)
    rep.floor("call sites", 2500)
    rep.floor("hash collection operations", 8)
    rep.floor("types", 200)
