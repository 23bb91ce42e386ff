#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]  -- decides one property from /repo's current source."""
import os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
PYV = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PYV) and not sys.prefix.startswith("/opt/veriftools") and not os.environ.get("SA_NOREEXEC"):
    os.environ["SA_NOREEXEC"] = "1"
    os.execv(PYV, [PYV] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import core, mir, registry


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    reg = registry.REG[pid]
    rep = core.Report(pid)
    cache = os.environ.get("SA_CACHE")
    prog = mir.load(serde=False, cache=cache and cache + ".json") if reg.get("facts", True) else None
    serde = mir.load(serde=True, cache=cache and cache + "_serde.json") if reg.get("serde") else None
    try:
        reg["fn"](rep, prog, serde, tier)
    except mir.MissingAnchor as e:
        rep.fail("missing-anchor", "the construct this rule is anchored at is gone: %s" % e)
    sys.exit(core.finish(rep, tier, t0, reg))


main()
