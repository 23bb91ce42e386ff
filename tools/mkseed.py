#!/usr/bin/env python3
"""mkseed.py ID...: builds /verif/seeded/<ID> from tools/seeds.py and confirms it in a scratch copy of /repo:
patch applies and builds, stable tests pass, demo passes on the unchanged tree and fails with the patch.
With --check also runs the property's check against the patched copy (SA_REPO)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = os.environ.get("SEED_WT", "/tmp/seed/wt")
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def wt():
    if not os.path.exists(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        sh("cp -a /repo " + W)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD" % (W, W, W))
    assert sh("git -C %s rev-parse HEAD" % W).stdout.strip() == head

def tests():
    r = subprocess.run("timeout 120 cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8", shell=True, cwd=W, env=ENV, capture_output=True, text=True)
    return r.returncode, [l for l in r.stdout.splitlines() if "FAILED" in l or "panicked" in l][:10] + r.stderr.splitlines()[-8:]

def main():
    import importlib.util
    sys.path.insert(0, HERE)
    import seeds
    check = "--check" in sys.argv
    only_check = "--only-check" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(seeds.SEEDS)
    for sid in ids:
        s = seeds.SEEDS[sid]
        d = os.path.join(VERIF, "seeded", sid)
        wt()
        if only_check:
            r = sh("git -C %s apply %s/patch.diff" % (W, d))
            if r.returncode: print(sid, "PATCH DOES NOT APPLY", r.stderr); continue
        else:
            for f, old, new in s["edits"]:
                p = os.path.join(W, f)
                t = open(p).read()
                assert t.count(old) == 1, (sid, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % W).stdout
            rc, log = tests()
            if rc:
                print(sid, "TESTS FAIL / NO BUILD:", " | ".join(log)[:300]); continue
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "main.rs"), "w").write(s["demo"])
            shutil.copy(os.path.join(HERE, "demo_template.sh"), os.path.join(d, "demo.sh"))
            for k in ("features", "extra_deps"):
                if k in s: open(os.path.join(d, k), "w").write(s[k])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            bad = subprocess.run(["bash", d + "/demo.sh"], cwd=W, capture_output=True, text=True)
            good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
            okk = bad.returncode != 0 and bad.returncode != 3 and good.returncode == 0
            print(sid, "CONFIRMED" if okk else "NOT CONFIRMED", "patched rc", bad.returncode, "clean rc", good.returncode, "" if okk else (bad.stdout + bad.stderr + good.stdout + good.stderr)[-1500:])
            if not okk:
                shutil.rmtree(d); continue
        if check or only_check:
            r = sh("python3 %s/check.py %s" % (VERIF, s["property"]), env=dict(os.environ, SA_REPO=W))
            print("   check", s["property"], "rc", r.returncode, "|", "\n      ".join(r.stdout.strip().splitlines()[-4:]), r.stderr[-300:])
    wt()
main()
