#!/usr/bin/env python3
"""catches.py [seed...]: applies every planted bug of seeded/ to a scratch copy of /repo, runs every registered check on it
and records in tools/catches.json which checks report it (development aid, not a check)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CODE = r'''
import sys, os, json
sys.path.insert(0, os.path.join(%r, "sa")); sys.setrecursionlimit(20000)
import core, mir, registry
p, s = mir.load(), None
hit = []
for pid, r in sorted(registry.REG.items()):
    pid_ = os.fork()
    if pid_ == 0:
        try:
            rep = core.Report(pid)
            sd = mir.load(True) if r.get("serde") else None
            try:
                r["fn"](rep, p, sd, "quick")
            except mir.MissingAnchor as e:
                rep.fail("missing-anchor", str(e))
            known = core.load_known().get(pid, {})
            os._exit(1 if any(k not in known for k, _ in rep.violations) else 0)
        except BaseException as e:
            os._exit(2)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid_, 0)[1])
    if rc: hit.append(pid + ("" if rc == 1 else "!"))
print("HIT", json.dumps(hit))
''' % VERIF


def run(k):
    i, sid = k
    w = "/tmp/catch/%s" % sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run("cd /repo && cp -a Cargo.toml Cargo.lock cavalier_contours cavalier_contours_ffi cavalier_contours_ui %s/ && cd %s && patch -p1 -s < %s/seeded/%s/patch.diff" % (w, w, VERIF, sid), shell=True, check=True)
    r = subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-c", CODE], env=dict(os.environ, SA_REPO=w), capture_output=True, text=True)
    shutil.rmtree(w, ignore_errors=True)
    for l in r.stdout.splitlines():
        if l.startswith("HIT "):
            return sid, json.loads(l[4:])
    return sid, ["?" + r.stderr[-300:]]


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    f = os.path.join(HERE, "catches.json")
    out = json.load(open(f)) if os.path.exists(f) else {}
    with cf.ThreadPoolExecutor(7) as ex:
        for sid, hit in ex.map(run, enumerate(ids)):
            out[sid] = hit
            prop = json.load(open(os.path.join(VERIF, "seeded", sid, "meta.json")))["property"]
            print(sid, hit, "" if prop in hit else "MISSED", flush=True)
            json.dump(dict(sorted(out.items())), open(f, "w"), indent=1)
