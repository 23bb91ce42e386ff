"""Builds the MIR dumper (rustc_private driver) and dumps the type-checked program of /repo's
working tree.  Nothing is cached between runs except the compiled driver itself (keyed by its
source and the compiler version): the facts are always re-derived from the current sources in a
fresh cargo target directory."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly"


class SetupError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.run(["rustc", "--print", "sysroot"], env=_env(), check=True,
                          capture_output=True, text=True).stdout.strip()


def build_driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    ver = subprocess.run(["rustc", "-vV"], env=_env(), check=True, capture_output=True, text=True).stdout
    h = hashlib.sha256(open(src, "rb").read() + ver.encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "--edition", "2024", "-O", "-A", "warnings", src, "-o", tmp],
                           env=_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise SetupError("driver build failed:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


def dump(serde=False):
    """-> {crate name: parsed facts}.  Raises SetupError when the tree does not build."""
    exe = build_driver()
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        e = _env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["MIRDUMP_CRATES"] = "cavalier_contours,cavalier_contours_ffi"
        e["MIRDUMP_OUT"] = d
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
        args = ["cargo", "check", "--offline", "--locked", "--lib"]
        if serde:
            args += ["-p", "cavalier_contours", "--features", "serde"]
            crates = ["cavalier_contours"]
        else:
            args += ["-p", "cavalier_contours", "-p", "cavalier_contours_ffi"]
            crates = ["cavalier_contours", "cavalier_contours_ffi"]
        r = subprocess.run(args, env=e, cwd=REPO, capture_output=True, text=True)
        if r.returncode != 0:
            raise SetupError("cargo check failed:\n" + r.stderr[-6000:])
        out = {}
        for c in crates:
            f = os.path.join(d, c + ".json")
            if not os.path.exists(f):
                raise SetupError("no facts written for crate " + c)
            out[c] = json.load(open(f))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    fs = dump("--serde" in sys.argv)
    for c, f in fs.items():
        print(c, len(f["fns"]), "bodies")
