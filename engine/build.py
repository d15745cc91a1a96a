"""Compiles the harness against /repo's current working tree with the MIR dumper and loads the dump."""
import fcntl, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
DRIVER = os.path.join(WORK, "driver", "release", "mirdump")


class BuildError(Exception):
    pass


def env0():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTC",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    with open(os.path.join(WORK, "driver.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
            return
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir",
                            os.path.join(WORK, "driver")], cwd=os.path.join(VERIF, "driver"), env=env0(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("driver: " + r.stdout[-3000:])
        os.utime(DRIVER)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return _sysroot


def harness_src():
    """the harness lives in /verif/harness and names /repo; another tree is analysed through a rewritten copy"""
    return os.path.join(VERIF, "harness")


def dump(features, std=True, debug=True, keep_log=None):
    """path of the MIR dump (a temporary file the caller removes) of the harness with the given features"""
    build_driver()
    tmp = tempfile.mkdtemp(prefix="mirdump.", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        hs = os.path.join(tmp, "harness")
        shutil.copytree(harness_src(), hs, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            t = os.path.join(hs, "Cargo.toml")
            s = open(t).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(t, "w").write(s)
        out = os.path.join(tmp, "dump.json")
        e = env0()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["MIRDUMP_OUT"] = out
        e["MIRDUMP_STOP"] = os.path.join(VERIF, "driver", "stop.txt")
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        on = "on" if debug else "off"
        e["RUSTFLAGS"] = ("-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=%s -Coverflow-checks=%s "
                          "--cap-lints=allow" % (on, on))
        fs = list(features) + (["std"] if std else [])
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--features", ",".join(fs),
                            "--target-dir", os.path.join(tmp, "t")], cwd=hs, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise BuildError(r.stdout[-6000:])
        fd, final = tempfile.mkstemp(prefix="mir.", suffix=".json", dir=os.environ.get("TMPDIR", "/tmp"))
        os.close(fd)
        shutil.move(out, final)
        return final
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compiles(features, std=True):
    """type-check the harness with the given features; returns (ok, the compiler's messages)"""
    tmp = tempfile.mkdtemp(prefix="mirdump.", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        hs = os.path.join(tmp, "harness")
        shutil.copytree(harness_src(), hs, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            t = os.path.join(hs, "Cargo.toml")
            s = open(t).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(t, "w").write(s)
        e = env0()
        e["RUSTFLAGS"] = "--cap-lints=allow"
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--features",
                            ",".join(list(features) + (["std"] if std else [])), "--target-dir", os.path.join(tmp, "t")],
                           cwd=hs, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load(features, std=True, debug=True):
    import mir
    p = dump(features, std, debug)
    try:
        P = mir.Prog(p)
        P.debug, P.std = debug, std
        return P
    finally:
        os.unlink(p)


if __name__ == "__main__":
    build_driver()
    print("driver ready:", DRIVER)
