#!/usr/bin/env python3
"""plant.py ID...|all : (re)creates seeded/<id> from tools/bugs.py in a scratch copy of /repo and confirms that the change
builds, passes the existing tests and is shown by its demonstration.   plant.py --run ID... : runs the checks on them."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCR = "/tmp/plant"
sys.path.insert(0, HERE)

DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0: the behaviour is as promised
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
unicode-normalization = { path = "$repo"@FEAT@ }
[workspace]
EOF
cd "$d" || exit 2
unset RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
timeout 250 cargo run --offline -q@REL@
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def copy(name):
    d = os.path.join(SCR, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target"))
    return d


def edit(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "not found in %s: %s" % (f, old)
        open(p, "w").write(s.replace(old, new, 1))
    return None


def one(b):
    d = copy(b["id"])
    out = os.path.join(VERIF, "seeded", b["id"])
    new = os.path.join(SCR, "out-" + b["id"])
    shutil.rmtree(new, ignore_errors=True)
    os.makedirs(new)
    try:
        demo = b.get("demo_sh") or DEMO.replace("@FEAT@", b.get("feat", "")).replace("@REL@", " --release" if b.get("release") else "")
        open(os.path.join(new, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(new, "demo.sh"), 0o755)
        if "main" in b:
            open(os.path.join(new, "main.rs"), "w").write(b["main"].lstrip())
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(new, "meta.json"), "w"), indent=1)
        r = sh("bash %s/demo.sh" % new, d)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stdout[-900:]
        e = edit(d, b["edits"])
        if e:
            return e
        p = sh("git diff -- src", d).stdout
        open(os.path.join(new, "patch.diff"), "w").write(p)
        for fl in ("--all-features", "--no-default-features"):
            r = sh("cargo test --workspace %s --no-fail-fast --offline 2>&1 | grep -E '^test .*FAILED|^error' -A6; exit ${PIPESTATUS[0]}" % fl, d,
                   executable="/bin/bash", env=dict(os.environ, CARGO_NET_OFFLINE="true"))
            if r.returncode:
                return "tests fail: " + r.stdout[-900:]
        r = sh("bash %s/demo.sh" % new, d)
        if r.returncode == 0:
            return "demo passes with the change"
        w = r.stdout.strip().split("\n")
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(new, out)
        return "ok | " + " ".join(w)[-160:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(new, ignore_errors=True)


def run(b, checks):
    d = copy("run-" + b["id"])
    try:
        r = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, b["id"]), d)
        if r.returncode:
            return ["patch: " + r.stdout]
        res = []
        for c in checks or [b["prop"]]:
            t = time.time()
            r = sh("python3 %s/check.py %s" % (VERIF, c), d, env=dict(os.environ, VERIF_REPO=d))
            last = [l for l in r.stdout.split("\n") if l.startswith("  violation")][:1] or \
                [l for l in r.stdout.split("\n") if l.startswith("  undecided")][:2]
            res.append("%s %s rc=%d %.0fs %s" % (b["id"], c, r.returncode, time.time() - t, " ".join(last)[:260]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import bugs
    a = sys.argv[1:]
    go = "--run" in a
    a = [x for x in a if x != "--run"]
    checks = [x for x in a if x[0] == "C" and x[1:].isdigit()]
    ids = [x for x in a if x not in checks]
    bs = [b for b in bugs.BUGS if "all" in ids or b["id"] in ids or any(i.endswith("*") and b["id"].startswith(i[:-1]) for i in ids)]
    os.makedirs(SCR, exist_ok=True)
    if go:
        for b in bs:
            for l in run(b, checks):
                print(l, flush=True)
        return
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(bs, ex.map(one, bs)):
            print(b["id"], r, flush=True)


main()
