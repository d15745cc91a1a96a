#!/usr/bin/env python3
"""refcheck.py [ID...] [-- Cxx ...] : applies behaviour-preserving edits in a scratch copy and runs the checks; reports any
check that is not quiet, and those that could not decide something."""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from refactors import REF
VERIF = os.environ.get("VSNAP") or os.path.dirname(HERE)
BY = {"d": "C08 C09 C11 C14 C16 C17 C19 C20 C22 C23", "r": "C09 C11 C14 C16 C17 C19 C20 C22 C23", "q": "C10 C11 C13 C14 C22",
      "s": "C12 C13 C14 C16 C19 C22", "p": "C07 C14 C16 C19 C20", "n": "C01 C02 C03 C04 C08 C10 C14 C15",
      "l": "C01 C02 C03 C04 C08 C10 C14 C15", "h": "C01 C02 C03 C04 C06 C14 C15 C21", "lib": "C18"}
a = sys.argv[1:]
test = "--test" in a
a = [x for x in a if x != "--test"]
checks = ["C%02d" % i for i in range(1, 24)]
if "--" in a:
    i = a.index("--")
    a, checks = a[:i], a[i + 1:]
for r in REF:
    if a and not any(r["id"] == x or (x.endswith("*") and r["id"].startswith(x[:-1])) for x in a):
        continue
    d = "/tmp/refc/" + r["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"))
    bad = None
    for f, o, n in r["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if o not in s and o.startswith("self.ready."):
            continue
        if o not in s:
            bad = "not found: " + o[:80]
            break
        open(p, "w").write(s.replace(o, n, 1))
    if bad:
        print(r["id"], bad, flush=True)
        continue
    if test:
        for fl in ("--all-features", "--no-default-features"):
            q = subprocess.run("cargo test --offline %s 2>&1 | grep -E '^test .*FAILED|^error' -A8" % fl, shell=True, cwd=d, text=True,
                               stdout=subprocess.PIPE)
            if q.stdout.strip():
                print(r["id"], "BROKEN", q.stdout[:800], flush=True)
        shutil.rmtree(d + "/target", ignore_errors=True)
    t = time.time()
    out = []
    if "-" + "-" not in sys.argv:
        checks = BY[r["id"].split("-")[0]].split()
    for c in checks:
        q = subprocess.run(["python3", VERIF + "/check.py", c], env=dict(os.environ, VERIF_REPO=d), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        u = re.search(r"(\d+) undecided", q.stdout)
        if q.returncode or not u or u.group(1) != "0":
            l = [x for x in q.stdout.split("\n") if "undecided:" in x or "violation" in x][:1]
            out.append("  %s rc=%d %s %s" % (c, q.returncode, u.group(0) if u else q.stdout[-200:], " ".join(l)[:200]))
    print(r["id"], "%.0fs" % (time.time() - t), "" if out else "all decided", flush=True)
    for l in out:
        print(l, flush=True)
    shutil.rmtree(d, ignore_errors=True)
