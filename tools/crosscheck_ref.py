"""Validates ref/ucd16.json against sources independent of this repository:
 - the NormalizationTest rows in /repo/tests/data (Unicode 16.0 conformance data),
 - CPython's unicodedata (15.0): everything assigned there must agree (normalization stability),
 - ICU through node (17.0): normalization of every character assigned in 16.0, properties, and composition of pairs,
 - Go's x/text tables (17.0): combining classes of every character assigned in 16.0.
Not part of the checks; run it by hand after regenerating the reference."""
import sys, json, subprocess, unicodedata, re, os, tempfile, shutil, glob
sys.path.insert(0, "/verif/engine")
import refdata
from terms import *

R = refdata.get()
bad = 0


def err(*a):
    global bad
    bad += 1
    if bad < 30:
        print("MISMATCH", *a)


assigned = set(is_points(R.assigned))
print("assigned", len(assigned), "expected", 154998 + 65)
if len(assigned) != 154998 + 65:
    err("count")
# --- python
n = 0
for c in is_points(CHARS):
    ch = chr(c)
    cat = unicodedata.category(ch)
    if cat not in ("Cn", "Co"):
        n += 1
        if c not in assigned:
            err("py assigned", hex(c))
        if (cat[0] == "M") != is_has(R.mark, c):
            err("py mark", hex(c))
        if unicodedata.combining(ch) != R.ccc(c):
            err("py ccc", hex(c))
        if tuple(map(ord, unicodedata.normalize("NFD", ch))) != R.nfd1(c) or \
                tuple(map(ord, unicodedata.normalize("NFKD", ch))) != R.nfkd1(c):
            err("py decomp", hex(c))
    elif cat == "Co" and c in assigned:
        err("private", hex(c))
print("python", unicodedata.unidata_version, n)
# --- NormalizationTest rows
src = open("/repo/tests/data/normalization_tests.rs").read()
rows = 0
for m in re.finditer(r'NormalizationTest \{(.*?)\}\s*,\s*(?=NormalizationTest|\])', src, re.S):
    d = {}
    for k, v in re.findall(r'(\w+):\s*"((?:[^"\\]|\\.)*)"', m.group(1)):
        v = re.sub(r'\\u\{([0-9A-Fa-f]+)\}', lambda x: chr(int(x.group(1), 16)), v)
        d[k] = [ord(x) for x in v]
    if not d:
        continue
    rows += 1
    s = d["source"]
    for f in ("nfc", "nfd", "nfkc", "nfkd"):
        if R.form(f, s) != d[f]:
            err("row", f, s)
print("rows", rows)
# --- ICU
js = r"""
const out=[];
for(let c=0;c<0x110000;c++){ if(c>=0xD800&&c<0xE000) continue;
 const s=String.fromCodePoint(c);
 const f=x=>Array.from(s.normalize(x)).map(y=>y.codePointAt(0));
 const as=/[^\p{Cn}\p{Co}]/u.test(s)?1:0, mk=/\p{M}/u.test(s)?1:0;
 out.push([c,as,mk,f('NFD'),f('NFKD'),f('NFC'),f('NFKC')]);}
console.log(JSON.stringify(out));
"""
o = json.loads(subprocess.run(["node", "-e", js], capture_output=True, text=True).stdout)
ver = subprocess.run(["node", "-p", "process.versions.unicode"], capture_output=True, text=True).stdout.strip()
new = 0
for c, a, mk_, nfd, nfkd, nfc, nfkc in o:
    if c in assigned:
        if not a:
            err("icu unassigned", hex(c))
        if bool(mk_) != is_has(R.mark, c):
            err("icu mark", hex(c))
        if tuple(nfd) != R.nfd1(c) or tuple(nfkd) != R.nfkd1(c) or nfc != R.nfc([c]) or nfkc != R.nfkc([c]):
            err("icu decomp", hex(c))
    else:
        new += a
        if is_has(R.mark, c) or R.ccc(c) or c in R.canon or c in R.compat:
            err("property of an unassigned character", hex(c))
print("icu", ver, "assigned only there:", new)
pairs = sorted({(a, b) for (a, b) in R.comp})
firsts = sorted({a for a, b in pairs})
seconds = sorted({b for a, b in pairs})
js2 = "const F=%s,S=%s;const out=[];for(const a of F)for(const b of S){const r=Array.from((String.fromCodePoint(a)+String.fromCodePoint(b)).normalize('NFC'));if(r.length==1)out.push([a,b,r[0].codePointAt(0)]);}console.log(JSON.stringify(out));" % (json.dumps(firsts), json.dumps(seconds))
o = json.loads(subprocess.run(["node", "-e", js2], capture_output=True, text=True).stdout)
icu = {(a, b): r for a, b, r in o}
for p in set(icu) | set(R.comp):
    if icu.get(p) != R.comp.get(p):
        # pairs whose parts are not themselves normalized compose through a different route
        if R.comp.get(p) is None and R.nfc(list(p)) == [icu[p]]:
            continue
        if p in icu and icu[p] not in assigned:
            continue
        err("pair", p, icu.get(p), R.comp.get(p))
print("icu pairs", len(icu), "ref", len(R.comp))
# --- Go x/text
root = subprocess.run(["go", "env", "GOROOT"], capture_output=True, text=True).stdout.strip()
t = tempfile.mkdtemp(prefix="xtext")
try:
    shutil.copytree(root + "/src/vendor/golang.org/x/text", t + "/text")
    open(t + "/text/go.mod", "w").write("module golang.org/x/text\n\ngo 1.21\n")
    os.makedirs(t + "/text/cmd/c")
    open(t + "/text/cmd/c/main.go", "w").write('''package main
import ("fmt";"golang.org/x/text/unicode/norm")
func main(){ fmt.Println(norm.Version); for r:=rune(0);r<0x110000;r++{ if r>=0xD800&&r<0xE000{continue}; p:=norm.NFD.PropertiesString(string(r)); if p.CCC()!=0 {fmt.Println(r,p.CCC())} } }
''')
    r = subprocess.run(["go", "run", "./cmd/c"], cwd=t + "/text", capture_output=True, text=True,
                       env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
    if r.returncode:
        print("go", r.stderr[:500])
    ls = r.stdout.split("\n")
    g = dict(map(int, l.split()) for l in ls[1:] if l)
    gn = 0
    for c in set(g) | set(R._ccc):
        if c in assigned:
            gn += 1
            # Go reports for decomposable characters the class of the first decomposed one
            if g.get(c, 0) != R.ccc(c) and R.nfd1(c) == (c,):
                err("go ccc", hex(c), g.get(c, 0), R.ccc(c))
    print("go", ls[0], gn)
finally:
    shutil.rmtree(t)
# --- CJK variants: canonical singletons FE00..FE02
for c, v in R.cjk.items():
    if not (len(v) == 2 and R.nfd1(c) == (v[0],) and 0xFE00 <= v[1] <= 0xFE0F):
        err("cjk", hex(c))
singles = [c for c in list(range(0xF900, 0xFB00)) + list(range(0x2F800, 0x2FA20)) if c in R.canon]
if set(singles) != set(R.cjk):
    err("cjk set", [hex(x) for x in set(singles) ^ set(R.cjk)][:10])
print("cjk", len(R.cjk), "distinct sequences", len(set(R.cjk.values())))
print("mismatches:", bad)
sys.exit(1 if bad else 0)
