#!/usr/bin/env python3
"""dev/mutate.py <mutants file> [filter]: applies each small edit to a scratch copy of /repo and runs the
property's check on it.  A mutant is:  @@ <prop> <name> <file> [expect=quiet]\n<old>\n==>\n<new>
Development aid only; no registered check uses it."""
import sys, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo")
def parse(path):
    out = []
    for part in re.split(r"^@@ ", open(path).read(), flags=re.M)[1:]:
        head, _, body = part.partition("\n")
        h = head.split()
        pairs = []
        for one_ in body.split("\n++\n"):
            old, _, new = one_.partition("\n==>\n")
            pairs.append((old.strip("\n"), new.rstrip("\n").lstrip("\n")))
        out.append((h[0], h[1], h[2], "quiet" if "expect=quiet" in h else "alarm", pairs))
    return out
def one(m):
    prop, name, file, exp, pairs = m
    d = tempfile.mkdtemp(prefix="kosmut")
    try:
        for x in ("core", "modules", "interpreter", "inc"):
            shutil.copytree(os.path.join(SRC, x), os.path.join(d, x))
        p = os.path.join(d, file)
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) < 1:
                return (m, "NOMATCH", "")
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-I", d + "/inc", "-D_DEFAULT_SOURCE", p], capture_output=True, text=True)
        if file.endswith(".c") and r.returncode:
            return (m, "NOCOMPILE", r.stderr[:500])
        env = dict(os.environ, KOS_REPO=d, KOS_EVIDENCE=os.path.join(d, "ev"))
        r = subprocess.run([sys.executable, V + "/check.py", prop], env=env, capture_output=True, text=True)
        return (m, {0: "quiet", 1: "alarm"}.get(r.returncode, "ERROR%d" % r.returncode), r.stdout[-1500:])
    finally:
        shutil.rmtree(d)
ms = parse(sys.argv[1])
if len(sys.argv) > 2:
    ms = [m for m in ms if re.search(sys.argv[2], m[0] + " " + m[1])]
bad = 0
with ThreadPoolExecutor(7) as ex:
    for m, res, out in ex.map(one, ms):
        ok = res == m[3]
        bad += not ok
        print("%-5s %-34s expect=%s got=%s %s" % (m[0], m[1], m[3], res, "" if ok else "<<<<<<"))
        lines = [l for l in out.splitlines() if not l.startswith("OK")]
        for l in lines[:2 if ok else 8]:
            print("        " + l[:220])
print("unexpected:", bad, "of", len(ms))
