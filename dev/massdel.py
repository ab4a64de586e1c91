#!/usr/bin/env python3
"""dev/massdel.py <prop> <regex> [files-regex] [replacement]: removes (or replaces, with re.sub) each matching line in turn in a scratch copy and runs the check.
Development aid only."""
import sys, os, re, shutil, subprocess, tempfile, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, rx = sys.argv[1], re.compile(sys.argv[2])
frx = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
rep = sys.argv[4] if len(sys.argv) > 4 else None
sites = []
for top in ("core", "modules", "interpreter"):
    for f in sorted(os.listdir("/repo/" + top)):
        p = top + "/" + f
        if f.endswith(".c") and frx.search(p):
            for i, l in enumerate(open("/repo/" + p).read().split("\n")):
                if rx.search(l):
                    sites.append((p, i, l))
random.Random(7).shuffle(sites)
sites = sites[:int(os.environ.get("MAX", "60"))]
def one(s):
    p, i, l = s
    d = tempfile.mkdtemp(prefix="kosdel")
    try:
        for x in ("core", "modules", "interpreter", "inc"):
            shutil.copytree("/repo/" + x, d + "/" + x)
        L = open(d + "/" + p).read().split("\n")
        L[i] = rx.sub(rep, l) if rep is not None else re.sub(r"\S.*", ";", l)
        open(d + "/" + p, "w").write("\n".join(L))
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-I", d + "/inc", "-D_DEFAULT_SOURCE", d + "/" + p], capture_output=True, text=True)
        if r.returncode:
            return s, "nocompile", ""
        r = subprocess.run([sys.executable, V + "/check.py", prop], env=dict(os.environ, KOS_REPO=d, KOS_EVIDENCE=d + "/ev"), capture_output=True, text=True)
        return s, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode), r.stdout[-300:]
    finally:
        shutil.rmtree(d)
n = {}
with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
    for s, res, out in ex.map(one, sites):
        n[res] = n.get(res, 0) + 1
        if res != "caught":
            print("%-9s %s:%d %s %s" % (res, s[0], s[1] + 1, s[2].strip()[:90], out.strip()[:100] if res.startswith("E") else ""), flush=True)
print(n)
