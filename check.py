#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property on the current tree of /repo by static analysis.

exit 0  the property holds on everything analysed (known findings are printed, not alarmed)
exit 1  VIOLATION property=<id> replay=<report>
exit 2  the analysis itself could not be carried out
"""
import gc, sys, os, json, time, traceback, threading

gc.disable()                     # analysis data only grows

if os.environ.get("PYTHONHASHSEED") != "0":      # same exploration order on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get("KOS_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)

import ir
from registry import CHECKS


def known(prop):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            pre = "known: property=%s " % prop
            if line.startswith(pre):
                key, _, what = line[len(pre):].partition(" -- ")
                res[key.strip()] = what.strip()
    return res


def finding_key(r):
    return "%s:%s:%s:%s" % (r["rule"], r["file"], r["function"], r.get("key") or r["msg"])


def main(prop):
    t0 = time.time()
    chk = CHECKS[prop]
    P = ir.load()
    reports, cov = chk["run"](P)
    low = [k for k, v in chk.get("min", {}).items() if cov.get(k, 0) < v]
    kn = known(prop)
    new = []
    for r in reports:
        k = finding_key(r)
        if k in kn:
            print("KNOWN-FINDING: property=%s %s:%d %s: %s (%s)" % (prop, r["file"], r["line"], r["function"], r["msg"], kn[k]))
        else:
            new.append(r)
    if low and not new:
        raise ir.AnalysisBroken("the analysis recognised too little of the program: " +
                                ", ".join("%s=%s (at least %d)" % (k, cov.get(k), chk["min"][k]) for k in low))
    os.makedirs(EVIDENCE, exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    cov = dict(cov)
    cov.setdefault("files", P.nfiles)
    cov.setdefault("functions_in_program", len(P.fns))
    cov["rule"] = chk["rule"]
    cov["explanation"] = chk["explanation"]
    ev = dict(property=prop, tier=tier, seed=int(seed) if seed.isdigit() else 1, level=chk.get("level", "other"),
              coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1, default=str)
    rp = os.path.join(EVIDENCE, prop + ".violation.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w") as f:
            for r in new:
                f.write("%s:%d: in %s: [%s] %s\n" % (r["file"], r["line"], r["function"], r["rule"], r["msg"]))
                if r.get("path"):
                    f.write("    path: %s\n" % " -> ".join(str(x) for x in r["path"]))
        for r in new[:20]:
            print("%s:%d: in %s: [%s] %s" % (r["file"], r["line"], r["function"], r["rule"], r["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s %s wall=%.1fs" % (prop, {k: v for k, v in cov.items() if isinstance(v, int)}, time.time() - t0))
    return 0


def guarded(out):
    try:
        out.append(main(sys.argv[1]))
    except ir.AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        out.append(2)
    except BaseException:
        t = traceback.format_exc()
        print("ANALYSIS-ERROR\n" + t[-3000:])
        out.append(3)


if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py <%s>" % "|".join(sorted(CHECKS)))
        sys.exit(4)
    out = []
    t = threading.Thread(target=guarded, args=(out,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
