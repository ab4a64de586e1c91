"""Loads the exported program (see tool/kosfacts.cpp) and offers the views the analyses share."""
import json, os, subprocess, sys, hashlib, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KOS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

FLAGS = ["-x", "c", "-std=gnu17", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-DKOS_SUPPORTS_VISIBILITY",
         "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-D_POSIX_C_SOURCE=200112L", "-w",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


class AnalysisBroken(Exception):
    pass


def tool_path():
    src = os.path.join(VERIF, "tool", "kosfacts.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "kosfacts-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build the exporter:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def source_files():
    fs = []
    for d in ("core", "modules", "interpreter"):
        fs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return fs


def export(extra_flags=(), tag="main", files=None):
    """Runs the exporter over the current tree, in parallel; returns list of parsed JSON documents."""
    tool = tool_path()
    files = files or source_files()
    if len(files) < 2:
        raise AnalysisBroken("no source files found in " + REPO)
    out = os.path.join(BUILD, "facts-%s-%d" % (tag, os.getpid()))
    os.makedirs(out, exist_ok=True)
    procs = []
    n = 8
    flags = FLAGS + ["-I" + os.path.join(REPO, "inc")] + list(extra_flags)
    for i in range(n):
        part = files[i::n]
        if part:
            procs.append(subprocess.Popen([tool, out, REPO.rstrip("/") + "/"] + part + ["--"] + flags,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=REPO))
    errs = []
    for p in procs:
        _, e = p.communicate()
        if p.returncode:
            errs.append(e[-2000:])
    docs = []
    for f in files:
        j = os.path.join(out, f.replace("/", "_") + ".json")
        if os.path.exists(j):
            docs.append(json.load(open(j)))
            os.unlink(j)
        else:
            errs.append("no facts for " + f)
    try:
        os.rmdir(out)
    except OSError:
        pass
    if errs:
        raise AnalysisBroken("export failed: " + "\n".join(errs))
    return docs


class Fn:
    __slots__ = ("name", "key", "file", "line", "endline", "params", "ret", "nodes", "vars", "blocks", "entry",
                 "exit", "static", "types", "preds", "rpo", "cross", "live", "statics", "tu", "rpoidx",
                 "addr_taken", "variadic", "elemblk", "livet", "parent", "cache", "calls")

    def tname(self, i):
        return self.types[i]

    def loc(self, nid):
        if nid is None or nid < 0:
            return "%s:%d" % (self.file, self.line)
        return "%s:%d" % (self.file, self.nodes[nid].get("l", self.line))


class Program:
    def __init__(self, docs):
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.globals_by_file = {}
        self.decls = {}
        self.enumvals = {}
        self.nfiles = len(docs)
        for d in docs:
            types = d["types"]
            for r, v in d["records"].items():
                if r not in self.records:
                    for f in v["fields"]:
                        f["tn"] = types[f["t"]]
                        f["ctn"] = types[f["ct"]]
                        f["etn"] = types[f["et"]]
                    self.records[r] = v
            for e, v in d["enums"].items():
                self.enums.setdefault(e, v)
                self.enumvals.update(v["v"])
            for g in d["globals"]:
                g["tn"] = types[g["t"]]
                self.globals_by_file.setdefault(g["file"], {})[g["n"]] = g
                old = self.globals.get(g["n"])
                if old is None or ("v" in g and "v" not in old):
                    self.globals[g["n"]] = g
            for k, v in d["decls"].items():
                v["rettn"] = types[v["ret"]]
                v["ptn"] = [types[p] for p in v["params"]]
                self.decls.setdefault(k, v)
            for f in d["functions"]:
                if f["key"] in self.fns:
                    continue
                fn = Fn()
                fn.name = f["name"]
                fn.key = f["key"]
                fn.file = f["file"]
                fn.line = f["line"]
                fn.endline = f["endline"]
                fn.params = f["params"]
                fn.ret = types[f["ret"]]
                fn.nodes = f["nodes"]
                fn.vars = f["vars"]
                fn.types = types
                fn.static = f["static"]
                fn.entry = f["entry"]
                fn.exit = f["exit"]
                fn.statics = f["statics"]
                fn.variadic = f["variadic"]
                fn.tu = d["file"]
                fn.blocks = {b["id"]: b for b in f["blocks"]}
                fn.cache = {}
                for v in fn.vars:
                    v["tn"] = types[v["t"]]
                    v["ctn"] = types[v["ct"]]
                self._prep(fn)
                self.fns[fn.key] = fn
        self._calls()

    # ------------------------------------------------------------------
    def _prep(self, fn):
        blocks = fn.blocks
        preds = {b: [] for b in blocks}
        for b, bl in blocks.items():
            for s in bl["s"]:
                if s >= 0:
                    preds[s].append(b)
        fn.preds = preds
        seen, order = set(), []
        stack = [(fn.entry, iter([s for s in blocks[fn.entry]["s"] if s >= 0]))] if fn.entry in blocks else []
        seen.add(fn.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter([x for x in blocks[s]["s"] if x >= 0])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        fn.rpo = order
        fn.rpoidx = {b: i for i, b in enumerate(order)}
        # element -> block, and temps that cross blocks
        eb = {}
        for b in order:
            for e in blocks[b]["e"]:
                eb[e] = b
        fn.elemblk = eb
        parent = {}
        for i, n in enumerate(fn.nodes):
            for c in n.get("c", ()):
                if c >= 0:
                    parent.setdefault(c, i)
            for (_, c) in n.get("dv", ()):
                if c >= 0:
                    parent.setdefault(c, i)
        fn.parent = parent
        cross = set()
        for i, n in enumerate(fn.nodes):
            b = eb.get(i)
            if b is None:
                continue
            cs = list(n.get("c", ())) + [c for (_, c) in n.get("dv", ())]
            for c in cs:
                if c >= 0 and c in eb and eb[c] != b:
                    cross.add(c)
        fn.cross = cross
        # blocks at whose entry the value of such a node can still be used
        deadt = {}
        for t in cross:
            use, x, y, d = set(), parent.get(t), t, {eb[t]}
            while x is not None:
                if x in eb:
                    use.add(eb[x])
                n = fn.nodes[x]
                if (n["k"] == "cond" or n["k"] == "bin" and n["op"] in ("&&", "||")) and y != n["c"][0] and n["c"][0] in eb:
                    d.add(eb[n["c"][0]])        # evaluating the condition starts the expression anew
                x, y = parent.get(x), x
            live, todo = set(use), list(use)
            while todo:
                b = todo.pop()
                for p in preds[b]:
                    if p not in live and p not in d:
                        live.add(p)
                        todo.append(p)
            for b in live:
                deadt.setdefault(b, set()).add(t)
        fn.livet = deadt
        self._liveness(fn)

    def _liveness(self, fn):
        N = fn.nodes
        addr = set()
        gen, kill = {}, {}
        scalar = {}
        for b in fn.rpo:
            g, k = set(), set()
            skip = set()   # ref nodes that are pure assignment targets
            for e in fn.blocks[b]["e"]:
                n = N[e]
                if n["k"] == "asg" and n["op"] == "=":
                    l = n["c"][0]
                    if N[l]["k"] == "ref" and "var" in N[l]:
                        skip.add(l)
            for e in fn.blocks[b]["e"]:
                n = N[e]
                if n["k"] == "ref" and "var" in n:
                    if e not in skip and n["var"] not in k:
                        g.add(n["var"])
                elif n["k"] == "asg" and n["op"] == "=":
                    l = n["c"][0]
                    if N[l]["k"] == "ref" and "var" in N[l]:
                        k.add(N[l]["var"])
                elif n["k"] == "decl":
                    for v, _ in n.get("dv", ()):
                        k.add(v)
                elif n["k"] == "un" and n["op"] == "&":
                    c = n["c"][0]
                    while c >= 0 and N[c]["k"] in ("mem", "sub", "decay") and not N[c].get("a"):
                        c = N[c]["c"][0]
                    if c >= 0 and N[c]["k"] == "ref" and "var" in N[c]:
                        addr.add(N[c]["var"])
                elif n["k"] == "decay":
                    c = n["c"][0]
                    while c >= 0 and N[c]["k"] in ("mem", "sub") and not N[c].get("a"):
                        c = N[c]["c"][0]
                    if c >= 0 and N[c]["k"] == "ref" and "var" in N[c]:
                        addr.add(N[c]["var"])
            gen[b], kill[b] = g, k
        # uses of vars in terminator conditions evaluated elsewhere are elements already
        live_in = {b: set(gen[b]) for b in fn.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(fn.rpo):
                o = set()
                for s in fn.blocks[b]["s"]:
                    if s >= 0:
                        o |= live_in[s]
                n = gen[b] | (o - kill[b])
                if n != live_in[b]:
                    live_in[b] = n
                    changed = True
        fn.live = live_in
        fn.addr_taken = addr

    # ------------------------------------------------------------------
    def _calls(self):
        self.callers = {}
        self.addr_taken = {}      # fn key -> list of (fn, node) or ('global', name)
        for fn in self.fns.values():
            cs = []
            for i, n in enumerate(fn.nodes):
                if n is None:
                    continue
                if n["k"] == "call":
                    if "fn" in n:
                        cs.append((i, n["fn"]))
                        self.callers.setdefault(n["fn"], []).append((fn.key, i))
                    else:
                        cs.append((i, None))
            fn.calls = cs
            callee_refs = set()
            for i, n in enumerate(fn.nodes):
                if n["k"] == "ref" and "fn" in n:
                    p = fn.parent.get(i)
                    # callee position refs are not exported as children for direct calls
                    if p is not None:
                        self.addr_taken.setdefault(n["fn"], []).append((fn.key, i))
            for s in fn.statics:
                for k in _fnrefs(s.get("v")):
                    self.addr_taken.setdefault(k, []).append((fn.key, -1))
        for g in self.globals.values():
            for k in _fnrefs(g.get("v")):
                self.addr_taken.setdefault(k, []).append(("<global>", g["n"]))
        # functions which never return to their caller
        self.noreturn = {"exit", "_exit", "_Exit", "abort", "__assert_fail", "longjmp", "pthread_exit", "quick_exit"}
        cand = {k: f for k, f in self.fns.items() if any(c in self.noreturn for _, c in f.calls)}
        while cand:
            new = {k for k, f in cand.items() if k not in self.noreturn and self._never_returns(f)}
            if not new:
                break
            self.noreturn |= new
            cand = {c: self.fns[c] for k in new for c, _ in self.callers.get(k, ())}

    def _never_returns(self, fn):
        stop = {i for i, c in fn.calls if c in self.noreturn}
        seen, todo = set(), [fn.entry]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == fn.exit:
                return False
            if any(e in stop for e in fn.blocks[b]["e"]):
                continue
            todo += [s for s in fn.blocks[b]["s"] if s >= 0]
        return True

    def closure(self, seeds, edges):
        """functions that reach one of `seeds` through edges(fn)->callee keys"""
        rev = {}
        for k, fn in self.fns.items():
            for c in edges(fn):
                rev.setdefault(c, set()).add(k)
        out = set(seeds)
        wl = list(seeds)
        while wl:
            x = wl.pop()
            for p in rev.get(x, ()):
                if p not in out:
                    out.add(p)
                    wl.append(p)
        return out

    def sccs(self, edges):
        """Tarjan; returns list of SCCs in bottom-up (callee first) order."""
        idx, low, on, st, out = {}, {}, set(), [], []
        counter = [0]
        for root in self.fns:
            if root in idx:
                continue
            work = [(root, iter(edges(self.fns[root])))]
            idx[root] = low[root] = counter[0]
            counter[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in self.fns:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = counter[0]
                        counter[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(edges(self.fns[w]))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        return out

    def find(self, name):
        """function by plain name (static or not)"""
        if name in self.fns:
            return self.fns[name]
        c = [f for f in self.fns.values() if f.name == name]
        return c[0] if len(c) == 1 else None


def _fnrefs(v):
    if not isinstance(v, dict):
        return
    if "g" in v:
        yield v["g"]
    for key in ("st", "ar"):
        for x in v.get(key, ()):
            yield from _fnrefs(x)
    if "fill" in v:
        yield from _fnrefs(v["fill"])
    if "un" in v:
        yield from _fnrefs(v["un"])


def expr_str(fn, i, depth=0):
    if i is None or i < 0:
        return ""
    n = fn.nodes[i]
    k = n["k"]
    c = n.get("c", ())
    S = lambda j: expr_str(fn, j, depth + 1)
    if depth > 12:
        return "..."
    if k == "ref":
        return fn.vars[n["var"]]["n"] if "var" in n else n.get("fn", n.get("ec", "?")).split(":")[-1]
    if k in ("load", "decay", "cast"):
        return S(c[0])
    if k == "lit":
        v = n.get("v") or {}
        return str(v.get("i", v.get("f", v.get("I", "?"))))
    if k == "str":
        return '"%s"' % n.get("s", "")[:30]
    if k == "mem":
        return S(c[0]) + ("->" if n.get("a") else ".") + n["f"]
    if k == "sub":
        return S(c[0]) + "[" + S(c[1]) + "]"
    if k == "call":
        return (n["fn"].split(":")[-1] if "fn" in n else "(" + S(c[0]) + ")") + "(" + ", ".join(S(x) for x in c[1:]) + ")"
    if k in ("bin", "asg", "casg"):
        return S(c[0]) + " " + n["op"] + " " + S(c[1])
    if k == "un":
        return (S(c[0]) + n["op"]) if n.get("post") else (n["op"] + S(c[0]))
    if k == "cond":
        return S(c[0]) + " ? " + S(c[1]) + " : " + S(c[2])
    if k == "atomic":
        return n["op"] + "(" + ", ".join(S(x) for x in c) + ")"
    return k


_prog = {}


def load(extra_flags=(), tag="main"):
    key = (tuple(extra_flags), tag)
    if key not in _prog:
        _prog[key] = Program(export(extra_flags, tag))
    return _prog[key]


if __name__ == "__main__":
    t = time.time()
    p = load()
    print("files", p.nfiles, "functions", len(p.fns), "records", len(p.records), "nodes",
          sum(len(f.nodes) for f in p.fns.values()), "blocks", sum(len(f.blocks) for f in p.fns.values()),
          "%.1fs" % (time.time() - t))
