"""Native resources - memory, files, descriptors, directory streams, references to shared holders - are released or
handed over exactly once on every path.

State of a path: a set of facts
  ("H", tok, kind)   the function holds the resource            ("R", tok, kind)   it has released it
  ("con", i, how)    the argument i has been released (R) or kept by someone else (E)
  ("cnt", i, how)    the memory argument i points at has received (A) or given up (R) a resource
  ("acq", i)         a reference has been taken on argument i
A token is the call which produced the resource, or ("S", path) for whatever hangs off a local structure."""
from lite import *
from absint import _base
import re

ALLOC = {"malloc": "mem", "calloc": "mem", "strdup": "mem", "strndup": "mem", "fopen": "file", "popen": "file", "tmpfile": "file", "opendir": "dir",
         "fdopendir": "dir", "dlopen": "lib"}
FDS = {"open": "fd", "socket": "fd", "accept": "fd", "accept4": "fd", "dup": "fd", "mkstemp": "fd", "epoll_create": "fd"}
FREE = {"free": "mem", "fclose": "file", "pclose": "file", "closedir": "dir", "close": "fd", "freeaddrinfo": "addrinfo", "munmap": "map", "dlclose": "lib"}
NOUN = {"mem": "memory", "file": "file", "dir": "directory stream", "fd": "descriptor", "addrinfo": "address list", "map": "mapping", "lib": "library",
        "ref": "reference to a shared holder", "any": "resource"}
SHARED = {"KOS_THREAD_S"}            # the thread table holds a reference of its own, which joining gives up
SKIP = {"core/kos_heap.c"}           # the collector recycles its mark groups through shared lists
POOLED = {"KOS_MARK_CONTEXT_S"}      # ... and through a shared free list
HR = ("H", "R")
CASRE = re.compile(r"cas_(weak|strong)")


class ResInterp(Lite):
    name = "resources"
    RULES = {"never-released", "finalizer", "leak", "released-twice", "wrong-release", "used-after-release"}
    CAP = 8

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        ops = set(ALLOC) | set(FDS) | set(FREE) | {"realloc", "pipe", "pipe2", "socketpair", "getaddrinfo", "mmap", "posix_memalign", "fdopen"}
        self.relevant = set()
        for k, f in P.fns.items():
            if any(c in ops for _, c in f.calls) or any(n["k"] in ("atomic", "call") and self.refcount_op(f, n) for n in f.nodes):
                self.relevant.add(k)
        self.acquired = 0
        self.malloced = {"struct _IO_FILE", "_IO_FILE", "__dirstream", "FILE", "DIR"}
        self.alloc_sites = {}
        for k, f in P.fns.items():
            for i, n in enumerate(f.nodes):
                if n["k"] == "call" and n.get("fn") in ("KOS_malloc", "KOS_malloc_aligned", "malloc", "calloc"):
                    t = self.target_type(f, i)
                    if t:
                        self.malloced.add(t)
                        self.alloc_sites.setdefault(t, (f, i))
        self.base = set(self.relevant)
        self.escapes_()

    # -------------------------------------------------------------- static helpers
    def refcount_op(self, fn, n):
        """+1 / -1 on a field which counts references; the node of the pointer to the structure"""
        if n["k"] == "atomic":
            if "fetch_add" not in n["op"] and "fetch_sub" not in n["op"]:
                return None
            c = const_of(fn.nodes[n["c"][2]])
            if c is None:
                return None
            d = 1 if c == 1 else -1 if c in (-1, 0xFFFFFFFF) else 0
            if "sub" in n["op"]:
                d = -d
            target = n["c"][0]
        elif n["k"] == "call" and n.get("fn") and CASRE.search(n["fn"]) and len(n["c"]) >= 4:
            a = fn.nodes[n["c"][3]]
            while a["k"] == "cast":
                a = fn.nodes[a["c"][0]]
            if a["k"] != "bin" or a["op"] not in ("+", "-"):
                return None
            c = const_of(fn.nodes[a["c"][1]])
            if c is None or abs(c) != 1:
                return None
            d = c if a["op"] == "+" else -c
            target = n["c"][1]
        else:
            return None
        m = fn.nodes[target]
        while m["k"] in ("cast", "un", "load", "decay") and m.get("c"):
            m = fn.nodes[m["c"][0]]
        if m["k"] == "mem" and "ref" in m["f"].lower() and m.get("a") and d and m.get("r") not in SHARED:
            return d, m["c"][0]
        return None

    def escapes_(self):
        """per function: parameters whose value is kept somewhere (flow-insensitive), for calls which are not followed"""
        P = self.P
        self.esc = {k: set() for k in P.fns}
        facts = {}
        for k, f in P.fns.items():
            flows, sinks = [], []           # var -> var, expr vars -> escaping
            for i, n in enumerate(f.nodes):
                if n["k"] == "asg":
                    src = self.vars_of(f, n["c"][1])
                    d = f.nodes[n["c"][0]]
                    if d["k"] == "ref" and "var" in d:
                        flows += [(s, d["var"]) for s in src]
                    else:
                        sinks += src
                elif n["k"] == "decl":
                    for v, init in n.get("dv", ()):
                        if init >= 0:
                            flows += [(s, v) for s in self.vars_of(f, init)]
                elif n["k"] == "atomic":
                    for c in n["c"][1:]:
                        sinks += self.vars_of(f, c)
                elif n["k"] == "call" and n.get("fn") is None:
                    for c in n["c"][1:]:
                        sinks += self.vars_of(f, c)
            facts[k] = (flows, set(sinks))
        change = True
        while change:
            change = False
            for k, f in P.fns.items():
                flows, sinks = facts[k]
                s = set(sinks)
                for i, c in f.calls:
                    e = self.esc.get(c)
                    if e:
                        for j in e:
                            a = f.nodes[i]["c"][1:]
                            if j < len(a):
                                s |= set(self.vars_of(f, a[j]))
                more = True
                while more:
                    more = False
                    for a, b in flows:
                        if b in s and a not in s:
                            s.add(a)
                            more = True
                new = {i for i, p in enumerate(f.params) if p in s}
                if new != self.esc[k]:
                    self.esc[k] = new
                    change = True

    @staticmethod
    def vars_of(f, x):
        r, todo = [], [x]
        while todo:
            y = todo.pop()
            if y < 0:
                continue
            n = f.nodes[y]
            if n["k"] == "ref" and "var" in n:
                r.append(n["var"])
            elif n["k"] in ("load", "cast", "decay"):
                todo += n["c"]
            elif n["k"] == "cond":
                todo += n["c"][1:]
            elif n["k"] == "bin" and n["op"] in ("+", "-", ","):
                todo += n["c"]
            elif n["k"] == "init":
                todo += n.get("c", ())
        return r

    # -------------------------------------------------------------- provenance
    def param_value(self, fn, idx, var):
        v = super().param_value(fn, idx, var)
        t = fn.vars[var]
        if v == TOP and t["tn"] not in ("KOS_OBJ_ID", "KOS_CONTEXT") and (t["ctn"].endswith("*") or t["ctn"] == "int"):
            return (None, ("par", idx))
        return v

    def init_state(self, fn, ek):
        st = super().init_state(fn, ek)
        for i, v in ek[2]:
            p = str(fn.params[i])
            t = self.param_value(fn, i, fn.params[i])[1]
            st.env[p] = (v[0], t)
        return st

    def pidx(self, fn, path):
        """parameter whose pointee the path lies in"""
        i = path.find("->*")
        if i < 0:
            return None
        b = _base(path)
        return fn.params.index(int(b)) if b and int(b) in fn.params else None

    def who(self, fn, tag):
        """what a value is: ("own", tok, kind) | ("par", i) | ("pf", i) | None"""
        if type(tag) is not tuple or not tag:
            return None
        if tag[0] in ("own", "par", "pf"):
            return tag
        if tag[0] == "&" and tag[1].endswith("->*"):
            i = self.pidx(fn, tag[1])
            return ("par", i) if i is not None else None
        if tag[0] == "cell":
            i = self.pidx(fn, tag[1])
            return ("pf", i) if i is not None else None
        return None

    def on_load(self, st, fn, nid, lv, val):
        if val[1] is None and val[0] != 0 and lv is not None and lv[0] == "L":
            if lv[1] is not None and "->*" in lv[1]:
                i = self.pidx(fn, lv[1])
                if i is not None:
                    return (val[0], ("pf", i, "new") if ("cnt", i, "A") in st.prop else ("pf", i))
            t = lv[2]
            if type(t) is tuple and t and t[0] == "pf":
                return (val[0], t)
            if type(t) is tuple and t and t[0] == "par":
                return (val[0], ("pf", t[1], "new") if ("cnt", t[1], "A") in st.prop else ("pf", t[1]))
        return val

    def arith(self, st, fn, nid, op, a, b):
        for x, y in ((a, b), (b, a)):
            t = x[1]
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if type(t) is tuple and t and t[0] == "own" and t[2] == "fd" or t in ("pos", "nonpos"):
                    r = self.sign(op if x is a else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), t != "nonpos", t == "pos", y[0])
                    if r is not None:
                        return (int(r), None)
            elif type(t) is tuple and t and t[0] == "own" and t[2] != "fd":
                if op == "+" or op == "-" and x is a and not (type(y[1]) is tuple and y[1] and y[1][0] == "own"):
                    return (frozenset((0,)), t) if op == "+" and False else (None, t)
        return None

    @staticmethod
    def sign(op, nonneg, strictly, c):
        """comparison of a value known to be >= 0 (or > 0; or <= 0) with a constant"""
        if not isinstance(c, int):
            return None
        if nonneg:
            if c < 0 or c == 0 and strictly:
                return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}[op]
            if c == 0:
                return {"<": False, ">=": True}.get(op)
        elif c == 0:
            return {">": False, "<=": True}.get(op)
        return None

    def refine_hook(self, st, fn, nid, want):
        n = fn.nodes[nid]
        if n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            v = self.arith(st, fn, nid, n["op"], self.val(st, fn, n["c"][0]), self.val(st, fn, n["c"][1]))
            if v is not None and isinstance(v[0], int):
                return (v[0] != 0) == want
        return True

    # -------------------------------------------------------------- effects
    @staticmethod
    def put(st, *add, drop=None):
        p = st.prop
        if drop is not None:
            p = frozenset(x for x in p if not drop(x))
        st.prop = p | frozenset(add)

    def take(self, st, fn, nid, tok, kind):
        for x in st.prop:
            if x[0] == "H" and x[1] == tok and not self.visible(st, tok):
                self.report(fn, nid, "leak", "another %s is acquired here while the one acquired here before is still held and lost" % NOUN[kind], st)
        self.put(st, ("H", tok, kind), drop=lambda x: x[0] in HR and x[1] == tok)
        self.acquired += 1
        self.sites[(fn.key, nid)] = kind
        return ("own", tok, kind)

    def visible(self, st, tok):
        return False

    def release(self, st, fn, nid, val, kind, how="R"):
        """the value's resource has been released (R) or is somebody else's responsibility (E)"""
        w = self.who(fn, val[1])
        if w is None or val[0] == 0:
            return
        if w[0] == "own":
            tok = w[1]
            more = st.env.pop("@more:" + str(tok), None)
            if more is not None:             # one of two references on the same holder
                self.put(st, drop=lambda y: y[0] == "H" and y[1] == more[1])
                return
            for x in st.prop:
                if x[0] in HR and x[1] == tok:
                    if how == "R":
                        self.sites[(fn.key, nid, "r")] = kind
                        if x[0] == "R":
                            self.report(fn, nid, "released-twice", "releases the %s acquired at line %s, which has already been released" % (NOUN[x[2]], self.line(fn, tok)), st)
                        elif kind != "any" and x[2] not in (kind, "any", "ref"):
                            self.report(fn, nid, "wrong-release", "releases a %s as if it were a %s" % (NOUN[x[2]], NOUN[kind]), st)
                        self.put(st, ("R", tok, x[2]), drop=lambda y: y[0] in HR and y[1] == tok)
                    else:
                        self.put(st, drop=lambda y: y[0] == "H" and y[1] == tok)
                    return
        elif w[0] == "par":
            i = w[1]
            if kind == "ref":
                self.put(st, ("last", i))
            if how == "R" and ("con", i, "R") in st.prop and ("acq", i) not in st.prop and ("last", i) not in st.prop:
                self.report(fn, nid, "released-twice", "releases argument %d twice" % (i + 1), st)
            if ("acq", i) in st.prop:
                self.put(st, drop=lambda x: x == ("acq", i))
            else:
                self.put(st, ("con", i, how), drop=lambda x: x[0] == "con" and x[1] == i)
        elif w[0] == "pf" and how == "R":
            i = w[1]
            if ("cnt", i, "A") in st.prop and len(w) == 2:
                return                       # gives up what has just been replaced
            self.put(st, ("cnt", i, "R"), drop=lambda x: x[0] == "cnt" and x[1] == i)

    def line(self, fn, tok):
        while isinstance(tok, tuple) and tok and isinstance(tok[0], int):
            tok = tok[0]
        return fn.nodes[tok].get("l", "?") if isinstance(tok, int) else "?"

    def on_store(self, st, fn, nid, lv, val):
        w = self.who(fn, val[1])
        if w is None or val[0] == 0:
            return val
        path = lv[1] if lv is not None else None
        if path is not None and "->" not in path:
            return val                       # a local
        if w[0] == "own" and (lv is not None and lv[2] == val[1] or
                              path is not None and st.env.get(path.split("->")[0], TOP)[1] == val[1]):
            return val                       # points into itself
        if w[0] == "own":
            self.owns(fn, nid, nid)
        elif w[0] == "par" and self.native(fn, w[1]):
            f = self.field(fn, nid)
            if f is not None and f[0]:
                self.kept_in.setdefault((fn.key, w[1]), {})[f] = nid
        if path is not None and "->*" in path and self.pidx(fn, path) is not None:
            i = self.pidx(fn, path)
            if w[0] == "own" and path.endswith("->*"):
                return val                   # judged when the function returns
            if w[0] == "own" and any(x[0] == "H" and x[1] == w[1] for x in st.prop):
                self.owns(fn, nid, nid)
                self.put(st, ("cnt", i, "A"), drop=lambda x: x[0] == "H" and x[1] == w[1] or x[0] == "cnt" and x[1] == i)
                for q, v in list(st.env.items()):
                    if v[1] == val[1]:
                        st.env[q] = (v[0], ("pf", i, "new"))
                for q, v in list(st.temps.items()):
                    if type(q) is int and len(v) == 2 and v[1] == val[1]:
                        st.temps[q] = (v[0], ("pf", i, "new"))
                return (val[0], ("pf", i, "new"))
        if w[0] == "pf" and path is not None and self.pidx(fn, path) == w[1]:
            return val                       # moved within the same structure
        self.release(st, fn, nid, val, "any", "E")
        return val

    def eval_atomic(self, st, fn, nid, n):
        r = self.refcount_op(fn, n)
        if r is not None:
            self.count(st, fn, nid, r)
        return super().eval_atomic(st, fn, nid, n)

    def count(self, st, fn, nid, r):
        d, x = r
        v = self.val(st, fn, x)
        if d < 0:
            self.release(st, fn, nid, v, "ref")
        else:
            self.acquire_ref(st, fn, nid, x, v)

    def acquire_ref(self, st, fn, nid, x, v):
        w = self.who(fn, v[1])
        if w is not None and w[0] == "par":
            self.put(st, ("acq", w[1]), drop=lambda y: y[0] == "con" and y[1] == w[1])
            return
        m = fn.nodes[x]
        while m["k"] == "cast":
            x = m["c"][0]
            m = fn.nodes[x]
        if m["k"] == "load":
            lv = st.temps.get(m["c"][0])
            if lv is not None and lv[0] == "L" and lv[1] is not None:
                if w is not None and w[0] == "own" and any(y[0] == "H" and y[1] == w[1] for y in st.prop):
                    if w[2] == "ref":
                        tok = (nid, "ref")
                        self.put(st, ("H", tok, "more"))     # a second reference on the same holder
                        self.sites[(fn.key, nid)] = "ref"
                        st.env["@more:" + str(w[1])] = (1, tok)
                    return
                t = self.take(st, fn, nid, nid, "ref")
                old = st.env.get(lv[1], TOP)
                st.env[lv[1]] = (old[0], t)

    def deref(self, st, fn, nid, val):
        t = val[1]
        if type(t) is tuple and t and t[0] == "own" and t[2] == "mem":
            if ("R", t[1], "mem") in st.prop:
                self.report(fn, nid, "used-after-release", "uses memory acquired at line %s after releasing it" % self.line(fn, t[1]), st)
        return False

    @staticmethod
    def field(fn, x):
        """(record, field) a place or address expression ends in"""
        while x is not None and x >= 0:
            n = fn.nodes[x]
            if n["k"] == "asg":
                x = n["c"][0]
            elif n["k"] == "mem":
                return (n.get("r"), n["f"])
            elif n["k"] in ("cast", "decay", "un", "load", "atomic") and n.get("c"):
                x = n["c"][0]
            else:
                return None

    @staticmethod
    def target_type(f, i):
        """the record type an allocation is converted to"""
        p = f.parent.get(i)
        if p is not None and f.nodes[p]["k"] == "cast":
            t = f.types[f.nodes[p]["t"]] if "t" in f.nodes[p] else ""
            t = t.replace("const ", "").replace("struct ", "").strip()
            return t[:-1].strip() if t.endswith("*") and "*" not in t[:-1] and "(" not in t else None

    def owns(self, fn, nid, x):
        f = self.field(fn, x)
        if f is not None and f[0]:
            self.owned.setdefault(f, (fn, nid))

    def given_up(self):
        """fields whose contents some function releases"""
        P = self.P
        eff = {}
        for (k, ek), outs in self.summaries.items():
            eff.setdefault(k, set()).update(x[1] for o in outs for x in o.prop if x[0] in ("con", "cnt") and x[2] == "R")
        res = set()
        for k, fn in P.fns.items():
            src = self.local_sources(fn)
            for i, c in fn.calls:
                js = {0} if c in FREE or c == "realloc" else eff.get(c, ())
                for j in js:
                    a = fn.nodes[i]["c"][1:]
                    if j < len(a):
                        for y in self.sources(fn, a[j]):
                            res |= src.get(y[1], set()) if y[0] == "var" else {y}
        return {x for x in res if x[0] != "var"}

    def local_sources(self, fn):
        """per local variable: the fields and variables its values come from"""
        src = {}                         # local variable -> fields its value comes from
        for i, n in enumerate(fn.nodes):
            pairs = []
            if n["k"] == "asg":
                d = fn.nodes[n["c"][0]]
                if d["k"] == "ref" and "var" in d:
                    pairs = [(d["var"], n["c"][1])]
            elif n["k"] == "decl":
                pairs = [(v, x) for v, x in n.get("dv", ()) if x >= 0]
            for v, x in pairs:
                src.setdefault(v, set()).update(self.sources(fn, x))
        more = True
        while more:
            more = False
            for v, s in src.items():
                t = set(s)
                for y in s:
                    if y[0] == "var":
                        t |= src.get(y[1], set())
                if t != s:
                    src[v] = t
                    more = True
        return src

    def sources(self, fn, x):
        """fields and variables a value is read from (or which it is the address of)"""
        out, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y is None or y < 0:
                continue
            n = fn.nodes[y]
            if n["k"] == "mem":
                out.add((n.get("r"), n["f"]))
                if not n.get("a"):
                    todo.append(n["c"][0])
            elif n["k"] == "ref" and "var" in n:
                out.add(("var", n["var"]))
            elif n["k"] in ("load", "cast", "decay", "un", "sub", "atomic"):
                todo += n["c"][:1]
            elif n["k"] == "cond":
                todo += n["c"][1:]
            elif n["k"] == "bin":
                todo += n["c"]
            elif n["k"] == "call" and n.get("fn") and re.search("swap|read", n["fn"]):
                todo += n["c"][1:]
        return out

    def keepers(self):
        given = self.given_up()
        self.kept_fields = len(self.owned)
        for f, (fn, nid) in sorted(self.owned.items(), key=lambda x: (x[1][0].file, x[1][1])):
            if f not in given and f[0] not in POOLED and f[1] != "priv":     # the latter: see finalizers()
                self.report(fn, nid, "never-released", "nothing ever releases what is kept in '%s' of %s" % (f[1], f[0]), None)

    def freed_types(self):
        """every type of record which is allocated somewhere is freed somewhere"""
        P = self.P
        frees = {"free", "realloc"}
        while True:
            new = {k for k, f in P.fns.items() if k not in frees and len(f.params) <= 3 and any(
                c in frees and f.nodes[i]["c"][1:] and (("var", p) in self.sources(f, f.nodes[i]["c"][1]))
                for i, c in f.calls for p in f.params[:1]) and f.vars[f.params[0]]["ctn"] == "void *"}
            if not new:
                break
            frees |= new
        freed = set()
        for k, f in P.fns.items():
            for i, c in f.calls:
                if c in frees and len(f.nodes[i]["c"]) > 1:
                    x = f.nodes[i]["c"][1]
                    seen = [x]
                    while f.nodes[x]["k"] == "cast":
                        x = f.nodes[x]["c"][0]
                        seen.append(x)
                    for y in seen:
                        t = f.types[f.nodes[y]["t"]] if "t" in f.nodes[y] else ""
                        freed.add(t.replace("const ", "").replace("struct ", "").replace("*", "").strip())
                    # a generic pointer: whatever types this function converts it to
                    if "void" in freed:
                        roots = {y for y in self.sources(f, f.nodes[i]["c"][1]) if y[0] == "var"}
                        src = self.local_sources(f)
                        for y in list(roots):
                            roots |= {z for z in src.get(y[1], ()) if z[0] == "var"}
                        for y in roots:
                            freed.add(f.vars[y[1]]["ctn"].replace("const", "").replace("struct ", "").replace("*", "").strip())
                        for j, n in enumerate(f.nodes):
                            if n["k"] == "cast" and roots & self.sources(f, j) and "t" in n:
                                freed.add(f.types[n["t"]].replace("const ", "").replace("struct ", "").replace("*", "").strip())
        self.alloc_types = len(self.alloc_sites)
        raw = {f.file for f in self.final_fns if any(c in frees and ("var", f.params[1]) in self.sources(f, f.nodes[i]["c"][1]) for i, c in f.calls if len(f.nodes[i]["c"]) > 1)}
        for k, f in P.fns.items():
            if f.file in raw:
                for i, n in enumerate(f.nodes):
                    if n["k"] == "call" and n.get("fn") in ("KOS_object_set_private_ptr", "KOS_object_swap_private") or \
                            n["k"] in ("asg", "atomic") and (self.field(f, n["c"][0]) or "  ")[1] == "priv":
                        x = n["c"][-1]
                        for y in [x] + [j for j, n in enumerate(f.nodes) if n["k"] == "ref" and ("var", n.get("var")) in self.sources(f, x)]:
                            t = f.types[f.nodes[y]["t"]] if "t" in f.nodes[y] else ""
                            freed.add(t.replace("const ", "").replace("struct ", "").replace("*", "").strip())
        for t, (f, i) in sorted(self.alloc_sites.items()):
            if not any(x == t or x + "_S" == t for x in freed):
                self.report(f, i, "never-released", "memory of type %s is allocated but nothing ever frees it" % t, None)

    def finalizers(self):
        """functions which the collector calls to dispose of the private data of an object"""
        P = self.P
        fins = {}
        for k, fn in P.fns.items():
            for i, c in fn.calls:
                d = P.decls.get(c) or {}
                ptn = [P.fns[c].vars[p]["tn"] for p in P.fns[c].params] if c in P.fns else d.get("ptn", [])
                for j, t in enumerate(ptn):
                    if "FINALIZE" in t:
                        a = fn.nodes[i]["c"][1:]
                        x = a[j] if j < len(a) else None
                        while x is not None and fn.nodes[x]["k"] in ("cast", "decay", "un"):
                            x = fn.nodes[x]["c"][0]
                        if x is not None and fn.nodes[x]["k"] == "ref" and "fn" in fn.nodes[x]:
                            fins[fn.nodes[x]["fn"]] = (fn, i)
        self.finalizer_count = len(fins)
        self.final_fns = [P.fns[k] for k in fins if k in P.fns and len(P.fns[k].params) > 1]
        for k in sorted(fins):
            f = P.fns.get(k)
            if f is None or len(f.params) < 2:
                continue
            outs = self.run_function(f, (None, frozenset(), ((1, (frozenset((0,)), None)),)))
            for o in outs:
                if ("con", 1, "R") not in o.prop:
                    self.report(f, None, "finalizer", "a path through this finalizer does not release the private data it is given", None)

    # -------------------------------------------------------------- calls
    def call_hook(self, st, fn, nid, key, args):
        n = fn.nodes[nid]
        P = self.P
        if key in P.fns and key != "KOS_object_swap_private" and not (CASRE.search(key) and self.refcount_op(fn, n)):
            return None
        if key is None:
            for a in args:
                self.release(st, fn, nid, a, "any", "E")
            return None
        if key in ALLOC:
            a, b = st.copy(), st
            return [(a, (0, None)), (b, (frozenset((0,)), self.take(b, fn, nid, nid, ALLOC[key])))]
        if key == "KOS_object_swap_private":
            self.release(st, fn, nid, args[2], "any", "E")
            if self.target_type(fn, nid) in SHARED:
                return [(st, TOP)]
            a, b = st.copy(), st
            return [(a, (0, None)), (b, (frozenset((0,)), self.take(b, fn, nid, nid, "any")))]
        if key in FDS:
            a, b = st.copy(), st
            return [(a, (-1, None)), (b, (frozenset((-1,)), self.take(b, fn, nid, nid, FDS[key])))]
        if key == "realloc":
            a, b = st.copy(), st
            self.release(b, fn, nid, args[0], "mem")
            return [(a, (0, None)), (b, (frozenset((0,)), self.take(b, fn, nid, nid, "mem")))]
        if key == "fdopen":
            a, b = st.copy(), st
            self.release(b, fn, nid, args[0], "fd")
            return [(a, (0, None)), (b, (frozenset((0,)), self.take(b, fn, nid, nid, "file")))]
        if key == "realpath" and len(args) > 1 and args[1][0] == 0:
            a, b = st.copy(), st
            return [(a, (0, None)), (b, (frozenset((0,)), self.take(b, fn, nid, nid, "mem")))]
        if key == "getcwd" and args and args[0][0] == 0:
            a, b = st.copy(), st
            return [(a, (0, None)), (b, (frozenset((0,)), self.take(b, fn, nid, nid, "mem")))]
        if key == "mmap":
            a, b = st.copy(), st
            return [(a, (-1, None)), (b, (frozenset((-1, 0)), self.take(b, fn, nid, nid, "map")))]
        if key in ("pipe", "pipe2", "socketpair"):
            a, b = st.copy(), st
            t = args[3 if key == "socketpair" else 0][1]
            if type(t) is tuple and t and t[0] == "&":
                p = t[1][:-2] if t[1].endswith("[]") else t[1]
                for j in (0, 1):
                    b.env["%s[%d]" % (p, j)] = (frozenset((-1,)), self.take(b, fn, nid, (nid, j), "fd"))
            return [(a, (-1, None)), (b, (0, None))]
        if key in ("getaddrinfo", "posix_memalign"):
            a, b = st.copy(), st
            j, kind = (3, "addrinfo") if key == "getaddrinfo" else (0, "mem")
            t = args[j][1]
            if type(t) is tuple and t and t[0] == "&" and not t[1].endswith("]"):
                self.kill_prefix(b.env, t[1])
                b.env[t[1]] = (frozenset((0,)), self.take(b, fn, nid, nid, kind))
            return [(a, (frozenset((0,)), None)), (b, (0, None))]
        if key in FREE:
            self.release(st, fn, nid, args[0], FREE[key])
            return [(st, TOP)]
        if key == "pthread_create":
            self.release(st, fn, nid, args[-1], "any", "E")
        if CASRE.search(key or ""):
            r = self.refcount_op(fn, n)
            if r is not None:
                a, b = st.copy(), st
                self.count(b, fn, nid, r)
                return [(a, (0, None)), (b, (1, None))]
        return None

    def indirect_call(self, st, fn, nid, cal, args):
        return super().indirect_call(st, fn, nid, cal, args)

    def unknown_call(self, st, fn, nid, key, args):
        for i in self.may.get(key, ()):
            if i < len(args):
                self.content(st, fn, nid, args[i][1])
        e = self.esc.get(key)
        if e:
            for i in e:
                if i < len(args):
                    self.release(st, fn, nid, args[i], "any", "E")
        return [(st, TOP)]

    def prop_back(self, s, prop, key, fn, nid, args):
        return s.prop

    def prop_view(self, fn, prop, key):
        return frozenset()

    def entry_prop(self, fn):
        return frozenset()

    def outcomes(self, callee, st, args):
        outs = super().outcomes(callee, st, args)
        # a release which is skipped because there is nothing to release counts as one
        by = {}
        for o in outs:
            by.setdefault(o.num, []).append(o)
        res = set()
        for num, os_ in by.items():
            rel = {x for o in os_ for x in o.prop if x[0] in ("con", "cnt") and x[2] == "R"}
            for o in os_:
                add = frozenset(x for x in rel if not any(y[:2] == x[:2] for y in o.prop))
                res.add(Outcome(o.num, o.tag, o.exc, o.prop | add, o.out) if add else o)
        return sorted(res, key=lambda o: repr(o.key()))

    def apply_outcome(self, s, fn, nid, key, o, args, callee):
        pre = dict(s.env)
        r = super().apply_outcome(s, fn, nid, key, o, args, callee)
        if r is False:
            return False
        for i, v in o.out:
            # the result has been put straight into memory which an argument points at
            t = args[i][1] if i < len(args) else None
            if type(t) is tuple and t and t[0] == "&" and "->*" in t[1] and not t[1].endswith("->*"):
                j = self.pidx(fn, t[1])
                w = s.env.get(t[1], TOP)
                if j is not None and type(w[1]) is tuple and w[1] and w[1][0] == "own":
                    self.owns(fn, nid, fn.nodes[nid]["c"][1 + i])
                    self.put(s, ("cnt", j, "A"), drop=lambda y: y[0] == "H" and y[1] == w[1][1] or y[0] == "cnt" and y[1] == j)
                    s.env[t[1]] = (w[0], ("pf", j, "new"))
        n = fn.nodes[nid]
        for x in sorted(o.prop, key=repr):
            i = x[1]
            if i >= len(args):
                continue
            a = args[i]
            tag = a[1]
            if x[0] == "con":
                w = self.who(fn, tag)
                if x[2] == "E" and w is not None and w[0] == "own":
                    for f in self.kept_in.get((key, i), ()):
                        self.owned.setdefault(f, (callee, self.kept_in[key, i][f]))
                elif x[2] == "E" and w is not None and w[0] == "par":
                    for f in self.kept_in.get((key, i), ()):
                        self.kept_in.setdefault((fn.key, w[1]), {})[f] = nid
                self.release(s, fn, nid, a, "any", x[2])
            elif x[0] == "acq":
                self.acquire_ref(s, fn, nid, n["c"][1 + i], a)
            elif x[0] == "cnt" and x[2] == "R":
                if type(tag) is tuple and tag and tag[0] == "&":
                    p = tag[1][:-2] if tag[1].endswith("[]") else tag[1]
                    j = self.pidx(fn, p)
                    for q, v in pre.items():
                        if q == p or q.startswith(p) and q[len(p)] in ".[":
                            if self.who(fn, v[1]) and self.who(fn, v[1])[0] in ("own", "par"):
                                self.release(s, fn, nid, v, "any")
                    if j is not None:
                        self.put(s, ("cnt", j, "R"), drop=lambda y: y[0] == "cnt" and y[1] == j)
                    else:
                        self.put(s, drop=lambda y: y[0] == "H" and isinstance(y[1], tuple) and y[1][0] == "S" and
                                 (y[1][1] == p or y[1][1].startswith(p + ".") or p.startswith(y[1][1] + ".")))
                elif self.who(fn, tag) is not None and self.who(fn, tag)[0] in ("pf", "par"):
                    j = self.who(fn, tag)[1]
                    self.put(s, ("cnt", j, "R"), drop=lambda y: y[0] == "cnt" and y[1] == j)
            elif x[0] == "cnt":
                self.owns(fn, nid, n["c"][1 + i])
                self.content(s, fn, nid, tag)
        return r

    def content(self, s, fn, nid, tag):
        """the memory the argument points at has received a resource"""
        if type(tag) is tuple and tag and tag[0] == "&":
            p = tag[1][:-2] if tag[1].endswith("[]") else tag[1]
            j = self.pidx(fn, p)
            if j is not None:
                self.put(s, ("cnt", j, "A"), drop=lambda y: y[0] == "cnt" and y[1] == j)
            elif "->" not in p and _base(p) and not fn.vars[int(_base(p))].get("static"):
                tok = ("S", p)
                self.put(s, ("H", tok, "any"), drop=lambda y: y[0] in HR and y[1] == tok)
                s.env.setdefault("@at:" + p, (fn.nodes[nid].get("l", 0), None))
                self.sites[(fn.key, nid)] = "struct"

    def native(self, fn, i):
        t = fn.vars[fn.params[i]]["ctn"]
        return t == "int" or self.record(fn, i) in self.malloced

    @staticmethod
    def record(fn, i):
        """the record type a parameter points at"""
        t = fn.vars[fn.params[i]]["ctn"].replace("const ", "").replace("struct ", "").strip()
        return t[:-1].strip() if t.endswith("*") else None

    def root(self, f, x):
        """("param", i) / ("local", var): the object an argument points at or into"""
        n = f.nodes[x]
        while n["k"] in ("cast", "decay"):
            n = f.nodes[n["c"][0]]
        if n["k"] == "load":
            m = f.nodes[n["c"][0]]
            if m["k"] == "ref" and m.get("var") in f.params:
                return ("param", f.params.index(m["var"]))
            return None
        if n["k"] == "un" and n["op"] == "&":
            n = f.nodes[n["c"][0]]
        while n["k"] in ("mem", "decay", "sub", "cast"):
            if n["k"] == "mem" and n.get("a"):
                return self.root(f, n["c"][0])
            n = f.nodes[n["c"][0]]
        if n["k"] == "ref" and "var" in n:
            return ("local", n["var"])
        return None

    def spread(self):
        """calls which may add to their argument: passed on by their callers, unless these own the object"""
        P = self.P
        todo = [(k, i) for k, s in self.may.items() for i in s]
        grown = set()
        while todo:
            k, i = todo.pop()
            for c, nid in P.callers.get(k, ()):
                f = P.fns[c]
                a = f.nodes[nid]["c"][1:]
                if i >= len(a):
                    continue
                r = self.root(f, a[i])
                if r is None:
                    continue
                if r[0] == "local":
                    grown |= {c, k}
                elif c not in self.relevant and self.record(f, r[1]) in self.disposable and r[1] not in self.may.setdefault(c, set()):
                    self.may[c].add(r[1])
                    todo.append((c, r[1]))
        return grown

    def result_value(self, st, fn, nid, key, o, args):
        t = o.tag
        if type(t) is tuple and t and t[0] == "own":
            return (o.num, self.take(st, fn, nid, nid, t[1]))
        if type(t) is tuple and t and t[0] == "arg":
            return (o.num, args[t[1]][1] if t[1] < len(args) else None)
        if any(x[0] == "acq" for x in o.prop) and not isinstance(o.num, int):
            return (o.num, "pos")
        if o.num is None and key in self.acquirers and not any(x[0] == "acq" for x in o.prop):
            return (o.num, "nonpos")
        return (o.num, None)

    @property
    def acquirers(self):
        return self._acq

    def out_value(self, st, fn, nid, key, i, v):
        t = v[1]
        if type(t) is tuple and t and t[0] == "own":
            return (v[0], self.take(st, fn, nid, (nid, i), t[1]))
        return v

    def ret_tag(self, fn, tag):
        w = self.who(fn, tag)
        if w is None:
            return None
        if w[0] == "par":
            return ("arg", w[1])
        return None

    def outcome(self, fn, st, v, nid):
        w = self.who(fn, v[1])
        held = {x[1]: x[2] for x in st.prop if x[0] == "H"}
        tag = self.ret_tag(fn, v[1])
        if w is not None and w[0] == "own" and w[1] in held and v[0] != 0 and \
                not any("->*" in q and x[1] == v[1] for q, x in st.env.items()):
            tag = ("own", held.pop(w[1]))
        eff = {x for x in st.prop if x[0] in ("con", "acq") or x[0] == "cnt" and (x[2] == "R" or self.record(fn, x[1]) in self.disposable)}
        out = []
        for i, p in enumerate(fn.params):
            c = "%d->*" % p
            for q, x in st.env.items():
                if q.startswith(c):
                    y = self.who(fn, x[1])
                    if y is not None and y[0] == "own" and y[1] in held and x[0] != 0:
                        kind = held[y[1]]
                        if q == c:
                            num = x[0] if not isinstance(x[0], frozenset) else ((x[0] & {0, 1, -1}) or None)
                            out.append((i, (num, ("own", kind))))
                        else:
                            if self.record(fn, i) in self.disposable:
                                eff = {z for z in eff if not (z[0] == "cnt" and z[1] == i)} | {("cnt", i, "A")}
                        held[y[1]] = None
            x = st.env.get(c)
            if x is not None and not any(j == i for j, _ in out):
                num = x[0]
                if isinstance(num, frozenset):
                    num = (num & {0, 1, -1}) or None
                if num is not None or x[1] == "@init":
                    out.append((i, (num, "@init" if x[1] == "@init" else None)))
        num = v[0] if fn.ret not in ("void", "double", "float") else None
        if isinstance(num, frozenset):
            num = (num & {0, 1, -1}) or None
        return Outcome(num, tag, None, frozenset(eff), tuple(out))

    def on_return(self, st, fn, nid, val):
        w = self.who(fn, val[1])
        kept = set()
        if w is not None and w[0] == "own" and val[0] != 0:
            kept.add(w[1])
        for q, x in st.env.items():
            if "->*" in q:
                y = self.who(fn, x[1])
                if y is not None and y[0] == "own":
                    kept.add(y[1])
        for x in sorted(st.prop, key=repr):
            if x[0] != "H" or x[1] in kept:
                continue
            tok = x[1]
            if isinstance(tok, tuple) and tok[0] == "S":
                if fn.file in SKIP:
                    continue
                v = fn.vars[int(_base(tok[1]))]
                l = st.env.get("@at:" + tok[1], (0,))[0]
                self.report(fn, nid, "leak", "returns without releasing what '%s' holds since line %s" % (v["n"] + tok[1][len(_base(tok[1])):], l), st)
            else:
                self.report(fn, nid, "leak", "returns without releasing the %s acquired at line %s" % (NOUN.get(x[2], "reference"), self.line(fn, tok)), st)

    def keep_path(self, fn, p):
        return p[0] == "@" or super().keep_path(fn, p)

    def run_all(self):
        self._acq = set()
        self.may = {}
        self.owned = {}
        self.kept_in = {}
        self.disposable = set()
        rounds = 0
        while True:
            rounds += 1
            self.reset()
            super().run_all()
            more, acq, may, disp = set(), set(), {}, set()
            for (k, ek), outs in self.summaries.items():
                eff = {x for o in outs for x in o.prop}
                if any(x[0] == "acq" or x[2] == "R" or x[0] == "con" and self.native(self.P.fns[k], x[1]) for x in eff) or \
                        any(type(o.tag) is tuple and o.tag[0] == "own" or any(type(v[1]) is tuple for _, v in o.out) for o in outs):
                    more |= {c for c, _ in self.P.callers.get(k, ())}
                for x in eff:
                    if x[0] == "cnt" and x[2] == "R":
                        disp.add(self.record(self.P.fns[k], x[1]))
                    if x[0] == "cnt" and x[2] == "A":
                        may.setdefault(k, set()).add(x[1])
                if any(x[0] == "acq" for x in eff):
                    acq.add(k)
            old = {k: set(v) for k, v in self.may.items()}
            self.may = {k: v for k, v in self.may.items() if k not in self.relevant}
            for k, v in may.items():
                self.may.setdefault(k, set()).update(v)
            more |= self.spread()
            if more <= self.relevant and acq == self._acq and old == self.may and disp <= self.disposable or rounds > getattr(self,"MAXR",12):
                break
            self.relevant |= more
            self.disposable |= disp
            self._acq = acq
        self.rounds = rounds
        self.keepers()
        self.finalizers()
        self.freed_types()

    def targets(self):
        return [fn for k, fn in sorted(self.P.fns.items()) if k in self.relevant]


def run(P):
    I = ResInterp(P)
    I.run_all()
    acq = {k: v for k, v in I.sites.items() if len(k) == 2}
    rel = {k for k in I.sites if len(k) == 3}
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, acquisition_sites=len(acq), release_sites=len(rel),
                              owning_fields=I.kept_fields, finalizers=I.finalizer_count,
                              abstract_states=I.stats["states"])
