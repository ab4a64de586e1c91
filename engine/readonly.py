"""Read-only containers: nothing which a program can see of an array or a buffer is changed unless it was established
on the path that the container is not read-only (or it was created there and nobody else knows it yet)."""
from lite import *
import re

SIZED = {"KOS_ARRAY_S", "KOS_BUFFER_S"}
CONTENT = {("KOS_ARRAY_S", "size"), ("KOS_ARRAY_S", "data"), ("KOS_BUFFER_S", "size"), ("KOS_BUFFER_S", "data"),
           ("KOS_ARRAY_STORAGE_S", "buf"), ("KOS_BUFFER_STORAGE_S", "buf"), ("KOS_BUFFER_STORAGE_S", "ptr")}
# they move what is there to other memory and change nothing a program can see
MOVERS = {"copy_buf": "moves the elements to a bigger storage", "kos_array_copy_storage": "replaces the storage by a copy of itself"}
MOVERFILES = {"core/kos_heap.c": "the collector moves objects"}
FILLERS = {"kos_atomic_move_ptr": 0, "kos_atomic_fill_ptr": 0, "fgets": 0, "snprintf": 0, "memcpy": 0, "memmove": 0, "memset": 0, "fread": 0, "recv": 1, "recvfrom": 1, "read": 1}
ALLOC = re.compile(r"^(KOS_new_|kos_new_|kos_alloc_|alloc_buffer$|KOS_instance_alloc)")
THROUGH = {"get_data": 0, "get_next": 0, "kos_get_array_storage": 0, "get_storage": 0, "kos_get_array_buffer": 0, "kos_get_object_storage": 0,
           "KOS_destroy_top_local": 1, "KOS_destroy_top_locals": 2, "KOS_atomic_swap_ptr": 0}
READ_ONLY = 1


def short(c):
    return (c or "").split(":")[-1]


class ReadOnly(Lite):
    name = "readonly"
    RULES = {"read-only", "handed-out", "const-lost", "unlocked", "lock-missing"}

    def __init__(self, prog):
        super().__init__(prog)
        self.writes = {}
        self.tests = {}
        self.leafcache = {}
        P = prog
        own = {k for k, f in P.fns.items() if f.file not in MOVERFILES and f.name not in MOVERS and
               any(n["k"] == "mem" and (n.get("r") in SIZED and n["f"] == "flags" or (n.get("r"), n["f"]) in CONTENT) for n in f.nodes) and self.matters(f)}
        self.relevant = set(own)
        todo = list(own)
        while todo:
            k = todo.pop()
            if self.is_root(P.fns[k]):
                continue
            for c in P.callers.get(k, ()):
                c = c if isinstance(c, str) else c[0]
                if c in P.fns and c not in self.relevant and P.fns[c].file not in MOVERFILES:
                    self.relevant.add(c)
                    todo.append(c)

    def is_root(self, fn):
        return not fn.static or fn.key in self.P.addr_taken

    def entry_prop(self, fn):
        return frozenset()

    def matters(self, f):
        if f.name == "KOS_lock_object":
            return True
        for n in f.nodes:
            if n["k"] == "mem" and n.get("r") in SIZED and n["f"] == "flags":
                return True
            d = self.written(f, n)[0]
            if d is not None and self.target(f, d) is not None:
                return True
            if n["k"] == "ret" and n["c"] and not f.static and self.origins(f, n["c"][0]):
                return True
        return False

    def written(self, fn, n):
        """(the place a node writes to, the values written)"""
        k = n["k"]
        if k in ("asg", "casg") or k == "un" and ("++" in n["op"] or "--" in n["op"]):
            if not self.deref_write(fn, n["c"][0]):
                return n["c"][0], n["c"][1:]
        elif k == "atomic" and "load" not in n["op"]:
            return n["c"][0], n["c"][1:]
        elif k == "call":
            c = short(n.get("fn"))
            if c.startswith("kos_atomic_cas"):
                return n["c"][1], n["c"][3:]
            if c in FILLERS and len(n["c"]) > 1 + FILLERS[c]:
                return n["c"][1 + FILLERS[c]], []
        return None, []

    # ------------------------------------------------------------------ which container an expression belongs to
    def sources(self, fn, v):
        out = []
        for n in fn.nodes:
            if n["k"] == "asg":
                a = fn.nodes[n["c"][0]]
                while a["k"] in ("paren",) or a["k"] == "mem" and a["f"] == "o" and not a.get("a"):
                    a = fn.nodes[a["c"][0]]
                if a["k"] == "ref" and a.get("var") == v:
                    out.append(n["c"][1])
            elif n["k"] == "decl":
                out += [i for w, i in n.get("dv", ()) if w == v and i >= 0]
            elif n["k"] == "call" and short(n.get("fn")) == "KOS_init_local_with" and len(n["c"]) > 3:
                a = fn.nodes[n["c"][2]]
                while a["k"] in ("paren", "cast") or a["k"] == "un" and a["op"] == "&":
                    a = fn.nodes[a["c"][0]]
                if a["k"] == "ref" and a.get("var") == v:
                    out.append(n["c"][3])
        return out

    def leaves(self, fn, x, seen=()):
        """variables (or 'new') which the container an expression refers to comes from"""
        n = fn.nodes[x]
        k = n["k"]
        if k in ("cast", "paren", "load", "decay", "un", "sub"):
            return self.leaves(fn, n["c"][0], seen)
        if k == "bin":
            return self.leaves(fn, n["c"][0], seen) if n["op"] != "," else self.leaves(fn, n["c"][1], seen)
        if k == "atomic":
            return self.leaves(fn, n["c"][0], seen)
        if k == "cond":
            return self.leaves(fn, n["c"][1], seen) | self.leaves(fn, n["c"][2], seen)
        if k == "mem":
            return self.leaves(fn, n["c"][0], seen)
        if k == "ref" and "var" in n:
            return self.var_leaves(fn, n["var"], seen)
        if k == "call":
            c = short(n.get("fn"))
            if ALLOC.match(c):
                return {"new"}
            if c in THROUGH and len(n["c"]) > 1 + THROUGH[c]:
                return self.leaves(fn, n["c"][1 + THROUGH[c]], seen)
        return set()

    def var_leaves(self, fn, v, seen=()):
        if v in seen:
            return set()
        if not seen and (fn.key, v) in self.leafcache:
            return self.leafcache[fn.key, v]
        r = {v} if v in fn.params else set()
        other = False
        for s in self.sources(fn, v):
            n = fn.nodes[s]
            while n["k"] in ("cast", "paren"):
                n = fn.nodes[n["c"][0]]
            if n["k"] in ("lit",) or (n.get("v") or {}).get("i") is not None:
                continue
            sub = self.leaves(fn, s, seen + (v,))
            r |= sub
            if not sub and n["k"] == "call" and short(n.get("fn")) not in THROUGH:
                other = True
        if other or not r and not seen:
            r = r | {v}
        if not seen:
            self.leafcache[fn.key, v] = r
        return r

    # ------------------------------------------------------------------ tests and writes
    def flag_test(self, fn, n):
        """(leaves) of a container whose read-only flag an expression tests"""
        if n["k"] == "bin" and n["op"] == "&":
            for a, b in (n["c"], n["c"][::-1]):
                if (fn.nodes[b].get("v") or {}).get("i") == READ_ONLY or self.lit(fn, b) == READ_ONLY:
                    m = self.flagmem(fn, a)
                    if m is not None:
                        return self.leaves(fn, m["c"][0])
        return None

    def lit(self, fn, x):
        n = fn.nodes[x]
        while n["k"] in ("cast", "paren"):
            n = fn.nodes[n["c"][0]]
        return (n.get("v") or {}).get("i")

    def flagmem(self, fn, x, depth=0):
        n = fn.nodes[x]
        while n["k"] in ("cast", "paren", "load", "decay") or n["k"] == "un" and n["op"] in "&*" or n["k"] == "atomic" and "load" in n["op"]:
            n = fn.nodes[n["c"][0]]
        if n["k"] == "mem" and n.get("r") in SIZED and n["f"] == "flags":
            return n
        if n["k"] == "ref" and "var" in n and depth < 3:
            for s in self.sources(fn, n["var"]):
                m = self.flagmem(fn, s, depth + 1)
                if m is not None:
                    return m
        return None

    def target(self, fn, x):
        n = fn.nodes[x]
        ind = False
        while True:
            if n["k"] == "mem":
                if (n.get("r"), n["f"]) in CONTENT or n.get("r") in SIZED and n["f"] == "flags":
                    return n
                return None
            if n["k"] in ("cast", "paren", "decay", "sub", "load", "bin") or n["k"] == "un" and n["op"] in "&*":
                n = fn.nodes[n["c"][0]]
                continue
            if n["k"] == "ref" and "var" in n and not ind:
                src = [s for s in self.sources(fn, n["var"]) if not self.lit(fn, s) == 0]
                if len(src) == 1 and not fn.vars[n["var"]]["tn"].startswith("KOS_OBJ"):
                    tn = fn.vars[n["var"]]["tn"]
                    if "*" in tn or "[" in tn:
                        ind = True
                        n = fn.nodes[src[0]]
                        continue
                return None
            return None

    def deref_write(self, fn, x):
        """is the thing written a variable itself (and not what it points to)?"""
        n = fn.nodes[x]
        while n["k"] in ("paren",):
            n = fn.nodes[n["c"][0]]
        return n["k"] == "ref"

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        k = n["k"]
        if fn.name not in MOVERS and fn.file not in MOVERFILES:
            d, val = self.written(fn, n)
            if d is not None:
                m = self.target(fn, d)
                if m is not None:
                    if m["f"] == "flags":
                        self.flag_write(st, fn, nid, m, val or [])
                    else:
                        self.write(st, fn, nid, self.leaves(fn, m["c"][0]), "%s.%s" % (m["r"], m["f"]), "read-only")
        out = super().eval(st, fn, nid)
        t = self.flag_test(fn, n)
        if t is not None:
            self.tests[(fn.key, nid)] = True
            res = []
            for s in out:
                a = s.copy()
                a.temps[nid] = (0, None)
                a.prop = a.prop | {("ok", v) for v in t}
                s.temps[nid] = (READ_ONLY, None)
                res += [a, s]
            return res
        return out

    def flag_write(self, st, fn, nid, m, val):
        lv = self.leaves(fn, m["c"][0])
        if lv <= {"new"}:
            return
        def sets(x, depth=0):
            n = fn.nodes[x]
            if (self.lit(fn, x) or 0) & READ_ONLY:
                return True
            while n["k"] in ("cast", "paren"):
                n = fn.nodes[n["c"][0]]
            if n["k"] == "bin" and n["op"] == "|":
                return any(sets(c, depth) for c in n["c"])
            if n["k"] == "load" and depth < 3 and fn.nodes[n["c"][0]]["k"] == "ref":
                return any(sets(s, depth + 1) for s in self.sources(fn, fn.nodes[n["c"][0]].get("var")))
            return False
        if val and not any(sets(x) for x in val):
            self.report(fn, nid, "unlocked", "writes the flags of a container other threads may know, without the read-only flag", st)

    def write(self, st, fn, nid, lv, what, rule):
        if fn.name in MOVERS:
            return
        lv = set(lv) - {"new"}
        self.writes[(fn.key, nid)] = what
        for v in lv:
            if ("ok", v) in st.prop:
                continue
            if v in fn.params and not self.is_root(fn):
                st.prop = st.prop | {("w", fn.params.index(v), what)}
            else:
                self.report(fn, nid, rule, "%s of '%s' without having established that it is not read-only" %
                            (("changes " + what) if rule == "read-only" else "hands out writable memory", fn.vars[v].get("n", v)), st)

    # ------------------------------------------------------------------ calls
    def prop_view(self, fn, prop, key):
        return frozenset()

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        callee = self.P.fns[key]
        r = set(st.prop)
        for t in oprop:
            if t[0] == "ok" and t[1] in callee.params:
                i = callee.params.index(t[1])
                if 1 + i < len(fn.nodes[nid]["c"]):
                    r |= {("ok", v) for v in self.leaves(fn, fn.nodes[nid]["c"][1 + i])}
        st.prop = frozenset(r)
        for t in sorted((t for t in oprop if t[0] == "w"), key=str):
            i = t[1]
            if not self.is_root(callee) and 1 + i < len(fn.nodes[nid]["c"]):
                self.write(st, fn, nid, self.leaves(fn, fn.nodes[nid]["c"][1 + i]), t[2], "read-only")
        return st.prop

    def on_return(self, st, fn, nid, val):
        n = fn.nodes[nid] if nid is not None and nid >= 0 else None
        if n is None or n["k"] != "ret" or not n["c"] or fn.static or val[0] == 0:
            return
        if fn.ret.replace(" ", "") in ("uint8_t*", "unsignedchar*", "char*", "void*"):
            for s in self.origins(fn, n["c"][0]):
                self.write(st, fn, nid, self.leaves(fn, s), "", "handed-out")

    def origins(self, fn, x, depth=0):
        """loads of a storage's data pointer which an expression may be"""
        n = fn.nodes[x]
        while n["k"] in ("cast", "paren", "decay") or n["k"] == "bin" and n["op"] in "+-":
            n = fn.nodes[n["c"][0]]
        if n["k"] == "cond":
            return self.origins(fn, n["c"][1], depth) + self.origins(fn, n["c"][2], depth)
        if n["k"] == "load":
            m = fn.nodes[n["c"][0]]
            if m["k"] == "mem" and m.get("r") == "KOS_BUFFER_STORAGE_S":
                return [m["c"][0]]
            if m["k"] == "ref" and "var" in m and depth < 3:
                return [o for s in self.sources(fn, m["var"]) for o in self.origins(fn, s, depth + 1)]
        return []

    # ------------------------------------------------------------------ whole program
    def consts(self):
        """memory of a buffer obtained for reading is not turned into memory for writing"""
        P = self.P
        self.checking = True
        for k, f in P.fns.items():
            for i, n in enumerate(f.nodes):
                if n["k"] != "cast":
                    continue
                t, s = f.types[n["t"]], f.types[f.nodes[n["c"][0]]["t"]]
                if not t or not s or "*" not in t or t.startswith("const ") or not s.startswith("const ") or "*" not in s:
                    continue
                if self.from_const(f, n["c"][0]):
                    self.report(f, i, "const-lost", "turns a buffer's memory obtained for reading into memory which can be written")

    def from_const(self, fn, x, depth=0):
        n = fn.nodes[x]
        while n["k"] in ("cast", "paren", "decay", "load") or n["k"] == "bin" and n["op"] in "+-":
            n = fn.nodes[n["c"][0]]
        if n["k"] == "call":
            return short(n.get("fn")) == "KOS_buffer_data_const"
        if n["k"] == "ref" and "var" in n and depth < 3:
            return any(self.from_const(fn, s, depth + 1) for s in self.sources(fn, n["var"]))
        return False

    def run_all(self):
        super().run_all()
        self.consts()
        f = self.P.fns.get("KOS_lock_object")
        if f is None:
            raise ir.AnalysisBroken("KOS_lock_object not found")
        group = self.P.closure({f.key}, lambda g: []) if False else {f.key} | {c for _, c in f.calls if c in self.P.fns}
        for r in sorted(SIZED):
            hit = False
            for g in group:
                g = self.P.fns[g]
                for n in g.nodes:
                    if n["k"] == "mem" and n.get("r") == r and n["f"] == "flags":
                        hit = True
            if not hit:
                self.checking = True
                self.report(f, None, "lock-missing", "does not make a %s read-only" % ("array" if "ARRAY" in r else "buffer"))


def run(P):
    I = ReadOnly(P)
    I.run_all()
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, writes_checked=len(I.writes), flag_tests=len(I.tests),
                              moving_functions=sorted(MOVERS), abstract_states=I.stats["states"])
