"""Native mutexes: balanced on every path, never taken twice, taken in one order everywhere, and never held
by a thread which lets a collection wait for it.

The state of a path is the set of mutexes held, each named by the field it is stored in."""
from lite import *
import gcsafe

LOCK, UNLOCK, WAIT = "kos_lock_mutex", "kos_unlock_mutex", "kos_wait_cond_var"
HEAPFILE = "core/kos_heap.c"
USER = "user mutex"


class LockInterp(Lite):
    name = "locks"
    RULES = {"left-locked", "locked-twice", "not-locked", "lock-order", "collects-while-locked", "wait-unlocked", "wait-no-loop", "waits-while-locked"}

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        for p in (LOCK, UNLOCK, WAIT):
            if p not in P.fns:
                raise ir.AnalysisBroken("%s not found" % p)
        self.impl = P.fns[LOCK].file
        ops = (LOCK, UNLOCK, WAIT)
        self.relevant = {k for k, f in P.fns.items() if any(c in ops for _, c in f.calls)} - set(ops)
        # transitive: mutexes a call may take
        self.acq = {k: set() for k in P.fns}
        for k, f in P.fns.items():
            for i, c in f.calls:
                if c in (LOCK, WAIT):
                    self.acq[k].add(self.mutex_name(f, f.nodes[i]["c"][1 if c == LOCK else 2]))
        change = True
        while change:
            change = False
            for k, f in P.fns.items():
                s = self.acq[k]
                n0 = len(s)
                for _, c in f.calls:
                    if c in self.acq:
                        s |= self.acq[c]
                change |= len(s) != n0
        self.points = P.closure({p for p in gcsafe.POINTS if p in P.fns} | self.reach(()), lambda f: [c for _, c in f.calls if c])
        heap = {c for p in gcsafe.POINTS if p in P.fns for c in self.acq[p]}
        self.edges = {}
        self.deeper = set()
        self.heapmutex = {c for c in heap if c.endswith("KOS_HEAP_S.mutex")}

    def mutex_name(self, fn, x):
        m = fn.nodes[x]
        while m["k"] in ("load", "cast"):
            m = fn.nodes[m["c"][0]]
        if m["k"] == "mem":
            r, f = m.get("r"), m["f"]
            if not m.get("a") and fn.nodes[m["c"][0]]["k"] == "mem":
                return "%s.%s" % (r, f)
            return "%s.%s" % (r, f)
        if m["k"] == "ref" and "var" in m:
            v = m["var"]
            if v in fn.params:
                return "param#%d" % fn.params.index(v)
            # a variable initialised from a field is that field
            for n in fn.nodes:
                src = None
                if n["k"] == "asg":
                    a = fn.nodes[n["c"][0]]
                    if a["k"] == "ref" and a.get("var") == v:
                        src = n["c"][1]
                else:
                    for w, i in n.get("dv", ()):
                        if w == v and i >= 0:
                            src = i
                if src is not None:
                    q = fn.nodes[src]
                    while q["k"] in ("load", "cast"):
                        q = fn.nodes[q["c"][0]]
                    if q["k"] == "mem":
                        return "%s.%s" % (q.get("r"), q["f"])
        return USER

    def entry_prop(self, fn):
        return frozenset()

    def prop_view(self, fn, prop, key):
        """the mutexes held, and which ones are passed to it"""
        held = {m for m in prop if "param#" not in m and m[0] != "="}
        f, nid = self._call
        for i, p in enumerate(fn.params):
            if fn.vars[p]["tn"] == "KOS_MUTEX" and 1 + i < len(f.nodes[nid]["c"]):
                m = self.resolve(prop, self.mutex_name(f, f.nodes[nid]["c"][1 + i]))
                if m != USER and "param#" not in m:
                    held.add("=%d=%s" % (i, m))
        return frozenset(held)

    @staticmethod
    def resolve(prop, m):
        if m.startswith("param#"):
            for b in prop:
                if b[0] == "=" and b.split("=")[1] == m[6:]:
                    return b.split("=", 2)[2]
        return m

    @staticmethod
    def real(prop):
        return frozenset(m for m in prop if "param#" not in m and m[0] != "=")

    def default_call(self, st, fn, nid, key, args):
        self._call = (fn, nid)
        return super().default_call(st, fn, nid, key, args)

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        held = set(self.real(oprop)) | {m for m in st.prop if "param#" in m or m[0] == "="}
        for m in sorted(oprop):
            if "param#" not in m:
                continue
            x = fn.nodes[nid]["c"][1 + int(m.split("#")[1])]
            name = self.resolve(st.prop, self.mutex_name(fn, x))
            if name == USER:
                continue
            if m[0] != "-":
                if name in held:
                    self.report(fn, nid, "locked-twice", "calls %s, which locks %s, while holding it" % (key.split(":")[-1], name), st)
                self.nested(st, fn, nid, name)
                held.add(name)
            elif name.startswith("param#"):
                held = held - {name} if name in held else held | {"-" + name}
            else:
                if name not in held:
                    self.report(fn, nid, "not-locked", "unlocks %s which is not held here" % name, st)
                held.discard(name)
        return frozenset(held)

    def call_hook(self, st, fn, nid, key, args):
        if key is None:
            return None
        n = fn.nodes[nid]
        if key in (LOCK, UNLOCK, WAIT):
            x = n["c"][1 if key != WAIT else 2]
            m = self.resolve(st.prop, self.mutex_name(fn, x))
            self.sites[(fn.key, nid)] = m
            if m == USER:
                return [(st, TOP)]
            if m.startswith("param#"):
                # a helper which locks or unlocks on behalf of its caller
                if key == LOCK:
                    st.prop = st.prop - {"-" + m} if "-" + m in st.prop else st.prop | {m}
                elif key == UNLOCK:
                    st.prop = st.prop - {m} if m in st.prop else st.prop | {"-" + m}
                return [(st, TOP)]
            if key == LOCK:
                self.nested(st, fn, nid, m)
                if m in st.prop:
                    self.report(fn, nid, "locked-twice", "locks %s which this thread already holds" % m, st)
                st.prop = st.prop | {m}
            elif key == UNLOCK:
                if m not in st.prop:
                    self.report(fn, nid, "not-locked", "unlocks %s which is not held here" % m, st)
                st.prop = st.prop - {m}
            else:
                if m not in st.prop:
                    self.report(fn, nid, "wait-unlocked", "waits on a condition without holding %s" % m, st)
                for h in self.real(st.prop) - {m}:
                    self.report(fn, nid, "waits-while-locked", "waits for a condition while holding %s" % h, st)
                if not self.in_loop(fn, nid):
                    self.report(fn, nid, "wait-no-loop", "does not check the condition again after waiting", st)
            return [(st, TOP)]
        held = self.real(st.prop)
        if held and key in self.P.fns:
            if key not in self.relevant:
                for m in self.acq[key]:
                    if m in st.prop:
                        self.deeper.add(key)         # it may unlock it first: followed into in the next round
                    elif m != USER and not m.startswith("param#"):
                        self.nested(st, fn, nid, m)
            if key in self.points and (key not in self.relevant or self.P.fns[key].file == HEAPFILE) and not held <= self.heapmutex and fn.file != HEAPFILE:
                self.report(fn, nid, "collects-while-locked", "calls %s, during which a garbage collection may have to wait for other threads, while holding %s"
                            % (key.split(":")[-1], ", ".join(sorted(held))), st)
        return None

    def nested(self, st, fn, nid, m):
        for h in self.real(st.prop):
            if h != m:
                self.edges.setdefault((h, m), (fn.file, fn.name, fn.nodes[nid].get("l", fn.line), fn.key, nid))

    def in_loop(self, fn, nid):
        b = None
        for i in fn.rpo:
            if nid in fn.blocks[i]["e"]:
                b = i
                break
        seen, todo = set(), [x for x in fn.blocks[b]["s"]] if b is not None else []
        while todo:
            x = todo.pop()
            if x in seen or x is None or x < 0:
                continue
            if x == b:
                return True
            seen.add(x)
            todo += fn.blocks[x]["s"]
        return False

    def on_return(self, st, fn, nid, val):
        if self.is_root(fn) and self.cur != st.prop:
            for m in sorted(self.real(st.prop) - self.cur):
                self.report(fn, nid, "left-locked", "returns with %s still locked" % m, st)

    def run_function(self, fn, ek):
        old, self.cur = getattr(self, "cur", None), ek[1]
        try:
            return super().run_function(fn, ek)
        finally:
            self.cur = old

    def run_all(self):
        while True:
            self.reset()
            self.edges.clear()
            super().run_all()
            more = set(self.deeper)
            for (k, ek), outs in self.summaries.items():
                if any(o.prop != ek[1] for o in outs) or k in self.relevant and not self.is_root(self.P.fns[k]):
                    more |= {c for c, _ in self.P.callers.get(k, ())}
            for k in self.relevant:
                if not self.is_root(self.P.fns[k]) and not any(x == k for x, _ in self.summaries):
                    more |= {c for c, _ in self.P.callers.get(k, ())}
            if more <= self.relevant:
                break
            self.relevant |= more
        self.cycles()

    def cycles(self):
        adj = {}
        for (a, b) in self.edges:
            adj.setdefault(a, set()).add(b)
        for (a, b), (f, name, line, key, nid) in sorted(self.edges.items()):
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x == a:
                    self.checking = True
                    self.report(self.P.fns[key], nid, "lock-order", "locks %s while holding %s, elsewhere they are taken in the opposite order" % (b, a))
                    break
                if x not in seen:
                    seen.add(x)
                    todo += adj.get(x, ())


def run(P):
    I = LockInterp(P)
    I.run_all()
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, lock_operations=len(I.sites),
                              mutexes=sorted(set(I.sites.values())), lock_order=sorted("%s before %s" % e for e in I.edges),
                              lock_order_edges=len(I.edges), abstract_states=I.stats["states"])
