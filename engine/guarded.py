"""State shared between threads: touched only under the mutex which guards it (or while nothing else can run),
changed atomically where it has no mutex, and those who wait for a change are woken."""
from locks import *

# (record, field) -> the mutex which guards it
HEAP, CTX, NEW = "KOS_HEAP_S.mutex", "KOS_THREAD_MGMT_S.ctx_mutex", "KOS_THREAD_MGMT_S.new_mutex"
FIELDS = {("KOS_HEAP_S", f): HEAP for f in ("heap_size", "used_heap_size", "malloc_size", "free_pages", "used_pages", "pools", "gc_threshold", "gc_cycles",
                                            "mark_error", "threads_to_stop", "walk_threads")}
FIELDS.update({("KOS_MARK_GROUP_STACK_S", "stack"): "KOS_MARK_GROUP_STACK_S.mutex",
               ("KOS_THREAD_CONTEXT_S", "next"): CTX, ("KOS_THREAD_CONTEXT_S", "prev"): CTX,
               ("KOS_THREAD_MGMT_S", "threads"): NEW, ("KOS_THREAD_MGMT_S", "can_create"): NEW,
               ("KOS_RNG_CONTAINER_S", "rng"): "KOS_RNG_CONTAINER_S.mutex"})
# atomics which may be read at any time, but are changed under a mutex only
WRITES = {("KOS_HEAP_S", "gc_state"): HEAP, ("KOS_THREAD_CONTEXT_S", "gc_state"): HEAP}
# field whose change others wait for -> the condition they wait on
EXCLUSIVE = {"kos_heap_init": "the instance is being created", "kos_heap_destroy": "the instance is being destroyed", "KOS_instance_init": "the instance is being created",
             "clear_instance": "the instance is being created", "KOS_instance_destroy": "all threads have finished", "init_context": "the context is not registered yet",
             "update_threads_after_evacuation": "the collector has stopped all threads", "evacuate": "the collector has stopped all threads", "main": "no threads have been created"}
EXCL = "#alone"
WAKE = ("kos_signal_cond_var", "kos_broadcast_cond_var")
# counters several threads may change at the same time without a mutex
COUNTERS = {("KOS_ARRAY_STORAGE_S", "num_slots_open"), ("KOS_OBJECT_STORAGE_S", "num_slots_open"), ("KOS_OBJECT_STORAGE_S", "num_slots_used"),
            ("KOS_OBJECT_STORAGE_S", "active_copies"), ("KOS_THREAD_MGMT_S", "num_threads"), ("KOS_THREAD_S", "ref_count"), ("KOS_THREAD_S", "flags"), ("KOS_FILE_HOLDER_S", "ref_count"),
            ("KOS_SOCKET_HOLDER_S", "ref_count"), ("PID_ARRAY", "num_pids"), ("KOS_SEMAPHORE_S", "value"), ("KOS_MARK_GROUP_STACK_S", "slot_idx"),
            ("KOS_MARK_GROUP_STACK_S", "num_groups"), ("KOS_HEAP_S", "walk_pages"), ("KOS_THREAD_CONTEXT_S", "event_flags"), ("KOS_ITERATOR_S", "index"),
            ("KOS_BUFFER_S", "size"), ("KOS_ARRAY_S", "size")}
# counters someone waits for until they reach zero
COUNTDOWN = {("KOS_HEAP_S", "threads_to_stop"): ("engagement_cond", "may be the last thread to stop"),
             ("KOS_HEAP_S", "walk_threads"): ("walk_cond", "may be the last helper to finish a walk")}
# handles which only one of several threads must get
TAKEN = {("KOS_FILE_HOLDER_S", "file"), ("KOS_SOCKET_HOLDER_S", "socket_fd")}


def kind(n):
    return "incdec" if n["k"] == "un" and ("++" in n["op"] or "--" in n["op"]) else n["k"]


class Guard(LockInterp):
    name = "guarded"
    RULES = {"unguarded", "lost-update", "not-woken"}

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        self.touched = {}
        self.updates = set()
        self.duties = {}
        self.interest = set(FIELDS) | set(WRITES) | COUNTERS | TAKEN
        acc = {k for k, f in P.fns.items() if any(n["k"] == "mem" and (n.get("r"), n["f"]) in self.interest or n["k"] == "atomic" and "load" not in n["op"] for n in f.nodes)}
        acc |= {k for k, f in P.fns.items() if any(c in WAKE for _, c in f.calls)}
        self.relevant = (set(self.relevant) | acc) - set(WAKE)
        todo = list(acc)
        while todo:
            k = todo.pop()
            if self.is_root(P.fns[k]):
                continue
            for c in P.callers.get(k, ()):
                c = c if isinstance(c, str) else c[0]
                if c in P.fns and c not in self.relevant:
                    self.relevant.add(c)
                    todo.append(c)

    def is_root(self, fn):
        return fn.key in self.P.addr_taken or fn.key not in self.P.callers or fn.name.startswith("KOS_")

    @staticmethod
    def real(prop):
        return frozenset(m for m in prop if "param#" not in m and m[0] not in "=#!")

    def entry_prop(self, fn):
        return frozenset({EXCL}) if fn.name in EXCLUSIVE else frozenset()

    def prop_view(self, fn, prop, key):
        r = super().prop_view(fn, prop, key)
        return r | {EXCL} if fn.name in EXCLUSIVE else r

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        r = super().prop_back(st, oprop, key, fn, nid, args)
        r = frozenset(m for m in r if m[0] not in "#!")
        owed = {m for m in oprop if m[0] == "!"}
        if self.is_root(self.P.fns[key]):
            owed &= st.prop                           # what it leaves undone itself is reported there
        return r | owed | {m for m in st.prop if m[0] == "#"}

    # ------------------------------------------------------------------ accesses
    def strip(self, fn, x):
        m = fn.nodes[x]
        while m["k"] in ("cast", "paren", "decay") or m["k"] == "un" and m["op"] == "&" or m["k"] == "un" and m["op"] == "*" and self.addr(fn, m["c"][0]):
            m = fn.nodes[m["c"][0]]
        return m

    @staticmethod
    def addr(fn, x):
        m = fn.nodes[x]
        while m["k"] in ("cast", "paren"):
            m = fn.nodes[m["c"][0]]
        return m["k"] == "un" and m["op"] == "&"

    def field(self, fn, x, load=False):
        """the field of a shared record which an lvalue is in"""
        m = self.strip(fn, x)
        while m["k"] == "paren" or m["k"] == "mem" and not m.get("a") and (m.get("r"), m["f"]) not in self.interest and fn.nodes[m["c"][0]]["k"] in ("mem", "paren"):
            m = fn.nodes[m["c"][0]]
        return (m, (m.get("r"), m["f"])) if m["k"] == "mem" else (None, None)

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        k = kind(n)
        if k in ("load", "asg", "casg", "incdec") or k == "un" and n["op"] == "&":
            m, f = self.field(fn, n["c"][0])
            if f in FIELDS:
                self.touch(st, fn, nid, m, f, FIELDS[f], "uses" if k in ("load", "un") else "changes")
            elif f in WRITES and k not in ("load", "un"):
                self.touch(st, fn, nid, m, f, WRITES[f], "changes")
            if k in ("asg", "casg", "incdec") and f in COUNTERS:
                self.update(st, fn, nid, m, f, [n["c"][1]] if k == "asg" else [])
                if k != "asg" and not (EXCL in st.prop or self.real(st.prop) or self.fresh(fn, m)):
                    self.report(fn, nid, "lost-update", "changes %s.%s, which other threads may change at the same time, in steps" % f, st)
            if f in COUNTDOWN and (k == "incdec" and "--" in n["op"] or k == "casg" and n["op"] == "-=" or k == "asg" and self.loads_of(fn, n["c"][1], f, m)):
                self.owe(st, fn, nid, *COUNTDOWN[f])
        elif self.cas(fn, n):
            m, f = self.field(fn, self.cas(fn, n)[0])
            if f == ("KOS_SEMAPHORE_S", "value"):
                if self.adds(fn, self.cas(fn, n)[2]):
                    self.semaphore(st, fn, nid, m)
        elif k == "atomic":
            m, f = self.field(fn, n["c"][0])
            if f == ("KOS_SEMAPHORE_S", "value") and "add" in n["op"] and not self.negative(fn, n["c"][1:]):
                self.semaphore(st, fn, nid, m)
            if f is not None and "load" not in n["op"]:
                if f in WRITES:
                    self.touch(st, fn, nid, m, f, WRITES[f], "changes")
                    if f == ("KOS_HEAP_S", "gc_state") and self.val(st, fn, n["c"][-1])[0] == 0 or f == ("KOS_HEAP_S", "gc_state") and any(self.const(fn, c) == 0 for c in n["c"][1:2]):
                        self.owe(st, fn, nid, "helper_cond", "ends a collection")
                if "store" in n["op"]:
                    self.update(st, fn, nid, m, f, n["c"][1:])
                    if f in TAKEN and not self.fresh(fn, m) and EXCL not in st.prop and not self.real(st.prop):
                        self.report(fn, nid, "lost-update", "overwrites %s.%s in a separate step after it was read: two threads may both take it" % f, st)
        return super().eval(st, fn, nid)

    def negative(self, fn, cs):
        return any((self.const(fn, c) or 0) < 0 or fn.nodes[self.through(fn, c)]["k"] == "un" and fn.nodes[self.through(fn, c)]["op"] == "-" for c in cs)

    @staticmethod
    def const(fn, c):
        return (fn.nodes[c].get("v") or {}).get("i")

    def fresh(self, fn, m):
        """the record was allocated by this function"""
        if not m.get("a"):
            return False
        b = fn.nodes[m["c"][0]]
        while b["k"] in ("load", "cast", "paren"):
            b = fn.nodes[b["c"][0]]
        if b["k"] != "ref" or "var" not in b:
            return False
        v = b["var"]
        for n in fn.nodes:
            srcs = []
            if n["k"] == "asg" and fn.nodes[n["c"][0]].get("var") == v:
                srcs = [n["c"][1]]
            elif n["k"] == "decl":
                srcs = [i for w, i in n.get("dv", ()) if w == v and i >= 0]
            for s in srcs:
                q = fn.nodes[s]
                while q["k"] in ("load", "cast", "paren"):
                    q = fn.nodes[q["c"][0]]
                if q["k"] == "call" and q.get("fn") in ("KOS_malloc", "KOS_malloc_aligned"):
                    return True
        return False

    def touch(self, st, fn, nid, m, f, mutex, what):
        if self.fresh(fn, m) or EXCL in st.prop:
            return
        self.touched[(fn.key, nid)] = f
        if mutex not in st.prop:
            self.report(fn, nid, "unguarded", "%s %s.%s without holding %s" % (what, f[0], f[1], mutex), st)

    # ------------------------------------------------------------------ read, compute, write back
    def loads_of(self, fn, x, f, at, depth=0):
        if x < 0:
            return False
        n = fn.nodes[x]
        if n["k"] == "atomic" and "load" in n["op"]:
            m, g = self.field(fn, n["c"][0])
            return g == f and self.base(fn, m) == self.base(fn, at)
        if n["k"] == "load":
            m = fn.nodes[n["c"][0]]
            if m["k"] == "mem":
                return (m.get("r"), m["f"]) == f and self.base(fn, m) == self.base(fn, at)
            if m["k"] == "ref" and "var" in m and depth < 3:
                for d in fn.nodes:
                    srcs = []
                    if d["k"] == "asg" and fn.nodes[d["c"][0]].get("var") == m["var"]:
                        srcs = [d["c"][1]]
                    elif d["k"] == "decl":
                        srcs = [i for w, i in d.get("dv", ()) if w == m["var"] and i >= 0]
                    if any(self.loads_of(fn, s, f, at, depth + 1) for s in srcs):
                        return True
            return False
        if n["k"] in ("bin", "cast", "paren", "un"):
            return any(self.loads_of(fn, c, f, at, depth) for c in n["c"])
        return False

    def base(self, fn, m):
        """what record a field belongs to, as written"""
        out = []
        m = fn.nodes[m["c"][0]]
        while True:
            if m["k"] == "mem":
                out.append(m["f"])
            elif m["k"] == "ref":
                out.append(m.get("var", m.get("name")))
            if m["k"] not in ("mem", "cast", "paren", "load", "decay"):
                return tuple(out)
            m = fn.nodes[m["c"][0]]

    def update(self, st, fn, nid, m, f, vals):
        if f not in COUNTERS or EXCL in st.prop or self.real(st.prop) or self.fresh(fn, m):
            return
        self.updates.add((fn.key, nid))
        if any(self.loads_of(fn, c, f, m) for c in vals):
            self.report(fn, nid, "lost-update", "writes back a value computed from %s.%s, which another thread may have changed in between" % f, st)

    # ------------------------------------------------------------------ waking
    def owe(self, st, fn, nid, cond, what):
        if EXCL in st.prop:
            return
        self.duties[(fn.key, nid)] = cond
        st.prop = st.prop | {"!%s!%s" % (cond, what)}

    def through(self, fn, nid):
        """the expression a value comes from, looking through local variables set once"""
        for _ in range(8):
            n = fn.nodes[nid]
            if n["k"] in ("cast", "paren"):
                nid = n["c"][0]
                continue
            if n["k"] == "load" and fn.nodes[n["c"][0]]["k"] == "ref" and "var" in fn.nodes[n["c"][0]]:
                src = self.sources(fn, fn.nodes[n["c"][0]]["var"])
                if len(src) == 1:
                    nid = src[0]
                    continue
            return nid
        return nid

    @staticmethod
    def sources(fn, v):
        src = []
        for d in fn.nodes:
            if kind(d) in ("asg", "casg", "incdec") and fn.nodes[d["c"][0]].get("var") == v:
                src.append(d["c"][1] if d["k"] == "asg" else -1)
            elif d["k"] == "decl":
                src += [i for w, i in d.get("dv", ()) if w == v and i >= 0]
        return src if -1 not in src else []

    def adds(self, fn, nid, depth=0):
        """an expression which adds something"""
        nid = self.through(fn, nid)
        n = fn.nodes[nid]
        if n["k"] == "load" and depth < 2 and fn.nodes[n["c"][0]].get("k") == "ref":
            return any(self.adds(fn, s, depth + 1) for s in self.sources(fn, fn.nodes[n["c"][0]].get("var")))
        return n["k"] == "bin" and n["op"] == "+"

    def refine_hook(self, st, fn, nid, want):
        """a branch which shows that there is nothing to tell the others: the counter is not zero, the exchange failed"""
        neg = False
        x = self.through(fn, nid)
        for _ in range(8):
            n = fn.nodes[x]
            if n["k"] == "un" and n["op"] == "!":
                neg = not neg
                x = self.through(fn, n["c"][0])
            elif n["k"] == "bin" and n["op"] in ("==", "!=", ">", "<", ">=", "<=") and self.duty_of(fn, x) is None:
                l, r = (self.through(fn, c) for c in n["c"])
                c, y = (self.const(fn, r), l) if self.const(fn, r) is not None else (self.const(fn, l), r)
                op = n["op"] if y == l else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n["op"], n["op"])
                if c == 0 and op in ("==", "!=", ">"):
                    neg ^= op == "=="
                elif c == 1 and op in ("<", ">="):
                    neg ^= op == "<"
                else:
                    return True
                x = y
            else:
                break
        d = self.duty_of(fn, x)
        truth = want != neg
        if d and truth == d[1]:
            st.prop = frozenset(p for p in st.prop if not p.startswith("!%s!" % d[0]))
        return True

    def duty_of(self, fn, x):
        """(condition, truth value of the expression which shows there is nothing to announce)"""
        n = fn.nodes[x]
        if n["k"] == "bin" and n["op"] in ("-", "+") and any(self.const(fn, c) is not None for c in n["c"]):
            x = self.through(fn, n["c"][0] if self.const(fn, n["c"][1]) is not None else n["c"][1])
            n = fn.nodes[x]
        if kind(n) in ("incdec", "load", "casg", "asg"):
            m, f = self.field(fn, n["c"][0])
            if f in COUNTDOWN:
                return (COUNTDOWN[f][0], True)
            if n["k"] == "load" and self.whose(fn, n["c"][0]):
                return ("walk_cond", False)           # the one who waits is the thread which runs the collection
        if self.cas(fn, n) and self.field(fn, self.cas(fn, n)[0])[1] == ("KOS_SEMAPHORE_S", "value"):
            return ("cond_var", False)
        return None

    @staticmethod
    def whose(fn, x):
        n = fn.nodes[x]
        return n["k"] == "ref" and "var" in n and "WALK_THREAD_TYPE_E" in fn.vars[n["var"]]["tn"]

    def cas(self, fn, n):
        if n["k"] == "call" and (n.get("fn") or "").split(":")[-1].startswith("kos_atomic_cas_"):
            return n["c"][1:]
        return None

    def semaphore(self, st, fn, nid, m):
        if self.fresh(fn, m):
            return
        if "KOS_SEMAPHORE_S.mutex" not in st.prop:
            self.report(fn, nid, "unguarded", "increases KOS_SEMAPHORE_S.value without holding KOS_SEMAPHORE_S.mutex: a thread about to wait would not notice", st)
        self.owe(st, fn, nid, "cond_var", "increases the semaphore")

    def call_hook(self, st, fn, nid, key, args):
        if key in ("kos_signal_cond_var", "kos_broadcast_cond_var"):
            m = fn.nodes[fn.nodes[nid]["c"][1]]
            while m["k"] in ("load", "cast", "paren"):
                m = fn.nodes[m["c"][0]]
            if m["k"] == "mem":
                if m["f"] in ("engagement_cond", "walk_cond") or key == "kos_broadcast_cond_var":
                    st.prop = frozenset(x for x in st.prop if not x.startswith("!%s!" % m["f"]))
        return super().call_hook(st, fn, nid, key, args)

    def on_return(self, st, fn, nid, val):
        if self.is_root(fn):
            for x in sorted(st.prop):
                if x[0] == "!" and x not in self.cur:
                    c, what = x[1:].split("!")
                    self.report(fn, nid, "not-woken", "%s, but returns without waking the threads which wait on %s" % (what, c), st)


def run(P):
    I = Guard(P)
    I.run_all()
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, guarded_accesses=len(I.touched), wake_duties=len(I.duties), counter_updates=len(I.updates),
                              guarded_fields=["%s.%s by %s" % (f + (m,)) for f, m in sorted({**FIELDS, **WRITES}.items())], abstract_states=I.stats["states"])
