"""Standing aside for the collector: operations which may wait are bracketed by suspend/resume, and a thread
which stands aside touches nothing the collector may be changing.

State of a path: run (the thread takes part in the interpreter), out (it stands aside), or None in code which
does not run on behalf of an interpreter thread."""
from lite import *
import gcsafe, locks

RUN, OUT = "run", "out"
SUSP, RES = "KOS_suspend_context", "KOS_resume_context"
# calls which may wait for another thread or for the outside world for an unbounded time
WAITS = {"accept", "connect", "recv", "recvfrom", "recvmsg", "send", "sendto", "sendmsg", "select", "poll", "ppoll", "pselect", "flock", "lockf",
         "fread", "fgets", "fgetc", "getc", "getchar", "getline", "read", "readv", "pread", "fwrite", "fputs", "fputc", "write", "writev", "fflush",
         "nanosleep", "usleep", "sleep", "clock_nanosleep", "wait", "waitpid", "waitid", "wait4", "getaddrinfo", "getnameinfo", "gethostbyname",
         "pthread_cond_wait", "pthread_cond_timedwait", "pthread_join", "sem_wait", "fopen", "open", "opendir", "readdir", "fsync", "tcdrain",
         "dlopen", "unlink", "rmdir", "mkdir", "rename", "link", "symlink"}
WAITS -= {"open"}
BASE = {"core/kos_heap.c"}


class SuspInterp(Lite):
    name = "suspend"
    RULES = {"waits-unsuspended", "unbalanced", "suspended-twice", "resumed-running", "suspended-use"}

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        for p in (SUSP, RES):
            if p not in P.fns:
                raise ir.AnalysisBroken("%s not found" % p)
        self.heaprec = {r for r, v in P.records.items() if v["fields"] and v["fields"][0]["ctn"] == "struct KOS_OBJ_HEADER_S"} | {"KOS_OBJ_HEADER_S"}
        gcsafe.GcInterp.find_immovable(self)
        # code which registers threads runs before its thread takes part, or after it stopped to
        self.lifecycle = self.reach({"kos_tls_set"})
        self.calls_of = lambda f: [c for _, c in f.calls if c]
        self.follow()
        self.needs = self.needs_running()

    strip = staticmethod(gcsafe.GcInterp.strip)
    rec_of_ptr = gcsafe.GcInterp.rec_of_ptr
    ptr_rec = staticmethod(gcsafe.GcInterp.ptr_rec)

    def has_ctx(self, fn):
        return any(fn.vars[p]["tn"] == "KOS_CONTEXT" for p in fn.params)

    def follow(self):
        """functions with a direct operation, and the callers of those among them which cannot be judged alone"""
        P = self.P
        direct = {k for k, f in P.fns.items() if f.file not in BASE and any(c in WAITS or c in (SUSP, RES, locks.LOCK) for _, c in f.calls)}
        self.relevant = set(direct)
        open_ = {k for k in direct if not self.has_ctx(P.fns[k])}
        todo = list(open_)
        while todo:
            k = todo.pop()
            for c, _ in P.callers.get(k, ()):
                f = P.fns[c]
                if f.file in BASE:
                    continue
                self.relevant.add(c)
                if not self.has_ctx(f) and c not in open_:
                    open_.add(c)
                    todo.append(c)

    def needs_running(self):
        P = self.P
        seeds = set(gcsafe.POINTS) - {SUSP, RES}
        for k, f in P.fns.items():
            if any(self.heap_access(f, i) for i in range(len(f.nodes))) and self.has_ctx(f):
                seeds.add(k)
        return P.closure(seeds, lambda f: [c for _, c in f.calls if c])

    def heap_access(self, fn, i):
        n = fn.nodes[i]
        if n["k"] == "mem" and n.get("a") or n["k"] == "un" and n["op"] == "*":
            r = self.rec_of_ptr(fn, n["c"][0])
            return r in self.heaprec and r not in self.immovable
        return False

    def entry_prop(self, fn):
        return RUN if self.has_ctx(fn) and fn.key not in self.lifecycle else None

    def unknown_call(self, st, fn, nid, key, args):
        if self.literal_arg(fn, nid):
            return [(st, (None, "device"))]
        return [(st, TOP)]

    def extern_call(self, st, fn, nid, key, args):
        return self.unknown_call(st, fn, nid, key, args)

    def result_value(self, st, fn, nid, key, o, args):
        if self.literal_arg(fn, nid):
            return (o.num, "device")
        return (o.num, o.tag)

    def literal_arg(self, fn, nid):
        """a file opened under a name which is part of the program"""
        for x in fn.nodes[nid]["c"][1:]:
            m = fn.nodes[x]
            while m["k"] in ("load", "cast", "decay"):
                m = fn.nodes[m["c"][0]]
            if m["k"] == "str":
                return True
        return False

    def prop_view(self, fn, prop, key):
        return prop

    def call_hook(self, st, fn, nid, key, args):
        if key == locks.LOCK and st.prop == RUN and fn.file not in BASE and locks.LockInterp.mutex_name(self, fn, fn.nodes[nid]["c"][1]) == locks.USER:
            self.report(fn, nid, "waits-unsuspended", "waits for a mutex which a program may hold for any time without standing aside for the collector", st)
        if key in WAITS:
            self.sites[(fn.key, nid, st.prop)] = 1
            if st.prop == RUN and not self.harmless(fn, nid, key, args):
                self.report(fn, nid, "waits-unsuspended", "calls %s, which may wait, without standing aside for the collector" % key, st)
        elif key == SUSP:
            self.sites[(fn.key, nid, st.prop)] = 1
            if st.prop == OUT:
                self.report(fn, nid, "suspended-twice", "stands aside for the collector while it already does", st)
            st.prop = OUT
            return [(st, TOP)]
        elif key == RES:
            self.sites[(fn.key, nid, st.prop)] = 1
            if st.prop == RUN:
                self.report(fn, nid, "resumed-running", "resumes while it does not stand aside for the collector", st)
            st.prop = RUN
            return [(st, TOP)]
        elif key in self.needs and st.prop == OUT and self.P.fns.get(key) is not None and key not in self.relevant:
            self.report(fn, nid, "suspended-use", "calls %s, which uses objects or allocates, while standing aside for the collector" % key.split(":")[-1], st)
        return None

    def deref(self, st, fn, nid, val):
        if st.prop == OUT and self.heap_access(fn, nid):
            self.report(fn, nid, "suspended-use", "accesses an object while standing aside for the collector: %s" % ir.expr_str(fn, nid), st)
        return False

    def harmless(self, fn, nid, key, args):
        n = fn.nodes[nid]
        c = [const_of(gcsafe.GcInterp.strip(fn, x)) for x in n["c"][1:]]
        if key == "read" and args and args[0][1] == "device":
            return True
        if key in ("fflush", "fwrite") and (key == "fflush" or fn.file.startswith("interpreter/")):
            m = fn.nodes[n["c"][-1]]
            while m["k"] in ("load", "cast"):
                m = fn.nodes[m["c"][0]]
            if m["k"] == "ref" and m.get("g", m.get("n")) in ("stdout", "stderr"):
                return True             # the program's own diagnostics
        if key == "waitpid" and len(c) > 2 and c[2] is not None and c[2] & 1:
            return True             # WNOHANG
        if key == "flock" and len(c) > 1 and c[1] is not None and c[1] & 12:
            return True             # LOCK_NB or LOCK_UN
        return False

    def on_return(self, st, fn, nid, val):
        if self.cur != st.prop and self.is_root(fn) and fn.key not in self.lifecycle:
            self.report(fn, nid, "unbalanced", "returns while standing aside for the collector" if st.prop == OUT
                        else "returns having resumed a thread its caller suspended", st)

    def run_function(self, fn, ek):
        old, self.cur = getattr(self, "cur", None), ek[1]
        try:
            return super().run_function(fn, ek)
        finally:
            self.cur = old

    def run_all(self):
        # callers of helpers which suspend or resume on their behalf have to be followed, too
        while True:
            self.reset()
            super().run_all()
            more = set()
            for (k, ek), outs in self.summaries.items():
                if any(o.prop != ek[1] for o in outs):
                    more |= {c for c, _ in self.P.callers.get(k, ()) if self.P.fns[c].file not in BASE}
            if more <= self.relevant:
                break
            self.relevant |= more

    def targets(self):
        return [fn for k, fn in sorted(self.P.fns.items()) if k in self.relevant and (self.is_root(fn) or self.has_ctx(fn))]



def run(P):
    I = SuspInterp(P)
    I.run_all()
    w = [1 for (k, n, p) in I.sites if P.fns[k].nodes[n].get("fn") in WAITS]
    b = {(k, n) for (k, n, p) in I.sites if P.fns[k].nodes[n].get("fn") not in WAITS}
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, waiting_call_sites=len(w),
                              suspend_resume_sites=len(b), functions_needing_a_running_thread=len(I.needs), abstract_states=I.stats["states"])
