"""Exception discipline: a failing operation leaves an exception pending and is propagated; a
succeeding one leaves none; nothing that can raise runs while one is pending; failed results are
never dereferenced."""
import os, pickle, re, sys
from absint import *
import ir

GOOD = frozenset((1,))
E_EXC = 3


def norm_fn_type(t):
    return t.replace("(*)", "").replace(" ", "")


class ErrInterp(Interp):
    SKIP_INTERNAL = True
    name = "err"
    CHECK_PENDING = False        # also report in functions entered with an exception pending
    HANDLER = "KOS_FUNCTION_HANDLER"

    def __init__(self, prog):
        super().__init__(prog)
        self.icand = {}
        self.exc_const = prog.enumvals.get("KOS_ERROR_EXCEPTION")
        for k, uses in prog.addr_taken.items():
            f = prog.fns.get(k)
            if f is None:
                continue
            sig = "%s(%s)" % (f.ret, ",".join(f.vars[p]["tn"] for p in f.params))
            self.icand.setdefault(self.sig(f), []).append(f)
        self.hazard = {}
        self.allocating = prog.closure({k for k, f in prog.fns.items() if any(c in ("malloc", "realloc", "calloc", "aligned_alloc", "posix_memalign") for _, c in f.calls)},
                                       lambda f: [c for _, c in f.calls if c])
        self.generators = self.find_generators()

    def find_generators(self):
        """native generator handlers: they signal their end with a failure and no exception"""
        gi = self.P.enumvals.get("KOS_GEN_INIT")
        res = set()
        for fn in self.P.fns.values():
            for i, c in fn.calls:
                n = fn.nodes[i]
                hs, gen = [], False
                for a in n["c"][1:]:
                    m = fn.nodes[a]
                    while m["k"] in ("cast", "decay", "load", "un") and m.get("c"):
                        m = fn.nodes[m["c"][0]]
                    if m["k"] == "ref" and m.get("fn") in self.P.fns:
                        hs.append(m["fn"])
                    if m.get("ec") == "KOS_GEN_INIT" or (m["k"] == "ref" and "ec" in m and const_of(m) == gi and m["ec"] == "KOS_GEN_INIT"):
                        gen = True
                if gen:
                    res |= set(hs)
        return res

    def sig(self, f):
        return (f.types and norm_fn_type(self.canon(f)))

    def canon(self, f):
        # canonical return type is not exported separately: use parameter canonical types only
        return "(" + ",".join(f.vars[p]["ctn"] for p in f.params) + ")"

    def candidates(self, fn, nid):
        n = fn.nodes[nid]
        cal = fn.nodes[n["c"][0]]
        t = norm_fn_type(fn.types[cal["t"]])
        params = t[t.find("(", 1):] if "(" in t else t
        res = []
        for sig, fs in self.icand.items():
            if t.endswith(sig):
                res += fs
        return res

    def callee_typedef(self, fn, nid):
        return fn.types[fn.nodes[fn.nodes[nid]["c"][0]]["st"]]

    def indirect_call(self, st, fn, nid, cal, args):
        td = self.callee_typedef(fn, nid)
        self.out_effects(st, fn, nid, None, args, fn.nodes[nid])
        if td in ("KOS_FUNCTION_HANDLER", "KOS_BUILTIN_INIT"):
            self.kill_memory(st.env, None)
            a, b = st.copy(), st.copy()
            if td == "KOS_BUILTIN_INIT":
                okv, badv = (0, None), (self.exc_const, None)
            else:
                okv, badv = (GOOD, None), (BAD, None)
            b.env[EXC] = PENDING
            return self.contract(fn, nid, td, [(a, okv), (b, badv)])
        res = []
        cands = self.candidates(fn, nid)
        if not cands:
            self.kill_memory(st.env, None)
            return self.contract(fn, nid, td, [(st, TOP)])
        for c in cands:
            for o in self.outcomes(c, st, args):
                s = st.copy()
                if self.apply_outcome(s, fn, nid, c.key, o, args, c) is False:
                    continue
                res.append((s, (o.num, o.tag)))
        return res

    def contract(self, fn, nid, td, res):
        return res

    NULLABLE = {"malloc", "calloc", "realloc", "fopen", "fdopen", "opendir", "strdup", "getenv", "strchr", "strrchr",
                "dlopen", "dlsym", "localtime_r", "gmtime_r", "realpath", "getcwd", "popen", "strstr", "readdir"}

    def extern_call(self, st, fn, nid, key, args):
        if key in self.NULLABLE:
            a, b = st.copy(), st
            return [(a, (0, ("nul", key))), (b, (frozenset((0,)), None))]
        if key in ("memcpy", "memset", "memmove", "strcpy", "strcat"):
            if args and args[0][0] == 0 and type(args[0][1]) is tuple and args[0][1][0] == "nul":
                self.report(fn, nid, "null-deref", "%s() is given a null destination" % key)
            return [(st, args[0] if args else TOP)]
        return [(st, TOP)]

    # loads of object references out of these heap containers always give an object
    VALID_SLOTS = {("KOS_ARRAY_STORAGE_S", "buf"), ("KOS_STACK_S", "buf"), ("KOS_STACK_FRAME_S", "regs")}

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        return st.prop

    def prop_view(self, fn, prop, key):
        return None

    def on_load(self, st, fn, nid, lv, val):
        n = fn.nodes[nid]
        if lv is not None and lv[0] == "L" and lv[1] == EXC and st.env.get(EXC) != CLEAR:
            st.env[AWARE] = (1, None)
        if val[0] is None and fn.types[n["st"]] in ("KOS_OBJ_ID",):
            if n["k"] == "atomic":
                return (GOOD, val[1])
            if lv is not None and lv[0] == "L" and lv[1] is not None and st.env.get(lv[1], TOP)[1] == "@init" \
                    and not self.tested_load(fn, nid):
                return (GOOD, val[1])     # an in/out reference parameter holds an object on entry
        if val == TOP and n.get("c") and fn.nodes[n["c"][0]].get("f") == "mark_error":
            return (None, "oom-only")       # the collector's own failures are running out of memory
        if val == TOP and lv is not None and lv[0] == "L" and lv[1] is not None and lv[1].endswith(".size"):
            return (None, ("size", lv[1][:-5]))
        return val

    def refine_eq(self, st, fn, nid, c, eq):
        if c == 0 and not eq and self.val(st, fn, nid) == (None, "oom-only"):
            c, eq = self.P.enumvals.get("KOS_ERROR_OUT_OF_MEMORY", 4), True
        return super().refine_eq(st, fn, nid, c, eq)

    def ret_tag(self, fn, tag):
        return tag if tag == "oom-only" else None

    def tested_load(self, fn, nid):
        """the loaded reference is compared, or kept in a variable which is"""
        p = fn.parent.get(nid)
        while p is not None and fn.nodes[p]["k"] == "cast":
            p = fn.parent.get(p)
        if p is None:
            return False
        n = fn.nodes[p]
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            return True
        sv = self.status_vars(fn)
        if n["k"] == "decl":
            return any(str(v) in sv for v, i in n["dv"] if i >= 0)
        if n["k"] == "asg":
            m = fn.nodes[n["c"][0]]
            return m["k"] == "ref" and str(m.get("var")) in sv
        return False

    def out_value(self, st, fn, nid, key, i, v):
        return (v[0], "via-out") if v[0] == BAD and v[1] is None else v

    def result_value(self, st, fn, nid, key, o, args):
        if o.num == 0 and fn.types[fn.nodes[nid]["t"]].endswith("*") and (o.exc == PENDING or key in self.allocating):
            return (0, ("nul", key))
        return (o.num, o.tag)

    def arith(self, st, fn, nid, op, a, b):
        if op in ("+", "-", "*", "/") and type(a[1]) is tuple and a[1][0] == "size":
            return (None, a[1] if op == "-" else None)
        if op == "+" and type(b[1]) is tuple and b[1][0] == "size":
            return TOP
        # OBJPTR() of the failure reference
        if op == "-" and a[0] == 1 and b[0] == 1:
            ln = fn.nodes[fn.nodes[nid]["c"][0]]
            if ln["k"] == "cast" and ln.get("ck") == "PointerToIntegral":
                return (0, ("nul", "a failed object reference") if a[1] != "via-out" else None)
        return None

    def deref(self, st, fn, nid, val):
        if val[0] != 0:
            return False
        if type(val[1]) is tuple and val[1][0] == "nul":
            self.report(fn, nid, "null-deref", "dereferences the result of %s where it failed: %s" % (val[1][1], ir.expr_str(fn, nid)), st)
        return True

    def call_hook(self, st, fn, nid, key, args):
        if key == "kos_new_object_walk" and len(args) > 2 and args[2][0] == self.P.enumvals.get("KOS_SHALLOW", -1):
            return [(s, (v[0], "shallow-walk" if v[0] != BAD else None)) for s, v in self.default_call(st, fn, nid, key, args)]
        if key == "kos_object_walk" and len(args) > 1 and args[1][1] == "shallow-walk":
            # a shallow walk keeps no table of returned keys, so stepping it neither allocates nor raises
            return [(s, v) for s, v in self.default_call(st, fn, nid, key, args) if s.env.get(EXC) != PENDING]
        if key in ("KOS_array_read", "KOS_array_write") and len(args) > 2 and args[1][1] == "args" and isinstance(args[2][0], int) and args[2][0] >= 0:
            # the call protocol guarantees the declared number of arguments (see the arity property)
            return [(s, v) for s, v in self.default_call(st, fn, nid, key, args) if s.env.get(EXC) != PENDING]
        if key in ("KOS_buffer_data_volatile", "KOS_buffer_data") and len(args) > 1 and args[1][1] == "new-buffer":
            return [(s, v) for s, v in self.default_call(st, fn, nid, key, args) if v[0] != 0]
        if key == "KOS_new_buffer":
            return [(s, (v[0], "new-buffer" if v[0] != BAD else None)) for s, v in self.default_call(st, fn, nid, key, args)]
        if key == "KOS_string_get_char_code":
            # every caller iterates inside the string; index arithmetic is outside this analysis
            return [(s, v) for s, v in self.default_call(st, fn, nid, key, args) if s.env.get(EXC) != PENDING or st.env.get(EXC) == PENDING]
        if key == "KOS_set_property" and not self.knows_setters(fn):
            # values stored in internal tables are never dynamic properties
            setter = self.P.enumvals.get("KOS_ERROR_SETTER")
            return [(s, v) for s, v in self.default_call(st, fn, nid, key, args) if v[0] != setter]
        if key in ("KOS_vector_resize", "KOS_vector_reserve") and len(args) > 1:
            r = self.vector_resize(st, fn, nid, key, args)
            if r is not None:
                return r
        if key == "KOS_raise_exception" and len(args) > 1 and args[1][0] == BAD:
            return []      # excluded by the raising API's own assertion
        if key == "kos_call_function" or key in self.PROTOCOL:
            return self.call_function(st, fn, nid, key, args)
        if st.env.get(EXC) == PENDING and key is not None and AWARE not in st.env:
            if key == "KOS_raise_exception":
                haz = True
            elif key in self.PENDING_OK:
                haz = False
            else:
                f = self.P.fns.get(key)
                haz = False
                if f is not None and key in self.touches_exc:
                    self.outcomes(f, st, args)
                    haz = self.hazard.get((key, self.entry_key(f, st, args)), False)
            if haz:
                if self._stack:
                    self.hazard[self._stack[-1]] = True
                if self.checking and self.cur_entry in (None, CLEAR):
                    self.report(fn, nid, "pending-call",
                                "calls %s, which may raise, while an exception is already pending (an earlier failure is not propagated)" % key.split(":")[-1], st)
                    return []
        return None

    # the interpreter loop and the call entry point implement the calling protocol itself
    PROTOCOL = {"core/kos_vm.c:execute"}

    def knows_setters(self, fn):
        r = fn.cache.get("setters")
        if r is None:
            r = fn.cache["setters"] = any(n.get("ec") == "KOS_ERROR_SETTER" for n in fn.nodes)
        return r

    def vector_resize(self, st, fn, nid, key, args):
        """a vector which fits its inline storage, or which shrinks, cannot fail to be resized"""
        tag = args[0][1]
        path = tag[1] if type(tag) is tuple and tag and tag[0] == "&" else None
        safe = False
        if isinstance(args[1][0], int) and args[1][0] <= 16:
            safe = True
        elif path is not None and (path + ".@small") in st.env:
            safe = True
        elif path is not None:
            e = fn.nodes[nid]["c"][2]
            while True:
                n = fn.nodes[e]
                if n["k"] in ("load", "cast"):
                    e = n["c"][0]
                elif n["k"] == "bin" and n["op"] == "-":
                    e = n["c"][0]
                else:
                    break
            if n["k"] == "ref" and "var" in n and st.env.get(str(n["var"]), TOP)[1] == ("size", path):
                safe = True
        if not safe:
            return None
        r = [(s, v) for s, v in self.default_call(st, fn, nid, key, args) if v[0] == 0]
        if path is not None and isinstance(args[1][0], int):
            for s, v in r:
                s.env[path + ".@small"] = (1, None)
        return r

    def call_function(self, st, fn, nid, key, args):
        """the calling protocol: a value, or a failure with an exception pending; a generator which
        has ended also returns a failure without an exception when called as a generator"""
        if st.env.get(EXC) != CLEAR:
            return None
        self.kill_memory(st.env, self.mod.get(key))
        r = []
        a = st.copy()
        r.append((a, (GOOD, None)))
        b = st.copy()
        b.env[EXC] = PENDING
        r.append((b, (BAD, None)))
        fl = args[4][0] if len(args) > 4 else None
        if key not in self.PROTOCOL and (not isinstance(fl, int) or fl == self.P.enumvals.get("KOS_CALL_GENERATOR")):
            r.append((st, (BAD, None)))
        return r

    # tearing down the instance discards whatever is pending
    PENDING_OK = {"KOS_instance_destroy"}

    def param_value(self, fn, idx, var):
        if idx == 2 and self.is_handler(fn) or idx == 1 and fn.key in self.generators:
            return (GOOD, "args")
        if fn.vars[var]["tn"] == "KOS_OBJ_ID" and str(var) not in self.status_vars(fn):
            return (GOOD, None)      # not tested for failure here: callers pass objects
        return Interp.param_value(self, fn, idx, var)

    def is_handler(self, fn):
        r = fn.cache.get("handler")
        if r is None:
            tn = [fn.vars[p]["tn"] for p in fn.params]
            r = fn.cache["handler"] = fn.ret == "KOS_OBJ_ID" and fn.key in self.P.addr_taken and \
                tn == ["KOS_CONTEXT", "KOS_OBJ_ID", "KOS_OBJ_ID"]
        return r

    def on_return(self, st, fn, nid, val):
        if not self.checking:
            return
        exc = st.env.get(EXC, CLEAR)
        num = val[0]
        if self.cur_entry != CLEAR or fn.key not in self.touches_exc:
            return
        ret = fn.ret
        if any(v == (BAD, "@init") for v in st.env.values()):
            return      # the failure came in from the caller through an in/out parameter
        if fn.key == "kos_call_function" or fn.key in self.PROTOCOL:
            return
        if ret == "KOS_OBJ_ID":
            if exc == PENDING and isinstance(num, frozenset) and 1 in num:
                self.report(fn, nid, "success-with-exception", "returns an object while an exception is pending", st)
            if exc == CLEAR and num == 1 and val[1] != "unset" and self.must_raise(fn) and fn.key not in self.generators:
                self.report(fn, nid, "failure-without-exception", "returns a failure with no exception pending", st)
        elif ret == "int":
            if exc == PENDING and num == 0:
                self.report(fn, nid, "success-with-exception", "returns success while an exception is pending", st)
            if exc == CLEAR and num == self.exc_const:
                self.report(fn, nid, "failure-without-exception", "returns the exception error code with no exception pending", st)

    def limit_outcomes(self, fn, outs):
        """assume-guarantee: a breach of the contract is reported in the function that commits it; its
        callers are analysed against the contract, so one breach gives one report"""
        outs = super().limit_outcomes(fn, outs)
        if fn.key not in self.touches_exc:
            if fn.key in self.contracted:
                outs = {Outcome(GOOD, o.tag, o.exc, o.prop, o.out) if o.num is None else o for o in outs}
            return outs
        fix = set()
        for o in outs:
            if o.num is None and self.cur_entry == CLEAR:
                if fn.ret == "KOS_OBJ_ID" and fn.key in self.contracted and fn.key not in self.generators and o.exc in (CLEAR, PENDING):
                    o = Outcome(GOOD if o.exc == CLEAR else BAD, o.tag, o.exc, o.prop, o.out)
                elif fn.ret == "KOS_OBJ_ID" and o.exc == PENDING:
                    o = Outcome(BAD, o.tag, o.exc, o.prop, o.out)
                elif fn.ret == "int" and o.exc == PENDING:
                    o = Outcome(frozenset((0,)), o.tag, o.exc, o.prop, o.out)
            fix.add(o)
        outs = fix
        # a value used to signal failure (with an exception) is never a successful result
        sent = frozenset(o.num for o in outs if o.exc == PENDING and isinstance(o.num, int))
        if sent and self.cur_entry == CLEAR:
            outs = {Outcome(sent, o.tag, o.exc, o.prop, o.out) if o.num is None and o.exc == CLEAR else o for o in outs}
        res = set()
        for o in outs:
            if fn.ret == "KOS_OBJ_ID":
                if o.exc == PENDING and isinstance(o.num, frozenset) and 1 in o.num and self.cur_entry == CLEAR:
                    continue
                if o.exc == CLEAR and o.num == 1 and fn.key in self.contracted and fn.key not in self.generators:
                    continue
            elif fn.ret == "int" and self.cur_entry == CLEAR:
                if o.exc == PENDING and o.num == 0:
                    continue
                if o.exc == CLEAR and o.num == self.exc_const:
                    continue
            res.add(o)
        return res

    def run_function(self, fn, ek):
        old = getattr(self, "cur_entry", None)
        self.cur_entry = ek[0]
        try:
            return self._run_function(fn, ek)
        finally:
            self.cur_entry = old

    def _run_function(self, fn, ek):
        return Interp.run_function(self, fn, ek)

    def must_raise(self, fn):
        return fn.key in self.contracted

    def raising_functions(self):
        """functions that can leave a new exception pending"""
        r = set()
        for (k, ek), outs in self.summaries.items():
            if ek[0] == CLEAR and any(o.exc == PENDING or o.exc == TOP for o in outs):
                r.add(k)
        return r

    def is_root(self, fn):
        return not fn.static or fn.key in self.P.addr_taken or fn.key not in self.P.callers

    def run_all(self):
        P = self.P
        self.raisers = set()
        self.contracted = self.find_contracted()
        self.checking = False
        roots = [fn for fn in P.fns.values() if self.is_root(fn)]
        for fn in roots:
            self.analyse(fn, (CLEAR if fn.key in self.touches_exc else None, self.entry_prop(fn), ()))
        self.settle()
        self.raisers = self.raising_functions()
        # check every function in every calling context the roots reach
        self.checking = True
        self.entry_exc = CLEAR
        tasks = []
        for (k, ek) in list(self.summaries):
            if self.skip(P.fns[k]) or ek[0] is not None and ek[0] != CLEAR and not self.CHECK_PENDING:
                continue
            tasks.append((k, ek))
        self.contexts = len(tasks)
        self.check_contexts(tasks)

    MERGED = ("sites", "uses", "lost")       # what checking a context contributes besides reports

    def check_contexts(self, tasks):
        """checks the contexts, spread over processes"""
        jobs = min(os.cpu_count() or 1, 8)
        kids = []
        for w in range(jobs):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    base = {m: getattr(self, m) for m in self.MERGED if isinstance(getattr(self, m, None), int)}
                    stats = dict(self.stats)
                    known = set(self.summaries)
                    for k, ek in tasks[w::jobs]:
                        self.run_function(self.P.fns[k], ek)
                    out = dict(reports=self.reports, stats={x: v - stats[x] for x, v in self.stats.items()}, joined=self.joined,
                               summaries={x: v for x, v in self.summaries.items() if x not in known},
                               merged={m: getattr(self, m) - base[m] if m in base else getattr(self, m) for m in self.MERGED if hasattr(self, m)})
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f, -1)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        bad = False
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            bad |= os.waitpid(pid, 0)[1] != 0
            if bad:
                continue
            out = pickle.loads(data)
            for k, v in out["reports"].items():
                self.reports.setdefault(k, v)
            for k, v in out["stats"].items():
                self.stats[k] += v
            for k, v in out["joined"].items():
                self.joined[k] = max(v, self.joined.get(k, 0))
            for k, v in out["summaries"].items():
                self.summaries.setdefault(k, v)
            for m, v in out["merged"].items():
                x = getattr(self, m)
                if isinstance(x, int):
                    setattr(self, m, x + v)
                else:
                    x.update(v)
        if bad:
            raise ir.AnalysisBroken("a worker of the analysis failed")
        self.reports = OrderedDict(sorted(self.reports.items(), key=lambda kv: (kv[1]["file"], kv[1]["line"], kv[1]["rule"], kv[1]["msg"])))

    def skip(self, fn):
        return False

    def find_contracted(self):
        P = self.P
        c = set()
        for k, fn in P.fns.items():
            if fn.ret == "KOS_OBJ_ID":
                tn = [fn.vars[p]["tn"] for p in fn.params]
                if tn == ["KOS_CONTEXT", "KOS_OBJ_ID", "KOS_OBJ_ID"] and k in P.addr_taken:
                    c.add(k)
                d = P.decls.get(k)
                if d and d["file"].startswith("inc/") and "KOS_CONTEXT" in d["ptn"]:
                    c.add(k)
        return c
