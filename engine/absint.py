"""Path-sensitive, summary-based abstract interpreter over the exported CFGs.

Values are pairs (num, tag).  num is what is known about the machine value:
  None            nothing
  int             exactly this constant
  frozenset(ints) any value except these
tag is property specific provenance (None when irrelevant).

A state is (env, prop): env maps access paths of locals (and the pseudo path '@exc', the pending
exception of the current thread) to values; prop is the immutable property state of the analysis.
Calls are split into the callee's outcomes, so a failing callee and a succeeding one are followed
separately and the tests that follow the call pick the right one.
"""
import sys, time
from collections import OrderedDict
from heapq import heappush, heappop

TOP = (None, None)
INIT = (None, "@init")
EXC = "@exc"
AWARE = "@aware"      # the function has looked at the pending exception itself
IMPOSSIBLE = object()
CLEAR = (1, None)
PENDING = (frozenset((1,)), None)
BAD = 1


def truth(num):
    if num is None:
        return None
    if isinstance(num, int):
        return num != 0
    return True if 0 in num else None


NOTABLE = frozenset((0, 1, 3))       # null and success, the failure reference, the exception error code


def join_num(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if isinstance(a, int):
        if isinstance(b, int):
            return (NOTABLE - {a, b}) or None
        return (b - {a}) or None
    if isinstance(b, int):
        return (a - {b}) or None
    return (a & b) or None


def leq_num(a, b):
    """a is at least as precise as b"""
    if b is None or a == b:
        return True
    if a is None:
        return False
    if isinstance(b, int):
        return False
    if isinstance(a, int):
        return a not in b
    return b <= a


def compatible(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, int):
        return a == b if isinstance(b, int) else a not in b
    return b not in a if isinstance(b, int) else True


class State:
    __slots__ = ("env", "temps", "prop", "trace")

    def __init__(self, env, temps, prop, trace=None):
        self.env = env
        self.temps = temps
        self.prop = prop
        self.trace = trace

    def copy(self):
        return State(dict(self.env), dict(self.temps), self.prop, self.trace)

    def path(self, limit=24):
        r, t = [], self.trace
        while t is not None and len(r) < limit:
            if not r or r[-1] != t[0]:
                r.append(t[0])
            t = t[1]
        r.reverse()
        return r


class Outcome:
    """One way a call can end."""
    __slots__ = ("num", "tag", "exc", "prop", "out")

    def __init__(self, num, tag=None, exc=None, prop=None, out=()):
        self.num, self.tag, self.exc, self.prop, self.out = num, tag, exc, prop, out

    def key(self):
        return (self.num, self.tag, self.exc, self.prop, self.out)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def __repr__(self):
        return "Outcome(%r,%r,exc=%r,prop=%r,%r)" % self.key()


class Interp:
    GROUPCAP = 6000
    CNTCAP = 12000     # states of one function after which all of a block are joined
    CAP = 48           # states kept apart per block and property state before joining
    SKIP_INTERNAL = False   # a branch which sets KOS_ERROR_INTERNAL is a broken invariant, not an outcome
    name = "base"

    def __init__(self, prog):
        self.P = prog
        self.summaries = {}        # (key, entry) -> set of Outcome
        self.reports = OrderedDict()
        self.checking = False
        self._stack, self._inprog, self._deps, self._dirty, self._finished = [], set(), {}, set(), []
        self.joined = {}
        self.stats = {"functions": 0, "states": 0, "calls": 0, "joins": 0}
        self._modfields()
        self._exc_touch()

    # ------------------------------------------------------------------ program facts
    def _modfields(self):
        P = self.P
        direct = {}
        for k, fn in P.fns.items():
            s = set()
            for n in fn.nodes:
                t = None
                if n["k"] in ("asg", "casg"):
                    t = n["c"][0]
                elif n["k"] == "un" and n["op"] in ("++", "--", "&"):
                    t = n["c"][0]
                elif n["k"] == "atomic" and "load" not in n["op"]:
                    t = n["c"][0]
                if t is not None and t >= 0:
                    m = fn.nodes[t]
                    while m["k"] in ("sub", "decay", "load", "cast") and m.get("c"):
                        m = fn.nodes[m["c"][0]]
                    if m["k"] == "un" and m.get("op") == "&":
                        m = fn.nodes[m["c"][0]]
                    while m["k"] == "mem":
                        s.add(m["f"])
                        m = fn.nodes[m["c"][0]]
                        if m["k"] not in ("mem",):
                            break
            direct[k] = s
        self.mod = direct
        changed = True
        while changed:
            changed = False
            for k, fn in P.fns.items():
                s = self.mod[k]
                l = len(s)
                for _, c in fn.calls:
                    if c in self.mod:
                        s |= self.mod[c]
                if len(s) != l:
                    changed = True

    def ctx_exception_field(self, n):
        return n["k"] == "mem" and n.get("f") == "exception" and n.get("r") == "KOS_THREAD_CONTEXT_S"

    def _exc_touch(self):
        P = self.P
        seeds = set()
        for k, fn in P.fns.items():
            for n in fn.nodes:
                if self.ctx_exception_field(n):
                    seeds.add(k)
                    break
            for i, c in fn.calls:
                if c is None:
                    seeds.add(k)
        self.touches_exc = P.closure(seeds, lambda f: [c for _, c in f.calls if c])

    # ------------------------------------------------------------------ hooks
    def entry_prop(self, fn):
        return None

    def prop_view(self, fn, prop, key):
        """the part of the caller's property state the callee is analysed under"""
        return prop

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        return oprop

    def param_value(self, fn, idx, var):
        if self.cell_param(fn, var):
            return (None, ("&", "%d->*" % var))
        return TOP

    def cell_param(self, fn, var):
        """pointer parameters whose pointee is modelled as a cell the caller owns"""
        v = fn.vars[var]
        tn, ct = v["tn"], v["ctn"]
        if tn in ("KOS_OBJ_ID", "KOS_CONTEXT") or not ct.endswith("*") or "(*" in ct:
            return False
        base = ct[:-1].replace("const", "").replace("*", "").strip()
        if base in ("char", "void", "uint8_t", "unsigned char", "FILE", "struct _IO_FILE") and ct.count("*") == 1:
            return False
        if base.startswith("struct ") and ct.count("*") == 1:
            r = self.P.records.get(base[7:])
            if r is not None and r["fields"] and r["fields"][0]["n"] in ("header", "hdr"):
                return False
        return True

    def deref(self, st, fn, nid, val):
        pass

    def on_load(self, st, fn, nid, lv, val):
        return val

    def on_store(self, st, fn, nid, lv, val):
        return val

    def on_return(self, st, fn, nid, val):
        pass

    def call_hook(self, st, fn, nid, key, args):
        """None = default treatment; otherwise list of (state, value)"""
        return None

    def indirect_call(self, st, fn, nid, cal, args):
        s2 = st
        self.kill_memory(s2.env, None)
        s2.env[EXC] = TOP if st.env.get(EXC) != TOP else TOP
        return [(s2, TOP)]

    def extern_call(self, st, fn, nid, key, args):
        return [(st, TOP)]

    def arith(self, st, fn, nid, op, a, b):
        return None

    @staticmethod
    def internal_error(fn, r):
        m = fn.nodes[r]
        while m["k"] in ("cast", "paren") and m.get("c"):
            m = fn.nodes[m["c"][0]]
        return m.get("ec") == "KOS_ERROR_INTERNAL"

    def cast(self, st, fn, nid, v):
        return v

    def ret_tag(self, fn, tag):
        return None

    def result_value(self, st, fn, nid, key, o, args):
        return (o.num, o.tag)

    def lvalue_field(self, st, fn, nid, base, n):
        """path for memory field access through non-local pointer, or None"""
        return None

    def refine_hook(self, st, fn, nid, outcome):
        return True

    def state_ok(self, st):
        return True

    # ------------------------------------------------------------------ reports
    def report(self, fn, nid, rule, msg, st=None):
        if not self.checking:
            return
        line = fn.nodes[nid].get("l", fn.line) if nid is not None and nid >= 0 else fn.line
        k = (fn.key, rule, line, msg)
        if k not in self.reports:
            self.reports[k] = {"file": fn.file, "function": fn.name, "line": line, "rule": rule, "msg": msg,
                               "path": st.path() if st is not None else []}

    # ------------------------------------------------------------------ env helpers
    @staticmethod
    def kill_prefix(env, path):
        p1, p2, p3 = path + ".", path + "[", path + "->"
        dead = [k for k in env if k == path or k.startswith(p1) or k.startswith(p2) or k.startswith(p3)]
        for k in dead:
            del env[k]

    @staticmethod
    def kill_field(env, f):
        s = "->" + f
        dead = [k for k in env if s in k]
        for k in dead:
            del env[k]

    _comp_cache = {}

    def kill_memory(self, env, mods):
        dead = []
        cc = self._comp_cache
        for k in env:
            if "->" not in k:
                continue
            comps = cc.get(k)
            if comps is None:
                tail = k[k.find("->") + 2:]
                comps = tuple(c for c in _resplit(tail) if c and c != "*")
                cc[k] = comps
            if not comps:
                continue
            if mods is None:
                dead.append(k)
            else:
                for c in comps:
                    if c in mods:
                        dead.append(k)
                        break
        for k in dead:
            del env[k]

    # ------------------------------------------------------------------ expression evaluation
    def lv_path(self, fn, lv):
        return lv[1] if lv is not None and lv[0] == "L" else None

    def val(self, st, fn, nid):
        """rvalue of an already evaluated node"""
        v = st.temps.get(nid)
        if v is None:
            n = fn.nodes[nid]
            c = const_of(n)
            if c is not None:
                return (c, None)
            return TOP
        if v[0] == "L":
            return TOP
        return v

    def eval(self, st, fn, nid):
        """evaluates one CFG element; returns list of states"""
        n = fn.nodes[nid]
        k = n["k"]
        T = st.temps
        if k == "load":
            c = n["c"][0]
            lv = T.get(c)
            path = lv[1] if lv is not None and lv[0] == "L" else None
            v = None
            if path is not None:
                v = st.env.get(path)
                if v is not None and v[1] == "@init":
                    v = (v[0], ("cell", path))
            if v is None:
                cc = const_of(n)
                v = (cc, None) if cc is not None else TOP
            T[nid] = self.on_load(st, fn, nid, lv, v)
            return [st]
        if k == "ref":
            if "var" in n:
                var = n["var"]
                T[nid] = ("L", str(var), None)
            elif "ec" in n:
                T[nid] = (const_of(n), None)
            else:
                T[nid] = self.fn_ref(st, fn, nid, n)
            return [st]
        if k == "lit" or k == "str" or k == "sizeof":
            c = const_of(n)
            T[nid] = self.literal(st, fn, nid, c)
            return [st]
        if k == "mem":
            b = n["c"][0]
            base = T.get(b)
            if n.get("a"):
                bv = base if base is not None and base[0] != "L" else TOP
                if self.ctx_exception_field(n):
                    T[nid] = ("L", EXC, None)
                    return [st]
                if self.deref(st, fn, nid, bv):
                    return []
                tag = bv[1]
                if type(tag) is tuple and tag and tag[0] == "&":
                    T[nid] = ("L", tag[1] + "." + n["f"], None)
                    return [st]
                p = self.lvalue_field(st, fn, nid, bv, n)
                if p is None:
                    bn = fn.nodes[b]
                    if bn["k"] == "load":
                        blv = T.get(bn["c"][0])
                        if blv is not None and blv[0] == "L" and blv[1] is not None and blv[1] != EXC and blv[1].count("->") < 2:
                            p = blv[1] + "->" + n["f"]
                T[nid] = ("L", p, tag)
            else:
                if base is not None and base[0] == "L":
                    p = base[1]
                    T[nid] = ("L", (p + "." + n["f"]) if p is not None else None, base[2])
                else:
                    T[nid] = ("L", None, None)
            return [st]
        if k == "asg":
            l, r = n["c"]
            if n["op"] != "=":
                return [st]
            if self.SKIP_INTERNAL and self.internal_error(fn, r):
                return []
            v = self.val(st, fn, r)
            lv = T.get(l)
            self.assign(st, fn, nid, lv, v, n, r)
            T[nid] = T[nid] if nid in T else v
            return [st]
        if k == "call":
            return self.eval_call(st, fn, nid, n)
        if k == "decl":
            for var, init in n.get("dv", ()):
                self.kill_prefix(st.env, str(var))
                if init >= 0:
                    kk = fn.nodes[init]["k"]
                    if kk == "init":
                        self.init_list(st, fn, str(var), init)
                    else:
                        v = self.val(st, fn, init)
                        self.assign(st, fn, nid, ("L", str(var), None), v, n, init)
                else:
                    self.uninit(st, fn, nid, var)
            return [st]
        if k == "bin":
            T[nid] = self.eval_bin(st, fn, nid, n)
            return [st]
        if k == "un":
            op = n["op"]
            c = n["c"][0]
            if op == "&":
                lv = T.get(c)
                if lv is not None and lv[0] == "L" and lv[1] is not None and ("->" not in lv[1] or "->*" in lv[1]):
                    T[nid] = (frozenset((0, 1)), ("&", lv[1]))
                elif lv is not None and lv[0] == "L":
                    T[nid] = (frozenset((0, 1)), self.addr_of_mem(st, fn, nid, lv))
                else:
                    T[nid] = (frozenset((0, 1)), None)
                return [st]
            if op == "*":
                v = self.val(st, fn, c)
                if self.deref(st, fn, nid, v):
                    return []
                tag = v[1]
                if type(tag) is tuple and tag and tag[0] == "&":
                    T[nid] = ("L", tag[1], None)
                else:
                    cn = fn.nodes[c]
                    p = None
                    if cn["k"] == "load":
                        blv = T.get(cn["c"][0])
                        if blv is not None and blv[0] == "L" and blv[1] is not None and blv[1].count("->") < 2:
                            p = blv[1] + "->*"
                    T[nid] = ("L", p, tag)
                return [st]
            if op in ("++", "--"):
                lv = T.get(c)
                old = TOP
                if lv is not None and lv[0] == "L" and lv[1] is not None:
                    old = st.env.get(lv[1], TOP)
                new = self.incdec(st, fn, nid, op, old)
                self.assign(st, fn, nid, lv, new, n, None)
                T[nid] = (None, old[1])
                return [st]
            v = self.val(st, fn, c)
            if op == "!":
                t = truth(v[0])
                T[nid] = ((0 if t else 1) if t is not None else None, self.not_tag(st, fn, nid, v))
            elif op == "-" and isinstance(v[0], int):
                T[nid] = (-v[0], None)
            else:
                cc = const_of(n)
                T[nid] = (cc, None)
            return [st]
        if k == "cast":
            c = n["c"][0]
            v = self.val(st, fn, c)
            cc = const_of(n)
            if cc is not None and v[0] is None:
                v = (cc, v[1])
            if n.get("ck") in ("IntegralToBoolean", "PointerToBoolean"):
                t = truth(v[0])
                v = ((1 if t else 0) if t is not None else None, v[1])
            elif n.get("ck") in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
                v = (cc, None)
            T[nid] = self.cast(st, fn, nid, v)
            return [st]
        if k == "cond":
            t, f = n["c"][1], n["c"][2]
            which = T.pop(("c", nid), None)
            if which is True:
                T[nid] = T.get(t, self.val(st, fn, t))
            elif which is False:
                T[nid] = T.get(f, self.val(st, fn, f))
            else:
                T[nid] = TOP
            if T[nid][0] == "L":
                pass
            return [st]
        if k == "decay":
            lv = T.get(n["c"][0])
            if lv is not None and lv[0] == "L" and lv[1] is not None and ("->" not in lv[1] or "->*" in lv[1]):
                T[nid] = (frozenset((0, 1)), ("&", lv[1] + "[]"))
            elif lv is not None and lv[0] == "L":
                T[nid] = (frozenset((0, 1)), self.addr_of_mem(st, fn, nid, lv))
            else:
                T[nid] = (frozenset((0, 1)), None)
            return [st]
        if k == "sub":
            bv = self.val(st, fn, n["c"][0])
            iv = self.val(st, fn, n["c"][1])
            if self.deref(st, fn, nid, bv):
                return []
            tag = bv[1]
            if type(tag) is tuple and tag and tag[0] == "&":
                p = tag[1]
                if p.endswith("[]"):
                    p = p[:-2]
                    T[nid] = ("L", "%s[%d]" % (p, iv[0]) if isinstance(iv[0], int) else None, None)
                elif iv[0] == 0:
                    T[nid] = ("L", p, None)
                else:
                    T[nid] = ("L", None, None)
            else:
                T[nid] = ("L", None, tag)
            return [st]
        if k == "casg":
            l, r = n["c"]
            lv = T.get(l)
            a = TOP
            if lv is not None and lv[0] == "L" and lv[1] is not None:
                a = st.env.get(lv[1], TOP)
            b = self.val(st, fn, r)
            v = self.compound(st, fn, nid, n["op"][:-1], a, b)
            self.assign(st, fn, nid, lv, v, n, None)
            T[nid] = v
            return [st]
        if k == "atomic":
            return self.eval_atomic(st, fn, nid, n)
        if k == "ret":
            return [st]
        if k == "init":
            T[nid] = TOP
            return [st]
        cc = const_of(n)
        T[nid] = (cc, None)
        return [st]

    def literal(self, st, fn, nid, c):
        n = fn.nodes[nid]
        if n["k"] == "str":
            return (frozenset((0, 1)), None)
        return (c, None)

    def fn_ref(self, st, fn, nid, n):
        return (frozenset((0, 1)), ("fn", n.get("fn")))

    def addr_of_mem(self, st, fn, nid, lv):
        return lv[2]

    def not_tag(self, st, fn, nid, v):
        return None

    def incdec(self, st, fn, nid, op, old):
        return (None, old[1])

    def compound(self, st, fn, nid, op, a, b):
        if op == "|" and isinstance(a[0], int) and isinstance(b[0], int):
            return (a[0] | b[0], None)
        if op in ("+", "-"):
            return (None, a[1])
        return TOP

    def uninit(self, st, fn, nid, var):
        pass

    def init_list(self, st, fn, path, nid):
        """aggregate initialiser: fields by position"""
        n = fn.nodes[nid]
        tn = fn.types[n["st"]] if "st" in n else ""
        rec = self.rec_of_type(tn)
        for i, c in enumerate(n.get("c", ())):
            if c < 0:
                continue
            if rec is not None:
                fl = rec["fields"]
                if i >= len(fl):
                    break
                p = path + "." + fl[i]["n"]
            else:
                p = "%s[%d]" % (path, i)
            if fn.nodes[c]["k"] == "init":
                self.init_list(st, fn, p, c)
            elif fn.nodes[c]["k"] == "zinit":
                st.env[p] = (0, None)
            else:
                v = self.val(st, fn, c)
                v = self.on_store(st, fn, nid, ("L", p, None), v)
                if v != TOP:
                    st.env[p] = v

    def rec_of_type(self, tn):
        tn = tn.replace("const ", "").replace("struct ", "").strip()
        r = self.P.records.get(tn)
        if r is None:
            r = self.P.records.get(tn + "_S")
        return r

    def assign(self, st, fn, nid, lv, v, n, rnode):
        env = st.env
        if lv is None or lv[0] != "L":
            return
        path = lv[1]
        v = self.on_store(st, fn, nid, lv, v)
        if path is None:
            # store through a pointer: forget matching memory paths
            t = fn.nodes[n["c"][0]] if n.get("c") else None
            if t is not None and t["k"] == "mem":
                self.kill_field(env, t["f"])
            elif t is not None and t["k"] in ("un", "sub"):
                # a pointer parameter's pointee is not reached through other pointers
                for q in [q for q in env if q[0] != "@" and "->*" in q and int(_base(q)) not in fn.params]:
                    del env[q]
            return
        if "->*" in path:
            pass      # distinct pointer parameters do not alias
        elif "->" in path:
            f = path[path.rfind("->") + 2:].split(".")[0].split("[")[0]
            self.kill_field(env, f)
        elif path.isdigit():
            for k in [k for k in env if k.startswith("@ge:") and path in k.split(":")]:
                del env[k]
        # struct copy
        src = None
        if rnode is not None:
            rn = fn.nodes[rnode]
            if rn["k"] == "load":
                s = st.temps.get(rn["c"][0])
                if s is not None and s[0] == "L" and s[1] is not None:
                    src = s[1]
        sub = [(k[len(src):], x) for k, x in env.items() if src and k.startswith(src + ".")] if src else ()
        self.kill_prefix(env, path)
        if path == EXC:
            num = v[0]
            env[EXC] = CLEAR if num == 1 else (PENDING if num is not None and not (isinstance(num, frozenset) and 1 not in num) else (num, None))
            if num is None:
                env[EXC] = PENDING if self.assume_exc_valid else TOP
            return
        if v != TOP:
            env[path] = v
        for s, x in sub:
            env[path + s] = x

    assume_exc_valid = True

    def eval_atomic(self, st, fn, nid, n):
        op = n["op"]
        T = st.temps
        p = n["c"][0]
        pv = self.val(st, fn, p)
        if self.deref(st, fn, nid, pv):
            return []
        if "load" in op:
            T[nid] = self.on_load(st, fn, nid, ("L", None, pv[1]), TOP)
            return [st]
        # operand order: ptr, order, val1 ... : any value operand may be stored
        for c in n["c"][1:]:
            v = self.val(st, fn, c)
            self.on_store(st, fn, nid, ("L", None, pv[1]), v)
        pn = fn.nodes[p]
        if pn["k"] == "un" and pn["op"] == "&":
            m = fn.nodes[pn["c"][0]]
            if m["k"] == "mem":
                self.kill_field(st.env, m["f"])
        tag = pv[1]
        if type(tag) is tuple and tag and tag[0] == "&":
            self.kill_prefix(st.env, tag[1])
        if "compare_exchange" in op:
            e = self.val(st, fn, n["c"][2]) if len(n["c"]) > 2 else TOP
            for c in n["c"][1:]:
                tg = self.val(st, fn, c)[1]
                if type(tg) is tuple and tg and tg[0] == "&":
                    self.kill_prefix(st.env, tg[1])
            T[nid] = TOP
        else:
            T[nid] = self.on_load(st, fn, nid, ("L", None, pv[1]), TOP)
        return [st]

    def eval_bin(self, st, fn, nid, n):
        op = n["op"]
        l, r = n["c"]
        T = st.temps
        if op in ("&&", "||"):
            t = T.pop(("sc", nid), None)
            if t is not None:
                return (t, None)
            rv = self.val(st, fn, r)
            tr = truth(rv[0])
            return ((1 if tr else 0) if tr is not None else None, ("bool", r) if self.keep_bool else None)
        a, b = self.val(st, fn, l), self.val(st, fn, r)
        if op == ",":
            return b
        x = self.arith(st, fn, nid, op, a, b)
        if x is not None:
            return x
        an, bn = a[0], b[0]
        if op in ("==", "!="):
            res = None
            if isinstance(an, int) and isinstance(bn, int):
                res = an == bn
            elif isinstance(an, int) and isinstance(bn, frozenset) and an in bn:
                res = False
            elif isinstance(bn, int) and isinstance(an, frozenset) and bn in an:
                res = False
            if res is None:
                return TOP
            if op == "!=":
                res = not res
            return (1 if res else 0, None)
        if isinstance(an, int) and isinstance(bn, int):
            if op == "<": return (int(an < bn), None)
            if op == ">": return (int(an > bn), None)
            if op == "<=": return (int(an <= bn), None)
            if op == ">=": return (int(an >= bn), None)
            if op == "&": return (an & bn, None)
            if op == "|": return (an | bn, None)
        cc = const_of(n)
        if cc is not None:
            return (cc, None)
        if op in ("+", "-"):
            # OBJPTR / OBJID: the tag bit is added to or removed from a pointer
            if isinstance(bn, int) and abs(bn) <= 1 and an is not None:
                ln = fn.nodes[l]
                if ln["k"] == "cast" and ln.get("ck") == "PointerToIntegral":
                    d = bn if op == "+" else -bn
                    return (an + d if isinstance(an, int) else frozenset(x + d for x in an), a[1])
            # pointer arithmetic keeps provenance
            tag = a[1] if a[1] is not None else (b[1] if op == "+" else None)
            if type(tag) is tuple and tag and tag[0] == "&" and not tag[1].endswith("[]"):
                tag = None
            elif type(tag) is tuple and tag and tag[0] == "&":
                tag = ("&", tag[1][:-2] + "[?]") if not (bn == 0) else tag
            return (None, tag)
        if op == "&" and (an == 0 or bn == 0):
            return (0, None)
        return TOP

    keep_bool = False

    # ------------------------------------------------------------------ calls
    def out_effects(self, st, fn, nid, key, args, n):
        """variables whose address the callee receives may change"""
        d = self.P.decls.get(key)
        ptn = d["ptn"] if d else None
        f = self.P.fns.get(key)
        if f is not None:
            ptn = [f.vars[p]["tn"] for p in f.params]
        for i, a in enumerate(args):
            tag = a[1]
            if type(tag) is tuple and tag and tag[0] == "&":
                if ptn is not None and i < len(ptn) and ptn[i].startswith("const "):
                    continue
                p = tag[1]
                if p.endswith("[]") or p.endswith("[?]"):
                    p = p[:p.rfind("[")]
                self.havoc(st, fn, nid, p, self.mod.get(key) if f is not None else None)

    def havoc(self, st, fn, nid, path, mods=None):
        if mods is None:
            self.kill_prefix(st.env, path)
            return
        # the callee is known: only the fields it (transitively) writes change
        env = st.env
        l = len(path)
        dead = []
        for k in env:
            if k == path:
                dead.append(k)
            elif k.startswith(path) and k[l] in ".[-":
                if k[l] != ".":
                    dead.append(k)
                    continue
                for c in _resplit(k[l:]):
                    if c in mods:
                        dead.append(k)
                        break
        for k in dead:
            del env[k]

    def eval_call(self, st, fn, nid, n):
        key = n.get("fn")
        args = [self.val(st, fn, c) for c in n["c"][1:]]
        self.stats["calls"] += 1
        if key is None:
            cal = self.val(st, fn, n["c"][0])
            res = self.call_hook(st, fn, nid, None, args)
            if res is None:
                res = self.indirect_call(st, fn, nid, cal, args)
        else:
            res = self.call_hook(st, fn, nid, key, args)
            if res is None:
                res = self.default_call(st, fn, nid, key, args)
        out = []
        split = len(res) > 1
        for s, v in res:
            s.temps[nid] = v
            if split:
                s.trace = ("%d:%s=%s%s" % (n.get("l", 0), (key or "(*)").split(":")[-1], _show(v[0]),
                                           "!" if s.env.get(EXC) == PENDING else ""), s.trace)
            out.append(s)
        return out

    def default_call(self, st, fn, nid, key, args):
        if key in self.P.noreturn:
            return []
        n = fn.nodes[nid]
        callee = self.P.fns.get(key)
        base = self.builtin(st, fn, nid, key, args)
        if base is not None:
            return base
        if callee is None:
            self.out_effects(st, fn, nid, key, args, n)
            return self.extern_call(st, fn, nid, key, args)
        outs = self.outcomes(callee, st, args)
        res = []
        for o in outs:
            s = st.copy()
            if self.apply_outcome(s, fn, nid, key, o, args, callee) is False:
                continue
            v = self.result_value(s, fn, nid, key, o, args)
            if v is None:
                continue
            res.append((s, v))
        return res

    def builtin(self, st, fn, nid, key, args):
        """rooting API: direct effect on the named local"""
        if key == "KOS_init_local_with" and len(args) >= 3:
            tag = args[1][1]
            if type(tag) is tuple and tag and tag[0] == "&":
                self.assign(st, fn, nid, ("L", tag[1] + ".o", None), args[2], {}, None)
            return [(st, TOP)]
        if key == "KOS_init_locals":
            for a in args[1:]:
                tag = a[1]
                if type(tag) is tuple and tag and tag[0] == "&":
                    self.kill_prefix(st.env, tag[1])
                    st.env[tag[1] + ".o"] = (BAD, None)
            return [(st, TOP)]
        if key == "KOS_destroy_top_local":
            tag = args[1][1]
            v = TOP
            if type(tag) is tuple and tag and tag[0] == "&":
                v = st.env.get(tag[1] + ".o", TOP)
            return [(st, v)]
        if key == "KOS_destroy_top_locals":
            tag = args[2][1]
            v = TOP
            if type(tag) is tuple and tag and tag[0] == "&":
                v = st.env.get(tag[1] + ".o", TOP)
            return [(st, v)]
        if key == "KOS_init_ulocal":
            tag = args[1][1]
            if type(tag) is tuple and tag and tag[0] == "&":
                self.kill_prefix(st.env, tag[1])
                st.env[tag[1] + ".o"] = (BAD, None)
            return [(st, TOP)]
        if key == "KOS_destroy_ulocal":
            return [(st, TOP)]
        return None

    def apply_outcome(self, s, fn, nid, key, o, args, callee):
        keep = {}
        for i, v in o.out:
            if v[1] == "@init" and i < len(args):
                tag = args[i][1]
                if type(tag) is tuple and tag and tag[0] == "&" and tag[1] in s.env:
                    keep[tag[1]] = s.env[tag[1]]
        self.kill_memory(s.env, self.mod.get(key))
        self.out_effects(s, fn, nid, key, args, fn.nodes[nid])
        if o.exc is not None:
            s.env[EXC] = o.exc
        s.prop = self.prop_back(s, o.prop, key, fn, nid, args)
        if s.prop is IMPOSSIBLE:
            return False
        for i, v in o.out:
            if i < len(args):
                tag = args[i][1]
                if type(tag) is tuple and tag and tag[0] == "&" and not tag[1].endswith("[]"):
                    if tag[1] == EXC:
                        continue            # the collector redirects the reference, which keeps the state
                    if v[1] == "@init":
                        if tag[1] in keep:
                            old = keep[tag[1]]
                            if not compatible(old[0], v[0]):
                                return False
                            s.env[tag[1]] = old if old[0] is not None or v[0] is None else (v[0], old[1])
                        elif v[0] is not None:
                            s.env[tag[1]] = (v[0], None)
                    else:
                        s.env[tag[1]] = self.out_value(s, fn, nid, key, i, v)

    def out_value(self, st, fn, nid, key, i, v):
        return v

    def entry_key(self, callee, st, args):
        exc = st.env.get(EXC, CLEAR) if callee.key in self.touches_exc else None
        return (exc, self.prop_view(callee, st.prop, callee.key), self.arg_view(callee, args))

    def arg_view(self, callee, args):
        """constant / null-ness knowledge about arguments the callee branches on or dereferences"""
        sv = self.status_vars(callee)
        dv = self.deref_params(callee)
        r = []
        for i, p in enumerate(callee.params):
            if i < len(args) and args[i][0] is not None and (str(p) in sv or args[i][0] == 0 and p in dv):
                num = args[i][0]
                if isinstance(num, frozenset):
                    num = num & NOTABLE
                    if not num:
                        continue
                elif abs(num) > 64 and callee.vars[p]["ctn"].endswith("*"):
                    continue
                r.append((i, (num, None)))
        return tuple(r)

    def deref_params(self, fn):
        s = fn.cache.get("derefs")
        if s is None:
            s = set()
            for n in fn.nodes:
                if (n["k"] == "mem" and n.get("a")) or (n["k"] == "un" and n["op"] == "*") or n["k"] in ("sub", "atomic"):
                    m = fn.nodes[n["c"][0]]
                    while m["k"] in ("load", "cast") and m.get("c"):
                        m = fn.nodes[m["c"][0]]
                    if m["k"] == "ref" and m.get("var") in fn.params:
                        s.add(m["var"])
            fn.cache["derefs"] = s
        return s

    def outcomes(self, callee, st, args):
        ek = self.entry_key(callee, st, args)
        k = (callee.key, ek)
        if self._stack:
            self._deps.setdefault(k, set()).add(self._stack[-1])
        s = self.summaries.get(k)
        if s is None:
            s = self.analyse(callee, ek)
        return s

    # ------------------------------------------------------------------ function level
    def analyse(self, fn, ek):
        """memoised; recursion yields the outcomes known so far and is iterated to a fixpoint"""
        k = (fn.key, ek)
        if k in self.summaries:
            return self.summaries[k]
        self.summaries[k] = frozenset()
        self._stack = self._stack + [k] if self._stack else [k]
        self._inprog.add(k)
        rounds = 0
        while True:
            rounds += 1
            new = frozenset(self.run_function(fn, ek))
            if new == self.summaries[k]:
                break
            rec = self.is_recursive(fn.key)
            self.improve(k, new)
            if not rec or rounds > 12:
                break
        self._stack.pop()
        self._inprog.discard(k)
        self._finished.append(k)
        return self.summaries[k]

    def improve(self, k, new):
        """more outcomes of k are known: whatever was computed from fewer has to be computed again"""
        self.summaries[k] = self.summaries[k] | new
        self._dirty |= self._deps.get(k, set())

    def settle(self):
        """recomputes summaries which relied on summaries that were still incomplete, until nothing changes"""
        times = {}
        order = {k: i for i, k in enumerate(self._finished)}
        while self._dirty:
            k = min(self._dirty, key=lambda k: (times.get(k, 0), order.get(k, 0), repr(k)))
            self._dirty.discard(k)
            times[k] = times.get(k, 0) + 1
            if times[k] > 8:
                continue
            self._stack = [k]
            new = frozenset(self.run_function(self.P.fns[k[0]], k[1]))
            self._stack = []
            if not new <= self.summaries[k]:
                self.improve(k, new)
        self.resettled = sum(times.values())

    def is_recursive(self, key):
        if not hasattr(self, "_rec"):
            self._rec = set()
            for comp in self.P.sccs(lambda f: [c for _, c in f.calls if c]):
                if len(comp) > 1:
                    self._rec |= set(comp)
                else:
                    f = self.P.fns[comp[0]]
                    if any(c == comp[0] for _, c in f.calls):
                        self._rec.add(comp[0])
        return key in self._rec

    def init_state(self, fn, ek):
        exc, prop, av = ek
        env = {}
        env[EXC] = exc if exc is not None else CLEAR
        for i, p in enumerate(fn.params):
            v = self.param_value(fn, i, p)
            if v != TOP:
                env[str(p)] = v
            if self.cell_param(fn, p):
                env["%d->*" % p] = INIT
        for i, v in av:
            env[str(fn.params[i])] = v
        return State(env, {}, prop)

    def run_function(self, fn, ek):
        """returns the set of outcomes of fn from the given entry"""
        self.stats["functions"] += 1
        outs = set()
        st0 = self.init_state(fn, ek)
        self.begin(fn, st0)
        seen = {}
        groups = {}
        heap = []
        cnt = 0

        def push(b, st):
            nonlocal cnt
            env = st.env
            live = fn.live[b]
            # prune dead locals
            for p in [p for p in env if p[0] != "@" and int(_base(p)) not in live and not self.keep_path(fn, p)]:
                del env[p]
            lt = fn.livet.get(b, ())
            temps = {t: v for t, v in st.temps.items() if (t in lt if not isinstance(t, tuple) else True)}
            st.temps = temps
            if not self.state_ok(st):
                return
            key = (frozenset(env.items()), frozenset(temps.items()), st.prop)
            ss = seen.setdefault(b, set())
            if key in ss:
                return
            sv = self.status_vars(fn)
            gk = (b, st.prop, env.get(EXC), self.extra_key(env), frozenset((p, v[0]) for p, v in env.items() if p in sv and v[0] is not None),
                  frozenset(temps.items()))
            if gk not in groups and len(groups) > self.GROUPCAP or cnt > self.CNTCAP:
                gk = (b, st.prop, env.get(EXC), self.extra_key(env))
            g = groups.get(gk)
            if g is None:
                g = groups[gk] = [0, None]
            g[0] += 1
            if g[0] > self.CAP or cnt > 3000 and g[0] > 6:
                self.stats["joins"] += 1
                j = g[1]
                if j is None:
                    j = dict(env)
                else:
                    j2 = {}
                    for p, v in j.items():
                        w = env.get(p)
                        if w is None:
                            continue
                        if w == v:
                            j2[p] = v
                            continue
                        m = (join_num(v[0], w[0]), self.join_tag(v[1], w[1]))
                        if m[0] == BAD and "unset" in (v[1], w[1]):
                            m = (BAD, "unset")
                        if m != TOP:
                            j2[p] = m
                    if j2 == j:
                        # temps still matter for control: they are dropped when joining
                        return
                    j = j2
                g[1] = j
                st = State(dict(j), temps if len(gk) > 4 else {}, st.prop, st.trace)
                key = (frozenset(j.items()), frozenset(st.temps.items()), st.prop)
                self.joined[fn.key] = self.joined.get(fn.key, 0) + 1
                if key in ss:
                    return
            ss.add(key)
            cnt += 1
            heappush(heap, (fn.rpoidx[b], cnt, b, st))

        sv = self.status_vars(fn)
        split = [str(p) for p in fn.params if str(p) in sv and self.cell_param(fn, p)
                 and st0.env.get(str(p), TOP)[0] is None][:3]
        starts = [st0]
        for p in split:
            nxt = []
            for s in starts:
                for num in (0, frozenset((0,))):
                    s2 = s.copy()
                    s2.env[p] = (num, s.env.get(p, TOP)[1])
                    nxt.append(s2)
            starts = nxt
        for s in starts:
            push(fn.entry, s)
        n_states = 0
        while heap:
            _, _, b, st = heappop(heap)
            n_states += 1
            if b == fn.exit:
                self.on_return(st, fn, None, TOP)
                o = self.outcome(fn, st, TOP, None)
                if o is not None:
                    outs.add(o)
                continue
            bl = fn.blocks[b]
            cur = [st]
            for e in bl["e"]:
                nk = fn.nodes[e]["k"]
                if nk == "ret":
                    for s in cur:
                        c = fn.nodes[e].get("c")
                        v = self.val(s, fn, c[0]) if c else (None, None)
                        if c and v[0] is None:
                            cc = const_of(fn.nodes[c[0]])
                            if cc is not None:
                                v = (cc, v[1])
                        self.on_return(s, fn, e, v)
                        o = self.outcome(fn, s, v, e)
                        if o is not None:
                            outs.add(o)
                    cur = []
                    break
                nxt = []
                for s in cur:
                    nxt.extend(self.eval(s, fn, e))
                if len(nxt) > 1:
                    nxt = self.dedupe(nxt)
                cur = nxt
                if not cur:
                    break
            if not cur or bl.get("nr"):
                continue
            succs = bl["s"]
            if not succs:
                continue
            if fn.exit in succs and len(succs) == 1:
                # falling off the end of a void function
                for s in cur:
                    self.on_return(s, fn, None, TOP)
                    o = self.outcome(fn, s, TOP, None)
                    if o is not None:
                        outs.add(o)
                continue
            tk = bl.get("tk")
            if len(succs) == 1 or tk in ("GotoStmt", "BreakStmt", "ContinueStmt"):
                for x in succs:
                    if x >= 0:
                        for s in cur:
                            push(x, s)
                continue
            cond = bl.get("lc", bl.get("tc"))
            if tk == "SwitchStmt":
                self.do_switch(fn, bl, cur, bl.get("tc", cond), push)
                continue
            t, f = succs[0], succs[1] if len(succs) > 1 else -1
            for s in cur:
                for want, dst in ((True, t), (False, f)):
                    if dst < 0:
                        continue
                    v = self.val(s, fn, cond) if cond is not None else TOP
                    tv = truth(v[0])
                    if tv is not None and tv != want:
                        continue
                    s2 = s.copy()
                    if tk == "ConditionalOperator":
                        pn = self.cond_node(fn, b, cond)
                        if pn is not None:
                            s2.temps[("c", pn)] = want
                    if bl.get("top") in ("&&", "||") and "tn" in bl and bl["tn"] in fn.elemblk:
                        if bl["top"] == "&&" and not want:
                            s2.temps[("sc", bl["tn"])] = 0
                        elif bl["top"] == "||" and want:
                            s2.temps[("sc", bl["tn"])] = 1
                    if cond is not None and not self.refine(s2, fn, cond, want):
                        continue
                    if tk in ("ForStmt", "WhileStmt"):
                        if want:
                            self.enter_loop(s2, fn, b)
                        else:
                            self.leave_loop(s2, fn, b)
                    s2.trace = ("%d%s" % (bl.get("tl", 0), "T" if want else "F"), s2.trace)
                    push(dst, s2)
        self.stats["states"] += n_states
        return self.limit_outcomes(fn, outs)

    def extra_key(self, env):
        return env.get(AWARE)

    def enter_loop(self, st, fn, b):
        pass

    def leave_loop(self, st, fn, b):
        """a result that only the loop would have produced is not judged when the loop did not run"""
        c = fn.cache.setdefault("loopassign", {})
        vs = c.get(b)
        if vs is None:
            body, todo = set(), []
            preds = fn.cache.get("preds")
            if preds is None:
                preds = fn.cache["preds"] = {}
                for x in fn.rpo:
                    for y in fn.blocks[x]["s"]:
                        preds.setdefault(y, []).append(x)
            for p in preds.get(b, ()):
                if fn.rpoidx[p] > fn.rpoidx[b] and p not in body:
                    body.add(p)
                    todo.append(p)
            while todo:
                x = todo.pop()
                for p in preds.get(x, ()):
                    if p != b and p not in body and fn.rpoidx.get(p, -1) > fn.rpoidx[b]:
                        body.add(p)
                        todo.append(p)
            vs = set()
            for x in body:
                for e in fn.blocks[x]["e"]:
                    n = fn.nodes[e]
                    if n["k"] == "asg":
                        m = fn.nodes[n["c"][0]]
                        while m["k"] == "mem" and not m.get("a"):
                            m = fn.nodes[m["c"][0]]
                        if m["k"] == "ref" and "var" in m:
                            vs.add(str(m["var"]))
            c[b] = vs
        for p, v in list(st.env.items()):
            if v == (BAD, None) and _base(p) in vs:
                st.env[p] = (BAD, "unset")

    def begin(self, fn, st):
        pass

    def status_vars(self, fn):
        """locals (and .o of rooted locals) that some branch tests: their value is kept apart when states are joined"""
        s = fn.cache.get("status")
        if s is None:
            s = set()
            for b in fn.rpo:
                bl = fn.blocks[b]
                c = bl.get("lc", bl.get("tc"))
                if c is None or len(bl["s"]) < 2:
                    continue
                todo = [c]
                depth = 0
                while todo and depth < 20:
                    depth += 1
                    x = todo.pop()
                    if x < 0:
                        continue
                    n = fn.nodes[x]
                    if n["k"] == "ref" and "var" in n:
                        s.add(str(n["var"]))
                    elif n["k"] == "mem" and not n.get("a") and fn.nodes[n["c"][0]]["k"] == "ref" and "var" in fn.nodes[n["c"][0]]:
                        s.add("%d.%s" % (fn.nodes[n["c"][0]]["var"], n["f"]))
                    elif n["k"] in ("load", "cast", "un", "asg"):
                        todo.append(n["c"][0])
                    elif n["k"] == "bin" and n["op"] in ("==", "!="):
                        for q, r in (n["c"], n["c"][::-1]):
                            if const_of(fn.nodes[r]) is not None:
                                todo.append(q)
                    elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                        todo.append(n["c"][1])
            fn.cache["status"] = s
        return s

    def keep_path(self, fn, p):
        if "->*" in p:
            return int(_base(p)) in fn.params
        return False

    def join_tag(self, a, b):
        return a if a == b else None

    def dedupe(self, sts):
        seen = set()
        out = []
        for s in sts:
            k = (frozenset(s.env.items()), frozenset(s.temps.items()), s.prop)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def cond_node(self, fn, b, cond):
        c = fn.cache.get("condmap")
        if c is None:
            c = {}
            for i, n in enumerate(fn.nodes):
                if n["k"] == "cond":
                    c.setdefault(n["c"][0], i)
                    # the condition may be && / ||: last operand decides
                    x = n["c"][0]
                    while fn.nodes[x]["k"] == "bin" and fn.nodes[x]["op"] in ("&&", "||"):
                        x = fn.nodes[x]["c"][1]
                        c.setdefault(x, i)
            fn.cache["condmap"] = c
        bl = fn.blocks[b]
        return c.get(bl.get("tc"), c.get(cond))

    def do_switch(self, fn, bl, cur, cond, push):
        labs = []
        for x in bl["s"]:
            if x < 0:
                continue
            lab = fn.blocks[x].get("lab")
            labs.append((x, lab))
        cases = set()
        for x, lab in labs:
            if lab and lab["k"] == "case" and "lo" in lab:
                for q in range(lab["lo"], lab.get("hi", lab["lo"]) + 1):
                    cases.add(q)
                    if len(cases) > 4096:
                        break
        for s in cur:
            v = self.val(s, fn, cond)
            for x, lab in labs:
                if lab and lab["k"] == "case" and "lo" in lab:
                    lo, hi = lab["lo"], lab.get("hi", lab["lo"])
                    if isinstance(v[0], int) and not (lo <= v[0] <= hi):
                        continue
                    if lo == hi and isinstance(v[0], frozenset) and lo in v[0]:
                        continue
                    s2 = s.copy()
                    if lo == hi:
                        if not self.refine_eq(s2, fn, cond, lo, True):
                            continue
                    push(x, s2)
                else:
                    if isinstance(v[0], int) and v[0] in cases:
                        continue
                    s2 = s.copy()
                    ok = True
                    if len(cases) <= 40:
                        for c in cases:
                            if not self.refine_eq(s2, fn, cond, c, False):
                                ok = False
                                break
                    if ok:
                        push(x, s2)

    # ------------------------------------------------------------------ refinement
    def refine(self, st, fn, nid, want):
        """assume the node's value is (non)zero; False if impossible"""
        n = fn.nodes[nid]
        k = n["k"]
        if not self.refine_hook(st, fn, nid, want):
            return False
        if k == "un" and n["op"] == "!":
            return self.refine(st, fn, n["c"][0], not want)
        if k == "cast":
            return self.refine(st, fn, n["c"][0], want)
        if k == "bin" and n["op"] in ("==", "!="):
            l, r = n["c"]
            eq = (n["op"] == "==") == want
            if not eq:
                a, b = self.plain_var(fn, l), self.plain_var(fn, r)
                if a is not None and b is not None and ("@ge:%s:%s" % (a, b) in st.env or "@ge:%s:%s" % (b, a) in st.env):
                    return False      # a counter that left its loop equals the bound
            lv, rv = self.val(st, fn, l), self.val(st, fn, r)
            if isinstance(rv[0], int):
                return self.refine_eq(st, fn, l, rv[0], eq)
            if isinstance(lv[0], int):
                return self.refine_eq(st, fn, r, lv[0], eq)
            return True
        if k == "bin" and n["op"] in ("&&", "||"):
            # value decided by the right operand when not short-circuited
            v = self.val(st, fn, nid)
            if isinstance(v[0], int):
                return (v[0] != 0) == want
            return self.refine(st, fn, n["c"][1], want)
        if k == "bin" and n["op"] in ("<", ">", "<=", ">="):
            return self.refine_cmp(st, fn, nid, want)
        if k == "bin" and n["op"] == ",":
            return self.refine(st, fn, n["c"][1], want)
        return self.refine_eq(st, fn, nid, 0, not want)

    @staticmethod
    def plain_var(fn, x):
        n = fn.nodes[x]
        while n["k"] in ("load", "cast"):
            n = fn.nodes[n["c"][0]]
        return str(n["var"]) if n["k"] == "ref" and "var" in n else None

    def refine_cmp(self, st, fn, nid, want):
        n = fn.nodes[nid]
        l, r = n["c"]
        op = n["op"]
        if op == "<" and not want:
            a, b = self.plain_var(fn, l), self.plain_var(fn, r)
            if a is not None and b is not None:
                st.env["@ge:%s:%s" % (a, b)] = (1, None)
        rv = self.val(st, fn, r)
        lv = self.val(st, fn, l)
        # x < 0 true, x > 0 true: nonzero.
        if isinstance(rv[0], int):
            c = rv[0]
            strict = {"<": want, ">": want, "<=": not want, ">=": not want}[op]
            if strict:
                return self.refine_eq(st, fn, l, c, False)
        elif isinstance(lv[0], int):
            c = lv[0]
            strict = {"<": want, ">": want, "<=": not want, ">=": not want}[op]
            if strict:
                return self.refine_eq(st, fn, r, c, False)
        return True

    def refine_eq(self, st, fn, nid, c, eq):
        n = fn.nodes[nid]
        k = n["k"]
        v = self.val(st, fn, nid)
        num = v[0]
        if isinstance(num, int):
            return (num == c) == eq
        if isinstance(num, frozenset) and c in num:
            if eq:
                return False
            return self.refine_eq_inner(st, fn, nid, c, eq, v)
        return self.refine_eq_inner(st, fn, nid, c, eq, v)

    def refine_eq_inner(self, st, fn, nid, c, eq, v):
        n = fn.nodes[nid]
        k = n["k"]
        num = v[0]
        if eq:
            new = c
        else:
            new = (num | {c}) if isinstance(num, frozenset) else frozenset((c,))
            if len(new) > 16:
                new = num
        st.temps[nid] = (new, v[1])
        if type(v[1]) is tuple and v[1] and v[1][0] == "cell":
            old = st.env.get(v[1][1])
            if old is not None and old[1] == "@init":
                st.env[v[1][1]] = (new, "@init")
        if k == "load":
            lv = st.temps.get(n["c"][0])
            if lv is not None and lv[0] == "L" and lv[1] is not None:
                p = lv[1]
                old = st.env.get(p, TOP)
                st.env[p] = (new, old[1])
                if p == EXC:
                    st.env[p] = CLEAR if new == 1 else (PENDING if isinstance(new, frozenset) and 1 in new else old)
            return True
        if k == "asg":
            lv = st.temps.get(n["c"][0])
            if lv is not None and lv[0] == "L" and lv[1] is not None:
                p = lv[1]
                old = st.env.get(p, TOP)
                st.env[p] = (new, old[1])
            return True
        if k == "cast":
            ck = n.get("ck")
            if ck in ("IntegralToPointer", "PointerToIntegral", "BitCast", "IntegralCast", "NoOp", "NullToPointer"):
                return self.refine_eq(st, fn, n["c"][0], c, eq)
            if ck in ("IntegralToBoolean", "PointerToBoolean"):
                if c == 0:
                    return self.refine_eq(st, fn, n["c"][0], 0, eq)
                return self.refine_eq(st, fn, n["c"][0], 0, not eq)
            return True
        if k == "un" and n["op"] == "!":
            if c in (0, 1):
                return self.refine(st, fn, n["c"][0], (c == 0) == eq)
            return True
        if k == "bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            if c in (0, 1):
                return self.refine(st, fn, nid, (c == 1) == eq)
            return True
        return True

    # ------------------------------------------------------------------ outcomes
    def outcome(self, fn, st, v, nid):
        exc = st.env.get(EXC, CLEAR) if fn.key in self.touches_exc else None
        num = v[0]
        if fn.ret == "void":
            num = None
        elif fn.ret in ("double", "float"):
            num = None
        return Outcome(num, self.ret_tag(fn, v[1]), exc, st.prop, self.out_params(fn, st))

    def out_params(self, fn, st):
        """what is known about *p for pointer parameters p at exit"""
        r = []
        for i, p in enumerate(fn.params):
            v = st.env.get("%d->*" % p)
            if v is None:
                continue
            num = v[0]
            if isinstance(num, frozenset):
                num = (num & {0, 1}) or None
            if num is not None or v[1] == "@init":
                r.append((i, (num, v[1] if v[1] == "@init" else None)))
        return tuple(r)

    def limit_outcomes(self, fn, outs):
        groups = {}
        for o in outs:
            groups.setdefault((o.tag, o.exc, o.prop, o.out), []).append(o.num)
        res = set()
        for (tag, exc, prop, out), nums in groups.items():
            ns = set(nums)
            if None in ns:
                ns = {None}
            if len(ns) > 8:
                keep = {x for x in ns if x in (0, 1)}
                rest = [x for x in ns if x not in keep]
                if 0 in keep or all(truth(x) for x in rest):
                    j = rest[0]
                    for x in rest[1:]:
                        j = join_num(j, x)
                    ns = keep | {j}
                    if None in ns:
                        ns = {None}
                else:
                    ns = {None}
            for x in ns:
                res.add(Outcome(x, tag, exc, prop, out))
        return res


def const_of(n):
    v = n.get("v")
    if v:
        return v.get("i")
    return None


_resplit = __import__("re").compile(r"->|\.|\[[^\]]*\]").split


def _show(num):
    if num is None:
        return "?"
    if isinstance(num, int):
        return str(num)
    return "ne" + ",".join(str(x) for x in sorted(num))


def _base(p):
    i = 0
    while i < len(p) and (p[i].isdigit()):
        i += 1
    return p[:i]
