"""Numbers which a program supplies do not reach an operation whose result is undefined or which traps:
division of integers, shifts by a 64-bit count, conversion of floating-point numbers to integers.

For every path the interval of each number is kept, as established by the comparisons on that path; helpers are
followed with the intervals of their arguments, and what they find out about an argument holds for their caller."""
import math, os
from lite import *
import ir

INF = math.inf
MIN64, MAX64 = -(1 << 63), (1 << 63) - 1
INTS = {"signed char": (8, 1), "char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0),
        "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "_Bool": (1, 0), "bool": (1, 0),
        "int8_t": (8, 1), "uint8_t": (8, 0), "int16_t": (16, 1), "uint16_t": (16, 0), "int32_t": (32, 1), "uint32_t": (32, 0), "int64_t": (64, 1),
        "uint64_t": (64, 0), "size_t": (64, 0), "ssize_t": (64, 1), "ptrdiff_t": (64, 1), "intptr_t": (64, 1), "uintptr_t": (64, 0), "unsigned": (32, 0), "off_t": (64, 1)}
# the only writes to these fields, in alloc_buffer, store the capacity requested, which its caller makes at least 1
AT_LEAST_ONE = {("KOS_ARRAY_STORAGE_S", "capacity")}
ROUND = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round, "rint": round, "nearbyint": round}


def fdown(x):
    return math.nextafter(x, -INF)


def fup(x):
    return math.nextafter(x, INF)


class Num(Lite):
    name = "numeric"
    RULES = {"division", "shift", "conversion", "narrowing"}
    CAP = 24
    GROUPCAP = 20000

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        # functions which hand on the address they were given to KOS_get_integer
        self.int_readers = {"KOS_get_integer"}
        more = True
        while more:
            more = False
            for k, f in P.fns.items():
                if k not in self.int_readers and any(c in self.int_readers for _, c in f.calls):
                    ps = {p for p in f.params if f.vars[p]["ctn"].replace("int64_t", "long").strip() in ("long *", "long long *")}
                    if ps and any(n["k"] == "call" and n.get("fn") in self.int_readers and any(self.is_var(f, x, ps) for x in n["c"][1:]) for n in f.nodes):
                        self.int_readers.add(k)
                        more = True
        self.own = {}
        for k, f in P.fns.items():
            s = [i for i, n in enumerate(f.nodes) if self.site_kind(f, i)]
            if s:
                self.own[k] = s
        rel = set(self.own)
        # operations inside a local helper rely on what its callers checked
        todo = [k for k in rel]
        while todo:
            k = todo.pop()
            f = P.fns[k]
            if not f.static or k in P.addr_taken or not self.num_params(f):
                continue
            for c in P.callers.get(k, ()):
                c = c if isinstance(c, str) else c[0]
                if c in P.fns and c not in rel:
                    rel.add(c)
                    todo.append(c)
        # local predicates
        for k in list(rel):
            for _, c in P.fns[k].calls:
                f = P.fns.get(c)
                if f is not None and f.static and c not in rel and self.num_params(f) and len(f.blocks) < 30:
                    rel.add(c)
        self.relevant = rel
        self.seen = {}

    @staticmethod
    def is_var(f, x, ps):
        while x >= 0 and f.nodes[x]["k"] in ("cast", "paren", "load"):
            x = f.nodes[x]["c"][0]
        return x >= 0 and f.nodes[x]["k"] == "ref" and f.nodes[x].get("var") in ps

    def num_params(self, f):
        return [i for i, p in enumerate(f.params) if self.ty(f.vars[p]["ctn"]) is not None]

    def is_root(self, fn):
        return not fn.static or fn.key in self.P.addr_taken or not self.P.callers.get(fn.key) or fn.key in self.own and not self.num_params(fn)

    # ------------------------------------------------------------------ types and sites
    def ty(self, t):
        t = t.replace("const ", "").replace("volatile ", "").strip()
        if t in ("double", "float"):
            return "f"
        return INTS.get(t)

    def nty(self, fn, nid):
        n = fn.nodes[nid]
        if "st" not in n:
            return None
        return self.ty(fn.types[n["st"]])

    def site_kind(self, fn, nid):
        n = fn.nodes[nid]
        k = n["k"]
        if k == "bin" and n["op"] in ("/", "%", "<<", ">>") or k == "casg" and n["op"] in ("/=", "%=", "<<=", ">>="):
            t = self.nty(fn, nid)
            if t is None or t == "f":
                return None
            r = n["c"][1]
            if "i" in (fn.nodes[r].get("v") or {}) and not (n["op"][0] in "/%" and fn.nodes[r]["v"]["i"] == 0):
                return None
            if n["op"][0] in "/%":
                return "division"
            # counts which are 64 bits wide are numbers from the program
            return "shift" if self.nty(fn, r) == (64, 1) else None
        if k == "cast" and n.get("ck") == "IntegralCast":
            a, b = self.nty(fn, n["c"][0]), self.nty(fn, nid)
            if a and b and a[0] == 64 and 1 < b[0] < 64 and "v" not in n:
                m = fn.nodes[n["c"][0]]
                if m["k"] == "load":
                    p = self.spath(fn, m["c"][0])
                    if p is not None and (p in self.received(fn) or p.endswith(".u.i")):
                        return "narrowing"
        if k == "cast" and self.nty(fn, n["c"][0]) == "f" and self.nty(fn, nid) not in (None, "f"):
            if "v" in fn.nodes[n["c"][0]]:
                return None
            return "conversion"
        return None

    def received(self, fn):
        """the variables through which a conversion of an object to an integer returns its result"""
        c = fn.cache.get("numreceived")
        if c is None:
            c = set()
            for n in fn.nodes:
                if n["k"] == "call" and n.get("fn") in self.int_readers:
                    for x in n["c"][1:]:
                        while x >= 0 and fn.nodes[x]["k"] in ("cast", "paren"):
                            x = fn.nodes[x]["c"][0]
                        if x >= 0 and fn.nodes[x]["k"] == "un" and fn.nodes[x]["op"] == "&":
                            v = self.spath(fn, fn.nodes[x]["c"][0])
                            if v is not None:
                                c.add(v)
            fn.cache["numreceived"] = c
        return c

    # ------------------------------------------------------------------ intervals: (lo, hi, may be NaN, excluded integers)
    def full(self, t):
        if t == "f":
            return (-INF, INF, True, frozenset())
        if t is None:
            return None
        b, s = t
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1, False, frozenset()) if s else (0, (1 << b) - 1, False, frozenset())

    def key(self, st, fn, nid):
        """the place the value of an expression was just read from"""
        n = fn.nodes[nid]
        while n["k"] == "cast" and self.keeps(fn, nid) or n["k"] == "paren":
            nid = n["c"][0]
            n = fn.nodes[nid]
        if n["k"] == "asg":
            return self.key_lv(st, fn, n["c"][0])
        if n["k"] != "load":
            return None
        return self.key_lv(st, fn, n["c"][0])

    def spath(self, fn, c):
        m = fn.nodes[c]
        if m["k"] == "ref" and "var" in m:
            return str(m["var"])
        if m["k"] == "mem" and not m.get("a"):
            b = self.spath(fn, m["c"][0])
            return None if b is None else b + "." + m["f"]
        return self.spath(fn, m["c"][0]) if m["k"] == "paren" else None

    def key_lv(self, st, fn, c):
        s = self.spath(fn, c)
        if s is not None:
            return "@i:p:" + s
        lv = st.temps.get(c)
        if lv is not None and lv[0] == "L" and lv[1] is not None and "?" not in lv[1]:
            return "@i:p:" + lv[1]
        m = fn.nodes[c]
        if m["k"] == "ref" and "var" in m:
            return "@i:p:%d" % m["var"]
        if m["k"] in ("mem", "un", "sub"):
            return "@i:e:" + ir.expr_str(fn, c)
        return None

    def keeps(self, fn, nid):
        a, b = self.nty(fn, fn.nodes[nid]["c"][0]), self.nty(fn, nid)
        if a == b:
            return True
        if a is None or b is None or a == "f" or b == "f":
            return a == "f" and b == "f"
        return b[0] > a[0] and (b[1] or not a[1])

    def iv(self, st, fn, nid):
        n = fn.nodes[nid]
        t = self.nty(fn, nid)
        if t is None:
            return None
        v = n.get("v") or {}
        if "i" in v:
            x = v["i"]
            if t != "f" and not t[1] and x < 0:
                x += 1 << t[0]
            return (float(x), float(x), False, frozenset()) if t == "f" else (x, x, False, frozenset())
        if n["k"] == "atomic" and "load" in n["op"]:
            m = fn.nodes[n["c"][0]]
            while m["k"] in ("cast", "paren") or m["k"] == "un" and m["op"] == "&":
                m = fn.nodes[m["c"][0]]
            if m["k"] == "mem" and (m["r"], m["f"]) in AT_LEAST_ONE:
                return (1, self.full(t)[1], False, frozenset())
        if "f" in v:
            try:
                x = float(v["f"])
            except ValueError:
                return self.full(t)
            return (x, x, x != x, frozenset())
        k = n["k"]
        f = st.env.get(self.key(st, fn, nid) or "")
        if f is not None and k in ("load", "asg", "cast"):
            return self.clip(f[1][1:], t)
        if k == "load":
            if fn.nodes[n["c"][0]]["k"] in ("cond",):
                return self.full(t)
            return self.full(t)
        if k == "paren":
            return self.iv(st, fn, n["c"][0])
        if k == "asg":
            return self.iv(st, fn, n["c"][1])
        if k == "cast":
            a = self.iv(st, fn, n["c"][0])
            if a is None:
                return self.full(t)
            s = self.nty(fn, n["c"][0])
            if t == "f":
                lo, hi, nan, _ = a
                return (float(lo) if abs(lo) != INF else lo, float(hi) if abs(hi) != INF else hi, nan, frozenset())
            w = self.full(t)
            if s == "f":
                lo = math.trunc(a[0]) if abs(a[0]) != INF else a[0]
                hi = math.trunc(a[1]) if abs(a[1]) != INF else a[1]
                return (lo, hi, False, frozenset()) if lo >= w[0] and hi <= w[1] and not a[2] else w
            if a[0] == a[1]:
                x = int(a[0]) & ((1 << t[0]) - 1)
                if t[1] and x >> (t[0] - 1):
                    x -= 1 << t[0]
                return (x, x, False, frozenset())
            return a if a[0] >= w[0] and a[1] <= w[1] else w
        if k == "un" and n["op"] in ("-", "+"):
            a = self.iv(st, fn, n["c"][0])
            if a is None:
                return self.full(t)
            if n["op"] == "+":
                return a
            r = (-a[1], -a[0], a[2], frozenset(-x for x in a[3]))
            return self.clip(r, t)
        if k == "bin" and n["op"] in ("+", "-", "*", "&"):
            a, b = self.iv(st, fn, n["c"][0]), self.iv(st, fn, n["c"][1])
            if a is None or b is None:
                return self.full(t)
            if n["op"] == "&":
                for x in (a, b):
                    if x[0] == x[1] and x[0] >= 0:
                        return (0, x[0], False, frozenset())
                return self.full(t)
            if t == "f" and (INF in (abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]))):
                return self.full(t)
            if n["op"] == "+":
                r = [a[0] + b[0], a[1] + b[1]]
            elif n["op"] == "-":
                r = [a[0] - b[1], a[1] - b[0]]
            else:
                r = sorted(x * y for x in a[:2] for y in b[:2])
            return self.clip((r[0], r[-1], a[2] or b[2], frozenset()), t)
        if k == "call" and n.get("fn") in ROUND and len(n["c"]) > 1:
            a = self.iv(st, fn, n["c"][1])
            if a is None:
                return self.full(t)
            g = ROUND[n["fn"]]
            return tuple(float(g(x)) if abs(x) != INF else x for x in a[:2]) + (a[2], frozenset())
        return self.full(t)

    def clip(self, a, t):
        w = self.full(t)
        if t == "f":
            return a
        if a[2] or a[0] < w[0] or a[1] > w[1]:
            return w
        return a

    # ------------------------------------------------------------------ facts
    def meet(self, st, fn, nid, lo=-INF, hi=INF, notnan=False, ne=None):
        """the value of this expression is known to be in the range"""
        t = self.nty(fn, nid)
        key = self.key(st, fn, nid)
        a = self.iv(st, fn, nid)
        if a is None:
            return True
        n0, n1 = max(a[0], lo), min(a[1], hi)
        ex = a[3] | ({ne} if ne is not None else set())
        while n0 in ex and t != "f":
            n0 += 1
        while n1 in ex and t != "f":
            n1 -= 1
        nan = a[2] and not notnan
        if n0 > n1 and not nan:
            return False
        # excluded values inside the range matter only if they are ones that operations look at
        ex = frozenset(x for x in ex if n0 < x < n1)
        if key is not None:
            if (n0, n1, nan, ex) != self.full(t):
                st.env[key] = (None, ("i", n0, n1, nan, ex))
        n = fn.nodes[nid]
        # floor(x) < c, (int)x ...: nothing more; x - y etc. not tracked
        return True

    def join_tag(self, a, b):
        if a == b:
            return a
        if type(a) is tuple and type(b) is tuple and a and b and a[0] == "i" and b[0] == "i":
            lo, hi = min(a[1], b[1]), max(a[2], b[2])
            ex = frozenset(x for x in a[4] | b[4] | {0, -1, MIN64} if self.out(x, a) and self.out(x, b) and lo < x < hi)
            return ("i", lo, hi, a[3] or b[3], ex)
        return None

    @staticmethod
    def out(x, a):
        return x < a[1] or x > a[2] or x in a[4]

    def from_table(self, fn, x):
        sub = False
        while x >= 0:
            m = fn.nodes[x]
            sub = sub or m["k"] in ("sub", "idx")
            if m["k"] == "ref":
                return sub and ("g" in m or "var" not in m)
            x = m["c"][0] if m.get("c") and m["k"] in ("load", "cast", "paren", "mem", "sub", "idx", "decay") else -1
        return False

    def refine_hook(self, st, fn, nid, want):
        n = fn.nodes[nid]
        if n["k"] == "un" and n["op"] == "!":
            return True
        if n["k"] == "bin" and n["op"] in ("&&", "||") and want == (n["op"] == "&&"):
            return self.refine(st, fn, n["c"][0], want)
        if n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            l, r = n["c"]
            tl, tr = self.nty(fn, l), self.nty(fn, r)
            if tl is None or tr is None:
                return True
            op = n["op"]
            if op in ("==", "!="):
                eq = (op == "==") == want
                for x, y in ((l, r), (r, l)):
                    b = self.iv(st, fn, y)
                    if b is None:
                        continue
                    if eq:
                        if not self.meet(st, fn, x, b[0], b[1], True):
                            return False
                    elif b[0] == b[1] and self.nty(fn, x) != "f":
                        if not self.meet(st, fn, x, ne=b[0]):
                            return False
                # x != x is true for NaN only
                if not eq and tl == "f" and self.key(st, fn, l) == self.key(st, fn, r) and self.key(st, fn, l):
                    pass
                elif eq and tl == "f":
                    pass
                return True
            flt = tl == "f" or tr == "f"
            if not want and flt:
                # not (x < c): x >= c or either is NaN
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                nn = False
            elif not want:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                nn = True
            else:
                nn = True
            # limits which come from a table of constants
            for x, y, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])):
                k = self.key(st, fn, x)
                if k is not None and k.startswith("@i:p:") and self.from_table(fn, y):
                    st.env[k + (".hi" if o[0] == "<" else ".lo")] = (None, ("lim",))
            a, b = self.iv(st, fn, l), self.iv(st, fn, r)
            if a is None or b is None or (not nn and (a[2] and b[2])):
                return True
            up = fup if flt else (lambda v: v + 1)
            dn = fdown if flt else (lambda v: v - 1)
            if not nn and b[2] and not a[2] or not nn and a[2] and not b[2]:
                # the other side may be NaN: only the NaN side itself keeps its bound
                ok = True
                if not b[2]:
                    ok = self.bound(st, fn, l, op, b, up, dn, False)
                if not a[2]:
                    ok = ok and self.bound(st, fn, r, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], a, up, dn, False)
                return ok
            if not self.bound(st, fn, l, op, b, up, dn, nn):
                return False
            return self.bound(st, fn, r, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], a, up, dn, nn)
        if n["k"] == "bin" and n["op"] == "&" and not want:
            # no bits outside of a mask
            for x, y in (n["c"], n["c"][::-1]):
                b, t = self.iv(st, fn, y), self.nty(fn, y)
                if b is not None and t not in (None, "f") and b[0] == b[1]:
                    m = ~b[0] & ((1 << t[0]) - 1)
                    if (m & (m + 1)) == 0 or m >> (t[0] - 1) == 0:
                        return self.meet(st, fn, x, 0, m)
        if n["k"] in ("load", "asg", "cast", "paren") and self.nty(fn, nid) not in (None, "f"):
            if want:
                return self.meet(st, fn, nid, ne=0)
            return self.meet(st, fn, nid, 0, 0)
        if n["k"] == "call" and n.get("fn") in ("isnan", "__builtin_isnan") and not want:
            return self.meet(st, fn, n["c"][1], notnan=True)
        if n["k"] == "call" and n.get("fn") in ("isfinite", "__builtin_isfinite") and want:
            return self.meet(st, fn, n["c"][1], fup(-INF), fdown(INF), True)
        return True

    def refine_eq(self, st, fn, nid, c, eq):
        if eq and isinstance(c, int) and self.nty(fn, nid) not in (None, "f") and not self.meet(st, fn, nid, c, c):
            return False
        return super().refine_eq(st, fn, nid, c, eq)

    def bound(self, st, fn, x, op, b, up, dn, nn):
        if op == "<":
            return self.meet(st, fn, x, -INF, dn(b[1]) if abs(b[1]) != INF else b[1], nn)
        if op == "<=":
            return self.meet(st, fn, x, -INF, b[1], nn)
        if op == ">":
            return self.meet(st, fn, x, up(b[0]) if abs(b[0]) != INF else b[0], INF, nn)
        return self.meet(st, fn, x, b[0], INF, nn)

    # ------------------------------------------------------------------ effects
    def drop(self, env, path):
        q = "@i:p:" + path
        base = path[:path.rfind(".u.") + 2] if ".u." in path else None
        for k in [k for k in env if k.startswith("@i:p:") and (k == q or k.startswith(q + ".") or k.startswith(q + "-") or k.startswith(q + "[") or
                                                                base is not None and k.startswith("@i:p:" + base))]:
            del env[k]

    def drop_mem(self, env):
        for k in [k for k in env if k.startswith("@i:e:")]:
            del env[k]

    def assign(self, st, fn, nid, lv, v, n, rnode):
        a = None
        t = None
        if rnode is not None:
            t = self.nty(fn, rnode)
            if t is not None:
                a = self.iv(st, fn, rnode)
        elif n.get("k") == "casg" and self.nty(fn, nid) == (64, 1):
            a = None
        super().assign(st, fn, nid, lv, v, n, rnode)
        if n.get("c") and self.spath(fn, n["c"][0]) is None:
            self.drop_mem(st.env)
        if lv is None or lv[0] != "L":
            return
        p = lv[1]
        if p is None:
            self.drop_mem(st.env)
            return
        self.drop(st.env, p)
        if a is not None and a != self.full(t):
            st.env["@i:p:" + p] = (None, ("i",) + tuple(a))

    def havoc(self, st, fn, nid, path, mods=None):
        super().havoc(st, fn, nid, path, mods)
        self.drop(st.env, path)

    def kill_memory(self, env, mods):
        super().kill_memory(env, mods)
        self.drop_mem(env)

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        k = n["k"]
        if k in ("bin", "casg", "cast"):
            kind = self.site_kind(fn, nid)
            if kind:
                self.check(st, fn, nid, kind)
        if k == "decl":
            for var, _ in n.get("dv", ()):
                self.drop(st.env, str(var))
        if k == "un" and n["op"] in ("++", "--", "p++", "p--", "post++", "post--") or k in ("inc", "dec", "incdec"):
            lv = st.temps.get(n["c"][0])
            if lv is not None and lv[0] == "L" and lv[1] is not None:
                self.drop(st.env, lv[1])
        r = super().eval(st, fn, nid)
        if k in ("bin", "un") and nid in self.kept_bools(fn):
            # the outcome of a test which is put in a variable is followed both ways
            out = []
            for s in r:
                v = s.temps.get(nid)
                if v is None or v[0] == "L" or v[0] is not None:
                    out.append(s)
                    continue
                for want in (True, False):
                    s2 = s.copy()
                    if self.refine(s2, fn, nid, want):
                        s2.temps[nid] = (1 if want else 0, None)
                        out.append(s2)
            return out
        return r

    def kept_bools(self, fn):
        c = fn.cache.get("numbools")
        if c is None:
            c = set()
            for n in fn.nodes:
                xs = [n["c"][1]] if n["k"] == "asg" and n["op"] == "=" else [i for _, i in n.get("dv", ())] if n["k"] == "decl" else n["c"][:1] if n["k"] == "ret" and n.get("c") else ()
                for x in xs:
                    while x >= 0 and fn.nodes[x]["k"] in ("cast", "paren"):
                        x = fn.nodes[x]["c"][0]
                    if x >= 0 and (fn.nodes[x]["k"] == "bin" and fn.nodes[x]["op"] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||") or fn.nodes[x]["k"] == "un" and fn.nodes[x]["op"] == "!"):
                        c.add(x)
            fn.cache["numbools"] = c
        return c

    # ------------------------------------------------------------------ calls
    def entry_key(self, callee, st, args):
        return (None, frozenset(self._facts), ())

    _facts = ()

    def eval_call(self, st, fn, nid, n):
        callee = self.P.fns.get(n.get("fn"))
        self._facts = ()
        if callee is not None and callee.key in self.relevant:
            f = []
            for i, c in enumerate(n["c"][1:]):
                if i < len(callee.params):
                    t = self.ty(callee.vars[callee.params[i]]["ctn"])
                    a = self.iv(st, fn, c) if t is not None else None
                    if a is not None and a == self.clip(a, t) and a != self.full(t) and (t == "f") == (self.nty(fn, c) == "f"):
                        f.append((i, a))
            self._facts = tuple(f)
        return super().eval_call(st, fn, nid, n)

    def arg_view(self, callee, args):
        return ()

    def entry(self, fn):
        return frozenset()

    def init_state(self, fn, ek):
        st = super().init_state(fn, (None, frozenset(), ()))
        for i, a in ek[1]:
            st.env["@i:p:%d" % fn.params[i]] = (None, ("i",) + tuple(a))
        return st

    def outcome(self, fn, st, v, nid):
        f = []
        for i in self.num_params(fn):
            p = fn.params[i]
            if not self.assigned(fn, p):
                a = st.env.get("@i:p:%d" % p)
                if a is not None:
                    f.append((i, a[1][1:]))
        num = v[0] if fn.ret not in ("void", "double", "float") else None
        if isinstance(num, frozenset):
            num = (num & NOTABLE) or None
        return Outcome(num, None, None, frozenset(f), ())

    def assigned(self, fn, p):
        c = fn.cache.setdefault("assignedvars", None)
        if c is None:
            c = set()
            for n in fn.nodes:
                if n["k"] in ("asg", "casg") or n["k"] == "un" and n["op"] not in ("-", "+", "!", "~", "*") or n["k"] in ("inc", "dec", "incdec"):
                    m = fn.nodes[n["c"][0]]
                    if m["k"] == "ref" and "var" in m:
                        c.add(m["var"])
            fn.cache["assignedvars"] = c
        return p in c

    def prop_view(self, fn, prop, key):
        return frozenset()

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        n = fn.nodes[nid]
        for i, a in oprop or ():
            if i + 1 < len(n["c"]):
                c = n["c"][i + 1]
                if c >= 0 and not self.meet_all(st, fn, c, a):
                    return IMPOSSIBLE
        return st.prop

    def meet_all(self, st, fn, c, a):
        if not self.meet(st, fn, c, a[0], a[1], not a[2]):
            return False
        for x in a[3]:
            if not self.meet(st, fn, c, ne=x):
                return False
        return True

    def status_vars(self, fn):
        return ()

    # ------------------------------------------------------------------ obligations
    def has(self, a, x):
        return a[0] <= x <= a[1] and x not in a[3]

    @staticmethod
    def only_constants(fn, x, depth=0):
        """a variable which is only ever set to one of several constants other than zero"""
        n = fn.nodes[x]
        while n["k"] in ("cast", "paren"):
            n = fn.nodes[n["c"][0]]
        v = (n.get("v") or {}).get("i")
        if v is not None:
            return v != 0
        if n["k"] == "cond":
            return all(Num.only_constants(fn, c, depth) for c in n["c"][1:])
        if n["k"] != "load" or depth > 1:
            return False
        m = fn.nodes[n["c"][0]]
        if m["k"] != "ref" or "var" not in m or m["var"] in fn.params:
            return False
        v = m["var"]
        src = []
        for d in fn.nodes:
            if d["k"] in ("casg",) and fn.nodes[d["c"][0]].get("var") == v or d["k"] == "un" and d["op"] not in ("!", "-", "~", "*") and fn.nodes[d["c"][0]].get("var") == v:
                return False
            if d["k"] == "asg" and fn.nodes[d["c"][0]].get("var") == v:
                src.append(d["c"][1])
            src += [i for w, i in d.get("dv", ()) if w == v]
        return bool(src) and all(i >= 0 and Num.only_constants(fn, i, depth + 1) for i in src)

    def check(self, st, fn, nid, kind):
        n = fn.nodes[nid]
        self.seen[(fn.key, nid)] = kind
        if kind == "narrowing":
            a, w = self.iv(st, fn, n["c"][0]), self.full(self.nty(fn, nid))
            k = self.key(st, fn, n["c"][0])
            if not (a[0] >= w[0] and a[1] <= w[1]) and not (k is not None and k + ".lo" in st.env and k + ".hi" in st.env):
                self.report(fn, nid, "narrowing", "%s, which the program supplied, may not fit in the %d bits it is cut to" % (ir.expr_str(fn, n["c"][0]), self.nty(fn, nid)[0]), st)
            return
        if kind == "conversion":
            a = self.iv(st, fn, n["c"][0])
            b, s = self.nty(fn, nid)
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1))) if s else (0, 1 << b)
            if a[2]:
                self.report(fn, nid, "conversion", "%s may be NaN when it is converted to an integer" % ir.expr_str(fn, n["c"][0]), st)
            elif not (a[0] > lo - 1 if abs(lo) < 1 << 53 else a[0] >= lo) or not a[1] < hi:
                self.report(fn, nid, "conversion", "%s may be out of the range of the integer it is converted to" % ir.expr_str(fn, n["c"][0]), st)
            return
        l, r = n["c"]
        if n["k"] == "casg":
            k = self.key_lv(st, fn, l)
            f = st.env.get(k or "")
            a = f[1][1:] if f is not None else self.full(self.nty(fn, l))
        else:
            a = self.iv(st, fn, l)
        b = self.iv(st, fn, r)
        t = self.nty(fn, nid)
        if b is None or t is None:
            return
        if kind == "division":
            if self.has(b, 0) and not self.only_constants(fn, r):
                self.report(fn, nid, "division", "the divisor %s may be zero" % ir.expr_str(fn, r), st)
            elif t == (64, 1) and a is not None and self.has(b, -1) and self.has(a, MIN64):
                self.report(fn, nid, "division", "the smallest integer may be divided by -1 (%s)" % ir.expr_str(fn, r), st)
        elif kind == "shift":
            if b[0] < 0 or b[1] > t[0] - 1:
                self.report(fn, nid, "shift", "the count %s may be outside of 0..%d" % (ir.expr_str(fn, r), t[0] - 1), st)


def run(P):
    I = Num(P)
    I.run_all()
    for k, s in I.own.items():
        for i in s:
            if (k, i) not in I.seen and os.environ.get("KOS_DEBUG"):
                print("unvisited", P.fns[k].file, P.fns[k].key, ir.expr_str(P.fns[k], i))
    c = {}
    for k in I.seen.values():
        c[k] = c.get(k, 0) + 1
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, divisions=c.get("division", 0), shifts=c.get("shift", 0),
                              conversions=c.get("conversion", 0), narrowings=c.get("narrowing", 0), abstract_states=I.stats["states"])
