"""A value which comes from a program is only used as an object of some type on paths on which its type was looked at.

Untrusted values get a token; the property state of a path maps each token to the set of types which the value
can still have.  Using the value as one type of object (through a pointer to that type's record) needs the set
to contain no other type.  Callees are followed with the sets of the arguments they receive."""
from lite import *
import os, re
import gcsafe

ALL = (1 << 20) - 1
LANG = (1 << 12) - 1                # the types a program can see
PROP = LANG | 1 << 17               # what a property can hold
RECS = {"KOS_INTEGER_S": 2, "KOS_FLOAT_S": 4, "KOS_VOID_S": 6, "KOS_BOOLEAN_S": 8, "KOS_STRING_U": 10, "KOS_OBJECT_S": 12, "KOS_OBJECT_WITH_PRIVATE_S": 12,
        "KOS_ARRAY_S": 14, "KOS_BUFFER_S": 16, "KOS_FUNCTION_S": 18, "KOS_CLASS_S": 20, "KOS_MODULE_S": 22, "KOS_OPAQUE_S": 24,
        "KOS_ARRAY_STORAGE_S": 30, "KOS_BUFFER_STORAGE_S": 32, "KOS_OBJECT_STORAGE_S": 28, "KOS_DYNAMIC_PROP_S": 34, "KOS_ITERATOR_S": 36, "KOS_STACK_S": 38}
HDR = "KOS_OBJ_HEADER_S"
# operations whose result is whatever a program put there
SOURCES = {"KOS_get_property", "KOS_get_property_with_depth", "KOS_get_property_shallow", "KOS_array_pop", "KOS_call_function", "KOS_get_walk_value",
           "kos_call_function", "KOS_get_named_arg", "KOS_get_array_item"}
STEPS = {"KOS_iterator_next", "KOS_object_walk"}
ELEMS = {"KOS_array_read"}
SLOTS = {("KOS_ITERATOR_S", "last_value"), ("KOS_STACK_FRAME_S", "regs")}
# tables of the runtime, out of reach for programs
INTERNAL = {"module_inits", "module_names", "global_names", "constants", "modules"}
# arguments whose type is the caller's responsibility (the functions assert it); the calls in the tree are checked
PRECONDITIONS = {"KOS_array_insert": (4,), **{"KOS_module_" + x: (1,) for x in ("add_global", "get_global", "add_function", "add_constructor", "add_member_function", "add_static_function", "run_function")}, "KOS_new_string_from_codes": (1,),
                 "KOS_new_string_from_buffer": (1,), "KOS_get_file_name": (1,), "KOS_new_iterator_copy": (1,), "KOS_iterator_next": (1,), "KOS_run_module": (1,)}
CONSTS = {"KOS_void": 6, "KOS_true": 8, "KOS_false": 8}


class Typed(Lite):
    name = "types"
    RULES = {"type-confusion"}
    GROUPCAP = 60000
    CAP = 6
    CNTCAP = 100000

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        en = {}
        self.enum_check()
        self.handlers = set()
        for k in P.addr_taken:
            f = P.fns.get(k)
            if f is None:
                continue
            ts = [f.vars[p]["tn"] for p in f.params]
            if f.ret == "KOS_OBJ_ID" or self.objid_ret(f):
                if ts == ["KOS_CONTEXT", "KOS_OBJ_ID", "KOS_OBJ_ID"]:
                    self.handlers.add(k)
        if len(self.handlers) < 100:
            raise ir.AnalysisBroken("only %d built-in functions recognised" % len(self.handlers))
        direct = set()
        for k, f in P.fns.items():
            if any(c in SOURCES or c in ELEMS for _, c in f.calls):
                direct.add(k)
                continue
            for i, n in enumerate(f.nodes):
                if n["k"] in ("atomic", "load") and self.slot_of(f, i):
                    direct.add(k)
                    break
        self.direct = direct
        self.relevant = direct | P.closure(set(direct), lambda f: [c for _, c in f.calls if c and self.objid_ret(f)])
        self.relevant |= self.handlers
        # functions which look at objects inside a structure they are given
        self.derefs = {k for k, f in P.fns.items() if any(f.vars[p]["ctn"].endswith("*") and f.vars[p]["ctn"].startswith(("struct ", "const struct ")) and
                       any(x["k"] == "mem" and x["f"] == "o" for x in f.nodes) for p in f.params)}
        # functions of the C interface which can report a wrong type
        text = "".join(open(os.path.join(ir.REPO, "inc", x), encoding="utf-8", errors="replace").read() for x in sorted(os.listdir(os.path.join(ir.REPO, "inc"))) if x.endswith(".h"))
        declared = set(re.findall(r"\b(KOS_\w+)\s*\(", text))
        self.api = {}
        for k, f in P.fns.items():
            if f.static or f.name not in declared or k in self.handlers or not f.params or f.vars[f.params[0]]["tn"] != "KOS_CONTEXT":
                continue
            ps = [i for i, p in enumerate(f.params) if f.vars[p]["tn"] == "KOS_OBJ_ID" and i not in PRECONDITIONS.get(f.name, ())]
            if ps:
                self.api[k] = ps
        if len(self.api) < 50:
            raise ir.AnalysisBroken("only %d API functions recognised" % len(self.api))
        self.relevant |= set(self.api)
        self.accesses = {}
        self.followed = set()

    def enum_check(self):
        for r in ("KOS_STRING_U", "KOS_ARRAY_S", "KOS_FUNCTION_S"):
            if r not in self.P.records:
                raise ir.AnalysisBroken("record %s not found" % r)

    @staticmethod
    def objid_ret(f):
        return f.ret in ("KOS_OBJ_ID", "struct KOS_ENTITY_PLACEHOLDER *")

    def allowed(self, rec):
        if rec == HDR:
            return ALL & ~1
        t = RECS.get(rec)
        if t is None:
            return None
        if t == 18:
            return 1 << 9 | 1 << 10
        return 1 << (t // 2)

    def is_untyped(self, rec):
        return self.allowed(rec) is None

    # ------------------------------------------------------------------ facts
    # "@m:<token>" -> what the value can still be; no entry: anything
    def mask(self, st, tok):
        v = st.env.get("@m:" + tok)
        return ALL if v is None else v[1][1]

    def set_mask(self, st, tok, m):
        if m == ALL:
            st.env.pop("@m:" + tok, None)
        else:
            st.env["@m:" + tok] = (None, ("m", m))

    def narrow(self, st, tok, m):
        old = self.mask(st, tok)
        if old & m != old:
            self.set_mask(st, tok, old & m)
        return old & m != 0

    def fresh(self, st, tok, m=LANG):
        self.set_mask(st, tok, m)
        return (None, ("t", tok))

    def join_tag(self, a, b):
        if a == b:
            return a
        if type(a) is tuple and type(b) is tuple and a and b and a[0] == "m" and b[0] == "m":
            return ("m", a[1] | b[1])
        return None

    def state_ok(self, st):
        env = st.env
        for k in [k for k in env if k.startswith("@tab:")]:
            del env[k]
        keys = [k for k in env if k.startswith("@m:") and k[3] not in "pw"]
        if keys:
            used = set()
            for v in list(env.values()) + list(st.temps.values()):
                t = v[2] if type(v) is tuple and v and v[0] == "L" else v[1] if type(v) is tuple else None
                if type(t) is tuple and t and t[0] in ("t", "o", "ty", "nsi"):
                    used.add(t[1])
            for k in keys:
                if k[3:] not in used:
                    del env[k]
        return True

    # ------------------------------------------------------------------ contexts
    def entry_prop(self, fn):
        if fn.key in self.handlers:
            return frozenset(((1, LANG), (2, 1 << 7)))
        return frozenset((i, LANG) for i in self.api.get(fn.key, ()))

    def entry_key(self, callee, st, args):
        f = []
        for i, a in enumerate(args):
            t = a[1]
            if type(t) is tuple and t and t[0] == "t" and i < len(callee.params) and a[0] != BAD:
                f.append((i, self.mask(st, t[1])))
            elif type(t) is tuple and t and t[0] == "&" and i < len(callee.params):
                # values inside a structure which is passed by reference
                base = t[1] + "."
                for q, v in st.env.items():
                    if q.startswith(base) and type(v) is tuple and type(v[1]) is tuple and v[1] and v[1][0] == "t" and v[0] != BAD:
                        m = self.mask(st, v[1][1])
                        if callee.key in self.derefs:
                            f.append(((i, q[len(t[1]):]), m))
        return (None, frozenset(f), self.arg_view(callee, args))

    def arg_view(self, callee, args):
        r = []
        for i, p in enumerate(callee.params):
            if i < len(args) and args[i][0] is not None:
                tn = callee.vars[p]["tn"]
                if isinstance(args[i][0], int) and ("KOS_TYPE" in tn or callee.vars[p]["ctn"].startswith("enum")):
                    r.append((i, (args[i][0], None)))
                elif args[i][0] in (0, BAD) and callee.vars[p]["ctn"].endswith("*"):
                    r.append((i, (args[i][0], None)))
        return tuple(r)

    def init_state(self, fn, ek):
        st = super().init_state(fn, ek)
        for i, m in sorted(ek[1], key=repr):
            if type(i) is tuple:
                t = "p%d%s" % i
                st.env["%d->*%s" % (fn.params[i[0]], i[1])] = (None, ("t", t))
                self.set_mask(st, t, m)
                continue
            p = str(fn.params[i])
            st.env[p] = (st.env.get(p, TOP)[0], ("t", "p%d" % i))
            self.set_mask(st, "p%d" % i, m)
        return st

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        for i, m in oprop:
            if type(i) is tuple:
                continue
            g = args[i][1] if i < len(args) else None
            if type(g) is tuple and g and g[0] == "t" and not self.narrow(st, g[1], m):
                return IMPOSSIBLE
        return st.prop

    def outcome(self, fn, st, v, nid):
        g = v[1]
        tag = None
        if type(g) is tuple and g and g[0] == "t":
            tag = g if g[1][0] == "p" and g[1][1:].isdigit() else ("u", self.mask(st, g[1]))
        prop = frozenset((i, self.mask(st, "p%d" % i)) for i, _ in st.prop if type(i) is int)
        num = v[0] if fn.ret not in ("void", "double", "float") else None
        if isinstance(num, frozenset):
            num = (num & NOTABLE) or None
        return Outcome(num, tag, None, prop, ())

    def result_value(self, st, fn, nid, key, o, args):
        g = o.tag
        if type(g) is tuple:
            if g[0] == "u":
                v = self.fresh(st, self.tok(fn, nid), g[1])
                return (o.num, v[1])
            if g[0] == "t" and int(g[1][1:]) < len(args):
                a = args[int(g[1][1:])]
                return (o.num if o.num is not None else a[0], a[1])
        return (o.num, None)

    def status_vars(self, fn):
        """variables which hold the type of a value"""
        s = fn.cache.get("typevars")
        if s is None:
            s = set()
            if len(fn.blocks) < 800:
                s = {str(i) for i, v in enumerate(fn.vars) if "KOS_TYPE" in v.get("tn", "")}
            fn.cache["typevars"] = s
        return s

    def limit_outcomes(self, fn, outs):
        """outcomes with the same result are not kept apart: a check is visible in its result"""
        g = {}
        for o in outs:
            k = (o.num, o.tag[0] if type(o.tag) is tuple else None, o.tag if type(o.tag) is tuple and o.tag[0] == "t" else None)
            w = g.get(k)
            if w is None:
                g[k] = [dict(o.prop), o.tag]
            else:
                for i, m in o.prop:
                    w[0][i] |= m
                if k[1] == "u":
                    w[1] = ("u", w[1][1] | o.tag[1])
        return super().limit_outcomes(fn, {Outcome(k[0], w[1], None, frozenset(w[0].items()), ()) for k, w in g.items()})

    def tok(self, fn, nid):
        return str(nid)

    # ------------------------------------------------------------------ constant tables
    def table_of(self, fn, nid):
        """the rows of a constant table of small structs which is being indexed"""
        m = fn.nodes[fn.nodes[nid]["c"][0]]
        g = m.get("v", {}).get("g") if m["k"] == "decay" else None
        if g is None or m["v"].get("off"):
            return None
        t = self.tables.get(g)
        if t is None:
            t = ()
            G = self.P.globals.get(g)
            rows = (G or {}).get("v", {}).get("ar") if G and G.get("const") else None
            rec = self.P.records.get(fn.types[fn.nodes[nid]["st"]].replace("const ", "").replace("struct ", "")) if "st" in fn.nodes[nid] else None
            if rows and rec and len(rows) <= 64:
                names = [f["n"] for f in rec["fields"]]
                if all(isinstance(r, dict) and len(r.get("st", ())) == len(names) and all(isinstance(x, dict) and "i" in x for x in r["st"]) for r in rows):
                    t = tuple(tuple(zip(names, (x["i"] for x in r["st"]))) for r in rows)
            self.tables[g] = t
        return (g, t) if t else None

    tables = {}
    by_ref = False

    def readonly(self, fn, path):
        if not path.split("->")[0].isdigit() or path.count("->*") != 1:
            return False
        v = int(path.split("->")[0])
        return v in fn.params and fn.types[fn.vars[v]["t"]].startswith("const ") and fn.vars[v]["ctn"].count("*") == 1

    def kill_memory(self, env, mods):
        p = env["@keep"][1][1] if "@keep" in env else None
        v = env.get(p)
        Interp.kill_memory(self, env, mods)
        if v is not None:
            env[p] = v

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        if n["k"] != "sub":
            return super().eval(st, fn, nid)
        t = self.table_of(fn, nid)
        if t is None:
            return super().eval(st, fn, nid)
        g, rows = t
        iv = self.val(st, fn, n["c"][1])
        x = n["c"][1]
        while fn.nodes[x]["k"] == "cast":
            x = fn.nodes[x]["c"][0]
        lv = st.temps.get(fn.nodes[x]["c"][0]) if fn.nodes[x]["k"] == "load" else None
        ip = lv[1] if lv is not None and lv[0] == "L" else None
        # rows equal to the first one stand for "no such type"
        which = [iv[0]] if isinstance(iv[0], int) and 0 <= iv[0] < len(rows) else [i for i in range(len(rows)) if not i or rows[i] != rows[0]]
        if len(which) > 1 and any(f == "type" for f, _ in rows[0]):
            which = which[1:]
        out = []
        if ip is not None:
            self.status_vars(fn).add(ip)
        for i in which:
            s = st.copy()
            if ip is not None:
                s.env[ip] = (i, s.env.get(ip, TOP)[1])
                if self.readonly(fn, ip):
                    s.env["@keep"] = (None, ("keep", ip))
            p = "@tab:%s[%d]" % (g, i)
            s.temps[nid] = ("L", p, None)
            for f, c in rows[i]:
                s.env[p + "." + f] = (c, None)
            out.append(s)
        return out

    # ------------------------------------------------------------------ values
    def slot_of(self, fn, i):
        n = fn.nodes[i]
        if n["k"] == "atomic" and "load" not in n["op"]:
            return None
        m = fn.nodes[n["c"][0]]
        while m["k"] in ("un", "cast", "load", "sub", "decay", "paren") and m.get("c"):
            if m["k"] == "un" and m["op"] not in ("&", "*"):
                return None
            m = fn.nodes[m["c"][0]]
        if m["k"] == "mem" and (m.get("r"), m["f"]) in SLOTS:
            return m
        return None

    def on_load(self, st, fn, nid, lv, val):
        n = fn.nodes[nid]
        if n["k"] == "atomic":
            m = self.slot_of(fn, nid)
            if m is not None:
                if m["r"] == "KOS_ITERATOR_S":
                    t = "w" + m["f"] + ir.expr_str(fn, m["c"][0])       # stays the same until the next step
                    if "@m:" + t not in st.env:
                        self.set_mask(st, t, PROP)
                    return (None, ("t", t))
                return self.fresh(st, self.tok(fn, nid))
            return val
        if n["k"] == "load":
            m = fn.nodes[n["c"][0]]
            if m["k"] == "mem" and m["f"] in INTERNAL:
                return (val[0], "internal")
            g = lv[2] if lv is not None and lv[0] == "L" else None
            if type(g) is tuple and g and g[0] == "o" and g[2] == HDR:
                m = fn.nodes[n["c"][0]]
                if m["k"] == "mem" and m["f"] == "size_and_type":
                    return (None, ("ty", g[1]))
        return val

    def record(self, fn, nid):
        n = fn.nodes[nid]
        if "t" not in n:
            return None
        ct = fn.types[n["t"]].replace("const ", "").replace("volatile ", "").strip()
        r = self.rec_cache.get(ct)
        if r is None:
            r = ""
            if ct.endswith("*") and ct.count("*") == 1:
                b = ct[:-1].strip()
                for p in ("struct ", "union "):
                    if b.startswith(p):
                        b = b[len(p):]
                for c in (b, b + "_S", b + "_U"):
                    if c in RECS or c == HDR:
                        r = c
            self.rec_cache[ct] = r
        return r

    rec_cache = {}

    def cast(self, st, fn, nid, v):
        g = v[1]
        if type(g) is tuple and g and g[0] in ("t", "o"):
            r = self.record(fn, nid)
            if r == HDR or r in RECS:
                return (v[0], ("o", g[1], r))
        return v

    def eval_bin(self, st, fn, nid, n):
        a, b = self.val(st, fn, n["c"][0]), self.val(st, fn, n["c"][1])
        for x, y in ((a, b), (b, a)):
            g = x[1]
            if type(g) is tuple and g and g[0] == "t" and n["op"] == "&" and y[0] == 1:
                m = self.mask(st, g[1])
                if not m & 1:
                    return (1, None)
                if m == 1:
                    return (0, None)
                return (None, ("nsi", g[1]))
            if type(g) is tuple and g and g[0] == "ty":
                if n["op"] == "&":
                    return (None, g)
        return super().eval_bin(st, fn, nid, n)

    # ------------------------------------------------------------------ refinement
    def types_where(self, cond):
        m = 0
        for b in range(20):
            if cond(b * 2):
                m |= 1 << b
        return m

    def refine_eq(self, st, fn, nid, c, eq):
        g = self.val(st, fn, nid)[1]
        if type(g) is tuple and g and g[0] == "ty":
            if not self.narrow(st, g[1], self.types_where(lambda t: (t == c) == eq)):
                return False
        elif type(g) is tuple and g and g[0] == "nsi":
            zero = (c == 0) == eq if c == 0 else (not eq if c == 1 else None)
            if zero is not None and not self.narrow(st, g[1], 1 if zero else ALL & ~1):
                return False
        elif type(g) is tuple and g and g[0] == "t" and c == BAD and not eq:
            pass
        return super().refine_eq(st, fn, nid, c, eq)

    def const_type(self, fn, nid):
        m = fn.nodes[nid]
        for _ in range(12):
            if m["k"] in ("cast", "load", "decay") or m["k"] == "un" and m["op"] == "&" or m["k"] == "mem" and not m.get("a"):
                m = fn.nodes[m["c"][0]]
            elif m["k"] == "bin" and m["op"] == "+":
                m = fn.nodes[m["c"][0]]
            else:
                break
        if m["k"] == "ref":
            g = m.get("g", m.get("n"))
            if g:
                return CONSTS.get(g.split(":")[-1])
        return None

    def refine_hook(self, st, fn, nid, want):
        n = fn.nodes[nid]
        if n["k"] == "bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            l, r = n["c"]
            op = n["op"]
            for x, y, flip in ((l, r, False), (r, l, True)):
                v, w = self.val(st, fn, x), self.val(st, fn, y)
                g = v[1]
                if type(g) is not tuple or not g:
                    continue
                if op in ("==", "!="):
                    eq = (op == "==") == want
                    if g[0] == "t":
                        t = self.const_type(fn, y)
                        if t is not None:
                            if eq and not self.narrow(st, g[1], 1 << (t // 2)):
                                return False
                            if not eq and t == 6 and not self.narrow(st, g[1], ALL & ~(1 << 3)):
                                return False
                    if g[0] == "ty" and type(w[1]) is tuple and w[1] and w[1][0] == "ty" and eq:
                        m1, m2 = self.mask(st, g[1]), self.mask(st, w[1][1])
                        if not flip:
                            if not self.narrow(st, g[1], m2) or not self.narrow(st, w[1][1], m1):
                                return False
                elif g[0] == "ty" and isinstance(w[0], int):
                    o = op if not flip else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                    c = w[0]
                    f = {"<": lambda t: t < c, ">": lambda t: t > c, "<=": lambda t: t <= c, ">=": lambda t: t >= c}[o]
                    if not self.narrow(st, g[1], self.types_where(lambda t: f(t) == want)):
                        return False
        return True

    # ------------------------------------------------------------------ uses
    NAMES = ["small integer", "integer", "float", "void", "boolean", "string", "object", "array", "buffer", "function", "class", "module", "opaque", "huge tracker", "object storage", "array storage", "buffer storage", "property accessor", "iterator", "stack"]

    def use(self, st, fn, nid, g, what):
        al = self.allowed(g[2])
        m = self.mask(st, g[1])
        if al is None:
            return
        self.accesses[(fn.key, nid)] = g[2]
        bad = m & ~al
        if bad:
            self.report(fn, nid, "type-confusion", "%s as %s, but it may be %s" % (
                what, "an object on the heap" if g[2] == HDR else g[2][4:-2].lower(), "/".join(x for i, x in enumerate(self.NAMES) if bad >> i & 1)), st)
            self.narrow(st, g[1], al)

    def deref(self, st, fn, nid, val):
        g = val[1]
        if type(g) is tuple and g and g[0] == "o" and val[0] != BAD - 1:
            self.use(st, fn, nid, g, "%s is used" % ir.expr_str(fn, nid))
        return False

    def call_hook(self, st, fn, nid, key, args):
        for i, a in enumerate(args):
            g = a[1]
            if type(g) is tuple and g and g[0] == "o" and a[0] not in (0, BAD):
                self.use(st, fn, nid, g, "argument %d of %s is passed" % (i + 1, (key or "a call").split(":")[-1]))
        if key in STEPS:
            for k in [k for k in st.env if k.startswith("@m:w")]:
                del st.env[k]
        if key in SOURCES or key in ELEMS:
            if len(args) > 1 and args[1][1] == "internal":
                return None
            res = []
            for s, v in self.follow(st, fn, nid, key, args):
                if v[0] == BAD:
                    res.append((s, v))
                    continue
                x = self.fresh(s, self.tok(fn, nid), PROP if "_property" in key else LANG)
                res.append((s, (frozenset((0, 1)), x[1])))
                if v[0] is None:
                    s2 = s.copy()
                    res.append((s2, (BAD, None)))
            return res
        return None

    def follow(self, st, fn, nid, key, args):
        """the callee checks its own use of the arguments"""
        callee = self.P.fns.get(key)
        self.by_ref = key in self.derefs
        if callee is not None and any(self.untrusted(st, args, i) for i in range(len(args))):
            self.followed.add(key)
            return Interp.default_call(self, st, fn, nid, key, args)
        self.kill_memory(st.env, self.mod.get(key))
        return [(st, TOP)]

    def untrusted(self, st, args, i):
        g = args[i][1] if i < len(args) else None
        if type(g) is not tuple or not g:
            return False
        if g[0] == "&" and self.by_ref:
            b = g[1] + "."
            return any(q.startswith(b) and type(v[1]) is tuple and v[1] and v[1][0] == "t" for q, v in st.env.items())
        return g[0] == "t"

    def default_call(self, st, fn, nid, key, args):
        callee = self.P.fns.get(key)
        self.by_ref = key in self.derefs
        if callee is not None and key not in self.relevant and key not in self.P.noreturn and any(self.untrusted(st, args, i) for i in range(len(args))):
            base = self.builtin(st, fn, nid, key, args)
            if base is not None:
                return base
            self.followed.add(key)
            return Interp.default_call(self, st, fn, nid, key, args)
        return super().default_call(st, fn, nid, key, args)

    def unknown_call(self, st, fn, nid, key, args):
        return [(st, TOP)]

    def targets(self):
        return [fn for k, fn in sorted(self.P.fns.items()) if k in self.relevant and (k in self.handlers or k in self.api or self.is_root(fn) or k in self.direct)]


def run(P):
    I = Typed(P)
    I.run_all()
    return I.findings(), dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, builtin_functions=len(I.handlers), api_functions=len(I.api),
                              typed_uses=len(I.accesses), abstract_states=I.stats["states"])
