"""Native references to heap objects across collection points.

The collector moves objects, so after any operation during which a collection may happen every native
variable or temporary which holds a reference to a heap object, or a pointer derived from one, is out of
date, unless the collector knows the variable: then it is updated in place.  Values carry a tag:
  "h" (and the heap tags of the base analysis)   refers to a heap object, up to date
  "s"                                            refers to a heap object, possibly moved since
Using a value tagged "s" - dereferencing it, passing it on, storing or returning it - is reported."""
from absint import *
from absint import _base
from errflow import ErrInterp
from roots import RootInterp, LOST, EMPTY
import ir, os, re

GC = "@gc"
HEAP = {"h", "args", "new-buffer", "shallow-walk"}
STALE = "s"
OLD_INIT = "@init-old"          # what the caller's variable held on entry, out of date since

# operations during which a collection may run: allocating, collecting, and standing aside while others collect
POINTS = {"kos_alloc_object", "kos_alloc_object_page", "KOS_collect_garbage", "kos_help_gc",
          "KOS_suspend_context", "KOS_resume_context"}
COLLECTOR = "core/kos_heap.c"


class GcInterp(RootInterp):
    name = "gcsafe"
    CAP = 12
    RULES = {"stale-deref", "stale-argument", "stale-store", "stale-return", "unrooted-local"}

    def __init__(self, prog):
        super().__init__(prog)
        P = prog
        for p in POINTS:
            if p not in P.fns:
                raise ir.AnalysisBroken("collection point %s not found" % p)
        self.uses = 0
        self.asserts, self.sources = {}, {}
        self.heaprec = set()
        for r, v in P.records.items():
            if v["fields"] and v["fields"][0]["ctn"] == "struct KOS_OBJ_HEADER_S" or r == "KOS_OBJ_HEADER_S":
                self.heaprec.add(r)
        self.find_immovable()
        self.find_immovable_vars()

    # ------------------------------------------------------------------ objects which never move
    def find_immovable(self):
        """record types only ever allocated as immovable objects"""
        P = self.P
        mov, imm = set(), set()
        flag = P.enumvals.get("KOS_ALLOC_IMMOVABLE")
        for k, fn in P.fns.items():
            if fn.file == COLLECTOR:
                continue
            for i, c in fn.calls:
                if c in ("kos_alloc_object", "kos_alloc_object_page"):
                    p = fn.parent.get(i)
                    while p is not None and fn.nodes[p]["k"] == "cast" and not self.rec_of_ptr(fn, p):
                        p = fn.parent.get(p)
                    r = self.rec_of_ptr(fn, p) if p is not None else None
                    fl = const_of(self.strip(fn, fn.nodes[i]["c"][2])) if c == "kos_alloc_object" else None
                    (imm if fl == flag else mov).add(r)
        self.immovable = imm - mov - {None}

    @staticmethod
    def strip(fn, x):
        n = fn.nodes[x]
        while const_of(n) is None and n["k"] in ("cast", "load") and n.get("c"):
            n = fn.nodes[n["c"][0]]
        return n

    def rec_of_ptr(self, fn, nid):
        t = fn.types[fn.nodes[nid]["t"]] if "t" in fn.nodes[nid] else ""
        return self.ptr_rec(t)

    @staticmethod
    def ptr_rec(ct):
        ct = ct.replace("const ", "").replace("volatile ", "").replace("_Atomic", "").strip()
        if ct.endswith("*") and ct.count("*") == 1:
            b = ct[:-1].strip()
            if b.startswith("struct "):
                return b[7:]
        return None

    def find_immovable_vars(self):
        """variables and fields which the program treats as references to immovable objects"""
        P = self.P
        self.imm_param = set()
        self.imm_var = {}
        self.imm_field = set()
        bad = set()
        for k, fn in P.fns.items():
            imm, mov = set(), set()
            for i, n in enumerate(fn.nodes):
                if n["k"] != "cast":
                    continue
                r = self.rec_of_ptr(fn, i)
                if r in self.heaprec:
                    src = self.ref_source(fn, n["c"][0], arith=True)
                    if src is not None:
                        (imm if r in self.immovable else mov).add(src)
            self.imm_var[k] = {s[1] for s in imm - mov if s[0] == "v"}
            self.imm_field |= {s[1] for s in imm if s[0] == "f"}
            bad |= {s[1] for s in mov if s[0] == "f"}
        for k, fn in P.fns.items():
            for i, n in enumerate(fn.nodes):
                pairs = [(n["c"][0], n["c"][1])] if n["k"] == "asg" else [(v, i2) for v, i2 in n.get("dv", ()) if i2 >= 0]
                for l, r in pairs:
                    a = self.ref_source(fn, l) if n["k"] == "asg" else ("v", l)
                    b = self.ref_source(fn, r)
                    if a and b and a[0] == "v" and b[0] == "f" and a[1] in self.imm_var[k]:
                        if a[1] in self.vars_below(fn, r):
                            self.imm_var[k].discard(a[1])      # the variable is reused for another object
                        else:
                            self.imm_field.add(b[1])
        self.imm_field -= bad
        for k, fn in P.fns.items():
            for i, n in enumerate(fn.nodes):
                if n["k"] == "asg":
                    a, b = self.ref_source(fn, n["c"][0]), self.ref_source(fn, n["c"][1])
                    if a and b and a[0] == "f" and b[0] == "v" and a[1] in self.imm_field:
                        self.imm_var[k].add(b[1])

        # a parameter which is passed on as such is of that kind, too
        assigned = {k: {fn.nodes[n["c"][0]].get("var") for n in fn.nodes if n["k"] == "asg"} |
                       {fn.nodes[n["c"][0]].get("var") for n in fn.nodes if n["k"] == "un" and n["op"] == "&"}
                    for k, fn in P.fns.items()}
        uses = {}
        for k, fn in P.fns.items():
            for i, c in fn.calls:
                callee = P.fns.get(c)
                for j, x in enumerate(fn.nodes[i]["c"][1:]):
                    src = self.ref_source(fn, x)
                    if src and src[0] == "v" and src[1] in fn.params and src[1] not in assigned[k]:
                        p = callee.params[j] if callee is not None and j < len(callee.params) else None
                        if p is None or callee.vars[p]["tn"] == "KOS_OBJ_ID":
                            uses.setdefault((k, src[1]), set()).add((c, p))
        change = True
        while change:
            change = False
            for (k, v), to in uses.items():
                if v not in self.imm_var[k] and all(p is not None and p in self.imm_var[c] for c, p in to):
                    self.imm_var[k].add(v)
                    change = True

    @staticmethod
    def vars_below(fn, x):
        res, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y < 0:
                continue
            n = fn.nodes[y]
            if n["k"] == "ref" and "var" in n:
                res.add(n["var"])
            todo += n.get("c", ())
        return res

    def ref_source(self, fn, x, arith=False):
        """("v", variable) or ("f", (record, field)) the expression reads"""
        for _ in range(20):
            if x is None or x < 0:
                return None
            n = fn.nodes[x]
            if n["k"] in ("cast", "load"):
                x = n["c"][0]
            elif n["k"] == "atomic" and "load" in n["op"]:
                m = fn.nodes[n["c"][0]]
                x = n["c"][0]
                while fn.nodes[x]["k"] in ("cast", "load"):
                    x = fn.nodes[x]["c"][0]
                if fn.nodes[x]["k"] == "un" and fn.nodes[x]["op"] == "&":
                    x = fn.nodes[x]["c"][0]
            elif n["k"] == "bin" and n["op"] in ("-", "+") and arith:
                x = n["c"][0]
            elif n["k"] == "ref" and "var" in n:
                return ("v", n["var"])
            elif n["k"] == "mem":
                r = n.get("r")
                if r == "KOS_LOCAL_S" or r == "KOS_ULOCAL_S":
                    b = fn.nodes[n["c"][0]]
                    if not n.get("a") and b["k"] == "ref" and "var" in b:
                        return ("v", b["var"])
                    if not n.get("a") and b["k"] == "mem":
                        return ("f", (b.get("r"), b["f"]))
                    return None
                return ("f", (r, n["f"]))
            else:
                return None
        return None

    # ------------------------------------------------------------------ which values refer to the heap
    def heap_type(self, fn, nid):
        n = fn.nodes[nid]
        st = fn.types[n["st"]] if "st" in n else ""
        if st in ("KOS_OBJ_ID",):
            return True
        t = fn.types[n["t"]] if "t" in n else ""
        if t.replace("const ", "").strip() == "struct KOS_ENTITY_PLACEHOLDER *":
            return True
        r = self.ptr_rec(t)
        return r in self.heaprec and r not in self.immovable

    def param_value(self, fn, idx, var):
        v = ErrInterp.param_value(self, fn, idx, var)
        if v[1] is None and var not in self.imm_var[fn.key]:
            tn, ct = fn.vars[var]["tn"], fn.vars[var]["ctn"]
            if tn == "KOS_OBJ_ID" and not self.module_init(fn, idx):
                return (v[0], "h")
            r = self.ptr_rec(ct)
            if r in self.heaprec and r not in self.immovable:
                return (v[0], "h")
        return v

    def module_init(self, fn, idx):
        return idx == 1 and fn.ret == "int" and fn.key in self.P.addr_taken and \
            [fn.vars[p]["tn"] for p in fn.params] == ["KOS_CONTEXT", "KOS_OBJ_ID"]

    def init_state(self, fn, ek):
        st = RootInterp.init_state(self, fn, ek)
        for i, v in ek[2]:
            p = str(fn.params[i])
            if v[1] == "im":
                st.env[p] = (v[0], None)
            elif v[1] == "rooted":
                q = "%s->*" % p
                st.env[p] = (None, ("&", q))
                st.env[q] = INIT
                st.env["@rooted:" + p] = (1, None)
            elif v[1] is None and v[0] != 0 and v[0] != 1:
                # constant knowledge must not hide what the parameter refers to
                pv = self.param_value(fn, i, fn.params[i])
                st.env[p] = (v[0], pv[1])
        st.env[GC] = (0, None)
        return st

    def arg_view(self, callee, args):
        r = dict(super().arg_view(callee, args))
        for i, p in enumerate(callee.params):
            if i >= len(args):
                continue
            v = callee.vars[p]
            if v["tn"] == "KOS_OBJ_ID" and self.static_ref(args[i][1]) and p not in self.imm_var[callee.key] and not isinstance(args[i][0], int):
                num = r.get(i, (None, None))[0]
                r[i] = (num, "im")
            elif v["ctn"].replace("const ", "") == "struct KOS_ENTITY_PLACEHOLDER **":
                tag = args[i][1]
                if type(tag) is tuple and tag and tag[0] == "&" and self.is_rooted(self._cur, tag[1]):
                    r[i] = (None, "rooted")
        return tuple(sorted(r.items()))

    @staticmethod
    def static_ref(tag):
        return tag is None or type(tag) is tuple and tag and tag[0] in ("&", "fn")

    def outcomes(self, callee, st, args):
        self._cur = st
        return super().outcomes(callee, st, args)

    # ------------------------------------------------------------------ staleness
    def is_rooted(self, st, path):
        if st.prop == LOST:
            return path.endswith(".o")
        if path.endswith("->*") and "@rooted:" + path[:-3] in st.env:
            return True
        if path.endswith(".o"):
            b = path[:-2]
            if b in st.prop[1]:
                return True
            if "->*" in path or "->" in path:
                return True          # a rooted variable of the caller, or of a longer-lived structure
        return False

    def happened(self, st, fn):
        """a collection may just have happened"""
        st.env[GC] = (1, None)
        env = st.env
        for p, v in list(env.items()):
            t = v[1]
            if t is None or p[0] == "@" or isinstance(v[0], int):
                continue
            if t in HEAP:
                if not self.is_rooted(st, p):
                    env[p] = (v[0], STALE)
            elif t == "@init" and fn.vars[int(_base(p))]["ctn"].replace("const ", "") == "struct KOS_ENTITY_PLACEHOLDER **":
                if p.endswith("->*") and not self.is_rooted(st, p):
                    env[p] = (v[0], OLD_INIT)
            elif type(t) is tuple and t and t[0] == "cell" and self.cell_is_ref(fn, t[1]):
                env[p] = (v[0], "h" if self.is_rooted(st, p) else STALE)
        T = st.temps
        for i, v in list(T.items()):
            if type(i) is tuple or not isinstance(v, tuple):
                continue
            if v[0] == "L":
                if v[2] in HEAP:
                    T[i] = ("L", v[1], STALE)
            elif not isinstance(v[0], int) and (v[1] in HEAP or type(v[1]) is tuple and v[1] and v[1][0] == "cell" and self.cell_is_ref(fn, v[1][1])):
                T[i] = (v[0], STALE)

    def cell_is_ref(self, fn, path):
        return path.endswith("->*") and fn.vars[int(_base(path))]["ctn"].replace("const ", "") == "struct KOS_ENTITY_PLACEHOLDER **"

    def calm(self, st):
        for p, v in list(st.env.items()):
            if v[1] == STALE:
                st.env[p] = (v[0], None)
        for i, v in list(st.temps.items()):
            if isinstance(v, tuple) and len(v) == 3 and v[2] == STALE:
                st.temps[i] = ("L", v[1], None)
            elif isinstance(v, tuple) and len(v) == 2 and v[1] == STALE:
                st.temps[i] = (v[0], None)

    def skip_reports(self, fn):
        return fn.file == COLLECTOR

    def stale(self, st, fn, nid, rule, msg):
        if not self.skip_reports(fn):
            self.report(fn, nid, rule, msg, st)
        self.calm(st)

    # ------------------------------------------------------------------ hooks
    def on_load(self, st, fn, nid, lv, val):
        val = super().on_load(st, fn, nid, lv, val)
        if val[1] == OLD_INIT:
            return (val[0], STALE)
        if val[1] is None and not isinstance(val[0], int) and self.heap_type(fn, nid):
            n = fn.nodes[nid]
            path = lv[1] if lv is not None and lv[0] == "L" else None
            if path is not None and path != EXC and ("->" not in path or path in st.env):
                return val          # a local: it holds what was put in it
            src = self.ref_source(fn, nid)
            if src is not None and src[0] == "f" and (src[1] in self.imm_field or src[1][1] == "size_and_type"):
                return val
            return (val[0], "h")
        return val

    def on_store(self, st, fn, nid, lv, val):
        val = super().on_store(st, fn, nid, lv, val)
        if lv is not None and lv[0] == "L" and lv[1] is not None and (val[1] in HEAP or val[1] == STALE):
            b = lv[1][:-2] if lv[1].endswith(".o") else lv[1]
            if b.isdigit() and int(b) in self.imm_var[fn.key]:
                val = (val[0], None)
        if lv is not None and lv[0] == "L":
            path = lv[1]
            if lv[2] == STALE and path != EXC:
                self.stale(st, fn, nid, "stale-store", "stores through a reference to an object which a collection may have moved")
            if val[1] == STALE and not isinstance(val[0], int):
                outside = path is None or "->" in path or path == EXC or self.is_rooted(st, path)
                if outside:
                    self.stale(st, fn, nid, "stale-store", "stores a reference which is out of date if a collection moved the object")
                    return (val[0], None)
        return val

    def cast(self, st, fn, nid, v):
        v = super().cast(st, fn, nid, v)
        if (v[1] in HEAP or v[1] == STALE) and not self.ref_arg(fn, nid) and fn.types[fn.nodes[nid]["t"]] not in ("long", "unsigned long"):
            return (v[0], None)
        return v

    def deref(self, st, fn, nid, val):
        if super().deref(st, fn, nid, val):
            return True
        self.uses += 1
        if val[1] == STALE:
            n = fn.nodes[nid]
            r = self.rec_of_ptr(fn, n["c"][0])
            if r in self.immovable:
                return False
            self.stale(st, fn, nid, "stale-deref", "dereferences a pointer to an object which a collection may have moved: %s" % ir.expr_str(fn, nid))
        return False

    def call_hook(self, st, fn, nid, key, args):
        self.uses += 1
        for i, a in enumerate(args):
            if a[1] == STALE and not isinstance(a[0], int):
                an = fn.nodes[nid]["c"][1 + i]
                if self.rec_of_ptr(fn, an) in self.immovable or not self.ref_arg(fn, an):
                    continue
                self.stale(st, fn, nid, "stale-argument", "passes a reference which is out of date if a collection moved the object: %s" % ir.expr_str(fn, nid))
                args[i] = (a[0], None)
                break
        r = super().call_hook(st, fn, nid, key, args)
        if r is not None and (key == "kos_call_function" or key in self.PROTOCOL):
            r = [(s, (v[0], "h" if v[0] != BAD else v[1])) for s, v in r]
            for s, v in r:
                self.happened(s, fn)
        return r

    def ref_arg(self, fn, an):
        t = fn.types[fn.nodes[an]["t"]] if "t" in fn.nodes[an] else ""
        return "*" in t

    def apply_outcome(self, s, fn, nid, key, o, args, callee):
        held = [p for p, v in s.env.items() if p.endswith(".o") and p[:-2].isdigit() and (v[1] in HEAP or v[1] == STALE)
                and not isinstance(v[0], int) and not self.is_rooted(s, p)]
        r = super().apply_outcome(s, fn, nid, key, o, args, callee)
        if held:
            given = {self.target(args, i) for i in range(len(args))}
            for p in held:
                if p not in given and p[:-2] not in given and s.env.get(p, TOP)[1] is None and not isinstance(s.env.get(p, TOP)[0], int):
                    s.env[p] = (None, STALE if o.prop[1] else "h")      # known elsewhere by its address, yet not registered
        return r

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        oprop, gc = oprop
        if gc and key == "KOS_object_to_string_or_cstr_vec" and len(args) > 3 and args[3][0] == 0 and self.asserted_string(fn, fn.nodes[nid]["c"][2]):
            gc = 0                      # a string is copied to a native buffer without allocating
        if gc or key in POINTS:
            callee = self.P.fns.get(key)
            if callee is not None and key not in self.API:
                self.unrooted(st, fn, nid, callee, args)
            self.happened(st, fn)
        return super().prop_back(st, oprop, key, fn, nid, args)

    def roots_param(self, callee, p):
        """the callee registers (or unregisters) the variable itself"""
        for i, c in callee.calls:
            if c in self.API:
                for x in callee.nodes[i]["c"][1:]:
                    if self.ref_source(callee, x) == ("v", p):
                        return True
        return False

    def asserted_string(self, fn, x):
        """the program asserts that the variable is a string"""
        facts = self.asserts.get(fn.key)
        if facts is None:
            src = self.sources.get(fn.file)
            if src is None:
                src = self.sources[fn.file] = open(os.path.join(ir.REPO, fn.file), errors="replace").read().split("\n")
            text = " ".join(src[fn.line - 1:fn.endline])
            facts = self.asserts[fn.key] = set(re.findall(r"assert\s*\(\s*GET_OBJ_TYPE\s*\(\s*(\w+)(?:\.o)?\s*\)\s*==\s*OBJ_STRING\s*\)", text))
        s = self.ref_source(fn, x)
        return s is not None and s[0] == "v" and fn.vars[s[1]]["n"] in facts

    def unrooted(self, st, fn, nid, callee, args):
        for i, p in enumerate(callee.params):
            if i < len(args) and callee.vars[p]["ctn"] == "struct KOS_LOCAL_S *":
                t = self.target(args, i)
                if t is None or "->" in t:
                    continue
                base = t[:-3] if t.endswith("[0]") else t
                if base.isdigit() and fn.vars[int(base)]["ctn"] == "struct KOS_LOCAL_S" and not self.is_rooted(st, base + ".o") \
                        and not self.roots_param(callee, p):
                    self.stale(st, fn, nid, "unrooted-local", "passes %s, which the collector does not know, to %s, which stores references in it and during which a collection may move objects"
                               % (self.disp(fn, base), callee.name))
                    return
                for q, v in st.env.items():
                    if q.startswith(base) and q.endswith(".o") and v[1] in HEAP and not isinstance(v[0], int) and not self.is_rooted(st, q):
                        self.stale(st, fn, nid, "unrooted-local", "passes the local reference %s, which the collector does not know, to %s, during which a collection may move the object"
                                   % (self.disp(fn, q[:-2]), callee.name))
                        return

    def result_value(self, st, fn, nid, key, o, args):
        v = super().result_value(st, fn, nid, key, o, args)
        if key in ("kos_alloc_object", "kos_alloc_object_page"):
            imm = key == "kos_alloc_object" and len(args) > 1 and args[1][0] == self.P.enumvals.get("KOS_ALLOC_IMMOVABLE")
            return (v[0], None if imm else "h") if v[0] != 0 else v
        if v[1] is None and not isinstance(v[0], int) and self.heap_type(fn, nid):
            return (v[0], "h")
        return v

    def ret_tag(self, fn, tag):
        if tag in HEAP or tag == STALE or type(tag) is tuple and tag and tag[0] == "cell" and self.cell_is_ref(fn, tag[1]):
            return "h" if "*" in fn.ret or fn.ret == "KOS_OBJ_ID" else None
        return super().ret_tag(fn, tag)

    def indirect_call(self, st, fn, nid, cal, args):
        r = super().indirect_call(st, fn, nid, cal, args)
        td = self.callee_typedef(fn, nid)
        if td in ("KOS_FUNCTION_HANDLER", "KOS_BUILTIN_INIT"):
            for s, v in r:
                self.happened(s, fn)
            r = [(s, (v[0], "h") if v[0] != BAD and td == "KOS_FUNCTION_HANDLER" else v) for s, v in r]
        return r

    def builtin(self, st, fn, nid, key, args):
        r = super().builtin(st, fn, nid, key, args)
        if r is not None and key in ("KOS_destroy_top_local", "KOS_destroy_top_locals"):
            r = [(s, v if v[0] is None or isinstance(v[0], int) or v[1] is not None else v) for s, v in r]
        return r

    def outcome(self, fn, st, v, nid):
        o = super().outcome(fn, st, v, nid)
        gc = 1 if fn.key in POINTS else st.env.get(GC, (0, None))[0]
        return Outcome(o.num, o.tag, o.exc, (o.prop, gc), o.out)

    def out_params(self, fn, st):
        r = dict(super().out_params(fn, st))
        for i, p in enumerate(fn.params):
            v = st.env.get("%d->*" % p)
            if v is not None and not isinstance(v[0], int) and (v[1] in HEAP or v[1] == STALE) and "@rooted:%d" % p not in st.env:
                num = r[i][0] if i in r else None
                r[i] = (num, "h" if v[1] in HEAP else STALE)
            elif v is not None and v[1] == OLD_INIT:
                r[i] = (v[0], "@init")
        return tuple(sorted(r.items()))

    def limit_outcomes(self, fn, outs):
        outs = super().limit_outcomes(fn, outs)
        keep = set()
        for o in outs:
            if o.prop[1] == 0 and Outcome(o.num, o.tag, o.exc, (o.prop[0], 1), o.out) in outs:
                continue
            keep.add(o)
        return keep

    def extra_key(self, env):
        return (env.get(AWARE), env.get(GC))

    def join_tag(self, a, b):
        if a == b:
            return a
        if a in ("@init", OLD_INIT) and b in ("@init", OLD_INIT):
            return OLD_INIT
        if a == OLD_INIT or b == OLD_INIT:
            return STALE
        if a == STALE or b == STALE:
            return STALE
        if a in HEAP or b in HEAP:
            return "h"
        return None

    def on_return(self, st, fn, nid, val):
        super().on_return(st, fn, nid, val)
        if val[1] == STALE and not isinstance(val[0], int) and "*" in fn.ret + ("*" if fn.ret == "KOS_OBJ_ID" else ""):
            if self.ptr_rec(fn.ret) in self.immovable:
                return
            self.stale(st, fn, nid, "stale-return", "returns a reference which is out of date if a collection moved the object")


def run(P):
    I = GcInterp(P)
    I.run_all()
    reps = [r for r in I.reports.values() if r["rule"] in I.RULES]
    gcf = {k for (k, ek), outs in I.summaries.items() if any(o.prop[1] for o in outs)}
    return reps, dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, collecting_functions=len(gcf),
                      uses_checked=I.uses, abstract_states=I.stats["states"], immovable_types=sorted(I.immovable),
                      immovable_fields=sorted("%s.%s" % f for f in I.imm_field), root_operations=len(I.sites))
