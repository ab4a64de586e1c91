"""Collector completeness: every reference slot of every object kind, of the running threads and of
the instance is followed when live objects are determined and rewritten when objects move."""
import re
from absint import *
import ir

OBJ = "struct KOS_ENTITY_PLACEHOLDER *"
TRACK_BIT = 8


def is_ref_type(ctn):
    t = ctn.replace("volatile ", "").replace("const ", "")
    t = re.sub(r"\[\d*\]$", "", t).strip()
    m = re.match(r"_Atomic\((.*)\)$", t)
    if m:
        t = m.group(1)
    return t.strip() == OBJ


def rec_in_type(t):
    m = re.search(r"(?:struct|union) (\w+)", t)
    return m.group(1) if m else None


class Slots:
    """reference slots per record, from the record definitions"""

    def __init__(self, P):
        self.P = P
        self.by_rec = {}

    def of(self, rec, depth=0):
        if rec in self.by_rec:
            return self.by_rec[rec]
        out = set()
        r = self.P.records.get(rec)
        if r is not None and depth < 4:
            for f in r["fields"]:
                if f["n"] in ("header", "hdr", "size_and_type", "align"):
                    continue
                if is_ref_type(f["ctn"]):
                    out.add((rec, f["n"]))
                elif "*" not in f["ctn"]:
                    m = re.match(r"(?:struct|union) (\w+)(\[\d*\])?$", f["ctn"])
                    if m and m.group(1) not in ("KOS_THREAD_CONTEXT_S", "KOS_HEAP_S"):
                        out |= self.of(m.group(1), depth + 1)
        self.by_rec[rec] = out
        return out


class Resolver:
    """which fields an expression denotes or points into (flow-insensitive over the function's locals)"""

    def __init__(self, P):
        self.P = P
        self.retc = {}

    def defs(self, fn):
        d = fn.cache.get("defs")
        if d is None:
            d = {}
            for n in fn.nodes:
                if n["k"] == "decl":
                    for v, i in n.get("dv", ()):
                        if i >= 0:
                            d.setdefault(v, []).append(i)
                elif n["k"] == "asg":
                    m = fn.nodes[n["c"][0]]
                    if m["k"] == "ref" and "var" in m:
                        d.setdefault(m["var"], []).append(n["c"][1])
                    elif m["k"] == "sub":
                        b = fn.nodes[m["c"][0]]
                        while b["k"] in ("decay", "load", "cast"):
                            b = fn.nodes[b["c"][0]]
                        if b["k"] == "ref" and "var" in b:
                            d.setdefault(b["var"], []).append(n["c"][1])
            fn.cache["defs"] = d
        return d

    def ret_fields(self, key):
        """what the results of a function denote"""
        if key not in self.retc:
            self.retc[key] = set()       # recursion: nothing yet
            g = self.P.fns[key]
            out = set()
            for m in g.nodes:
                if m["k"] == "ret" and m.get("c"):
                    out |= self.fields(g, m["c"][0])
            self.retc[key] = out
        return self.retc[key]

    def fields(self, fn, e, seen=None):
        """set of ('f', rec, field) and ('p', param index)"""
        if seen is None:
            seen = set()
        out = set()
        if e < 0 or e in seen:
            return out
        seen.add(e)
        n = fn.nodes[e]
        k = n["k"]
        if k == "mem":
            if n.get("f") in ("header", "hdr") or n.get("r") is None:
                return out
            out.add(("f", n["r"], n["f"]))
            return out
        if k in ("load", "cast", "decay", "atomic"):
            return self.fields(fn, n["c"][0], seen)
        if k == "un" and n["op"] in ("&", "*", "++", "--"):
            return self.fields(fn, n["c"][0], seen)
        if k == "sub":
            return self.fields(fn, n["c"][0], seen)
        if k == "bin" and n["op"] in ("+", "-", ","):
            if n["op"] == ",":
                return self.fields(fn, n["c"][1], seen)
            return self.fields(fn, n["c"][0], seen)
        if k == "init":
            for c in n.get("c", ()):
                out |= self.fields(fn, c, seen)
            return out
        if k == "cond":
            return self.fields(fn, n["c"][1], seen) | self.fields(fn, n["c"][2], seen)
        if k == "asg":
            return self.fields(fn, n["c"][1], seen)
        if k == "call" and n.get("fn") in self.P.fns:
            for x in self.ret_fields(n["fn"]):
                if x[0] == "f":
                    out.add(x)
                elif x[1] + 1 < len(n["c"]):
                    out |= self.fields(fn, n["c"][x[1] + 1], seen)
            return out
        if k == "ref" and "var" in n:
            v = n["var"]
            if v in fn.params:
                out.add(("p", fn.params.index(v)))
            for d in self.defs(fn).get(v, ()):
                out |= self.fields(fn, d, seen)
        return out


class Roles:
    """which functions mark the object they are given, which trace it, and which rewrite a slot"""

    def __init__(self, P):
        self.P = P
        self.R = R = Resolver(P)
        heap = {k: f for k, f in P.fns.items() if f.file == "core/kos_heap.c"}
        # base roles
        rmw = {k for k, f in P.fns.items() if f.file == "inc/kos_atomic.h" and
               any(n["k"] == "atomic" and re.search("exchange|fetch", n["op"]) for n in f.nodes)}
        self.cas = set()       # functions that atomically set mark bits
        for k, f in heap.items():
            for n in f.nodes:
                if n["k"] == "atomic" and ("compare_exchange" in n["op"] or "fetch_or" in n["op"]):
                    if any(x[0] == "f" and x[2] == "bitmap" for x in R.fields(f, n["c"][0])):
                        self.cas.add(k)
                elif n["k"] == "call" and n.get("fn") in rmw:
                    if any(x[0] == "f" and x[2] == "bitmap" for x in R.fields(f, n["c"][1])):
                        self.cas.add(k)
        if not self.cas:
            raise ir.AnalysisBroken("no function sets mark bits in the collector")
        reach = lambda seed: P.closure(seed, lambda f: [c for _, c in f.calls if c and c in heap])
        cas_reach = reach(self.cas)
        self.shallow, self.sched, self.child, self.deep, self.reloc = set(), set(), set(), set(), set()
        pidx = {k: [i for i, p in enumerate(f.params) if is_ref_type(f.vars[p]["ctn"])] for k, f in heap.items()}
        def ref_ptr(t):
            t = t.replace(" const", "").strip()
            return t.endswith("*") and is_ref_type(t[:-1].strip())
        ptr = {k: [i for i, p in enumerate(f.params) if ref_ptr(f.vars[p]["ctn"])] for k, f in heap.items()}
        self.ptr = ptr
        for k, f in heap.items():
            for i in pidx[k]:
                # stores its argument into the work list
                for n in f.nodes:
                    if n["k"] == "asg":
                        if any(x[0] == "f" and x[1] == "KOS_MARK_GROUP_S" and x[2] == "objs" for x in R.fields(f, n["c"][0])) and \
                                ("p", i) in R.fields(f, n["c"][1]):
                            self.sched.add((k, i))
        # functions handing out the mark location of their argument
        def loc_of(k, depth=0):
            f = heap.get(k)
            return f is not None and "KOS_MARK_LOC_S" in f.ret
        for k, f in heap.items():
            if k not in cas_reach:
                continue
            for i in pidx[k]:
                for c, ck in f.calls:
                    if ck in heap and loc_of(ck) and any(("p", i) in R.fields(f, a) for a in f.nodes[c]["c"][1:]):
                        self.shallow.add((k, i))
        ch = True
        while ch:
            ch = False
            for k, f in heap.items():
                for i in pidx[k] + ptr[k]:
                    marks = scheds = False
                    for c, ck in f.calls:
                        if ck is None or ck not in heap:
                            continue
                        for j, a in enumerate(f.nodes[c]["c"][1:]):
                            if ("p", i) not in R.fields(f, a):
                                continue
                            if (ck, j) in self.shallow or (ck, j) in self.deep:
                                marks = True
                            if (ck, j) in self.sched or (ck, j) in self.child or (ck, j) in self.deep:
                                scheds = True
                    if marks and (k, i) not in self.shallow and i in pidx[k]:
                        self.shallow.add((k, i)); ch = True
                    if marks and scheds and (k, i) not in self.deep:
                        self.deep.add((k, i)); ch = True
                    if (k, i) not in self.child and i in pidx[k] and self.traces(f, i):
                        self.child.add((k, i)); ch = True
        # relocation
        for k, f in heap.items():
            for i in ptr[k]:
                st = rd = False
                for n in f.nodes:
                    if n["k"] == "asg":
                        m = f.nodes[n["c"][0]]
                        if m["k"] in ("un", "sub") and ("p", i) in R.fields(f, n["c"][0]):
                            st = True
                    if n["k"] == "mem" and n.get("f") == "size_and_type":
                        rd = True
                if st and rd:
                    self.reloc.add((k, i))
        ch = True
        while ch:
            ch = False
            for k, f in heap.items():
                for i in ptr[k]:
                    if (k, i) in self.reloc:
                        continue
                    for c, ck in f.calls:
                        if ck in heap and any((ck, j) in self.reloc and ("p", i) in R.fields(f, a)
                                              for j, a in enumerate(f.nodes[c]["c"][1:])):
                            self.reloc.add((k, i)); ch = True
                            break
        if not self.deep or not self.reloc:
            raise ir.AnalysisBroken("the collector's marking or relocation primitive was not recognised")

    def traces(self, f, i):
        """passes fields of the object given as parameter i to a marker"""
        for c, ck in f.calls:
            if ck is None:
                continue
            for j, a in enumerate(f.nodes[c]["c"][1:]):
                if (ck, j) in self.shallow or (ck, j) in self.deep:
                    for fld in self.base_params(f, a):
                        if fld == i:
                            return True
        return False

    def base_params(self, f, e, seen=None):
        """parameters through which the memory denoted by e is reached via a member access"""
        seen = seen or set()
        out = set()

        def walk(x, under):
            if x < 0 or (x, under) in seen:
                return
            seen.add((x, under))
            n = f.nodes[x]
            if n["k"] == "mem":
                walk(n["c"][0], True)
            elif n["k"] == "ref" and "var" in n:
                if n["var"] in f.params:
                    if under:
                        out.add(f.params.index(n["var"]))
                else:
                    for d in self.R.defs(f).get(n["var"], ()):
                        walk(d, under)
            else:
                for c in n.get("c", ()):
                    walk(c, under)
                    if n["k"] in ("bin", "sub"):
                        break
        walk(e, False)
        return out


BACKREF = ("KOS_HUGE_TRACKER_S", "@backref")
LISTS = ("local_list", "ulocal_list", "next", "main_thread", "threads")
FAILED = frozenset(("FAILED",))


class TraceInterp(Interp):
    """prop = (type constraint of the object being visited, slots handled so far)"""
    GROUPCAP = 20000
    CAP = 200

    def __init__(self, P, roles, slots, mode):
        self.roles, self.slots, self.mode = roles, slots, mode
        super().__init__(P)
        self.R = roles.R
        self.sites = {}
        self.tymin = "KOS_ENTITY_TYPE_E"
        vals = P.enums.get("KOS_ENTITY_TYPE_E")
        if not vals:
            raise ir.AnalysisBroken("object type enumeration not found")
        self.types = {v: n for n, v in vals["v"].items() if n not in ("OBJ_LAST_TYPE", "OBJ_LAST_POSSIBLE")}
        self.strref = P.enumvals.get("KOS_STRING_REF")
        self.ext = P.enumvals.get("KOS_EXTERNAL_STORAGE")

    def touches_exc_all(self):
        return set()

    def entry_prop(self, fn):
        return (None, frozenset())

    def prop_view(self, fn, prop, key):
        if self._other:
            return (None, frozenset())
        return (prop[0], frozenset())

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        t, f = st.prop
        t = t if self._other else oprop[0]
        if f == FAILED or oprop[1] == FAILED:
            return (t, FAILED)
        return (t, f | oprop[1])

    _other = False

    def credit(self, st, what):
        t, f = st.prop
        if f != FAILED and not what <= f:
            st.prop = (t, f | what)

    def call_hook(self, st, fn, nid, key, args):
        n = fn.nodes[nid]
        if key is None:
            return None
        R = self.R
        got = set()
        other = False
        for j, a in enumerate(n["c"][1:]):
            role = None
            if self.mode == "mark":
                if (key, j) in self.roles.deep:
                    role = "deep"
                elif (key, j) in self.roles.child:
                    role = "child"
                elif (key, j) in self.roles.shallow:
                    role = "shallow"
            elif (key, j) in self.roles.reloc:
                role = "reloc"
            if role is None:
                if self.mode == "reloc" and key in self.tracers:
                    # visiting another object's children
                    fl = R.fields(fn, a)
                    for x in fl:
                        if x[0] == "f" and x[1] == "KOS_HUGE_TRACKER_S":
                            got.add((x[1], x[2]))
                            other = True
                continue
            for x in R.fields(fn, a):
                if x[0] != "f":
                    continue
                other = True
                rec, f = x[1], x[2]
                if role == "child" and rec != "KOS_HUGE_TRACKER_S":
                    continue
                if role == "shallow" and not self.leaf(rec, f):
                    continue
                if role == "reloc" and self.local_addr(fn, a):
                    continue
                got.add((rec, f))
                self.sites.setdefault((rec, f), []).append(fn.loc(nid))
                got |= self.nested(rec, f)
        prim = {k for k, _ in (self.roles.deep | self.roles.shallow | self.roles.sched if self.mode == "mark" else self.roles.reloc)}
        if key in prim or (got and key in self.tracers):
            # verified on their own; here they either handle the slot or fail
            self.kill_memory(st.env, None)
            callee = self.P.fns[key]
            res = []
            if callee.ret == "void" or key not in {k for k, _ in self.roles.deep | self.roles.child | self.roles.sched}:
                res = [(st, TOP)]
            else:
                bad = st.copy()
                bad.prop = (bad.prop[0], FAILED)
                res = [(st, (0, None)), (bad, (frozenset((0,)), None))]
        else:
            old = self._other
            self._other = other
            try:
                res = self.default_call(st, fn, nid, key, args)
            finally:
                self._other = old
        if got:
            g = frozenset(got)
            for s, v in res:
                self.credit(s, g)
        return res

    def leaf(self, rec, f):
        """the slot only ever refers to an object without references of its own"""
        return (rec, f) == ("KOS_BUFFER_S", "data")

    def nested(self, rec, f):
        r = self.P.records.get(rec)
        if r is None:
            return set()
        for x in r["fields"]:
            if x["n"] == f and not is_ref_type(x["ctn"]) and "*" not in x["ctn"]:
                m = re.match(r"(?:struct|union) (\w+)", x["ctn"])
                if m:
                    return set(self.slots.of(m.group(1)))
        return set()

    def local_addr(self, fn, a):
        """the argument is the address of a local copy: credited where it is stored back"""
        n = fn.nodes[a]
        while n["k"] in ("cast", "load") and n.get("c"):
            n = fn.nodes[n["c"][0]]
        if n["k"] == "un" and n["op"] == "&":
            m = fn.nodes[n["c"][0]]
            return m["k"] == "ref" and "var" in m and m["var"] not in fn.params
        return False

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        k = n["k"]
        if k == "mem" and n.get("r") in ("KOS_THREAD_CONTEXT_S", "KOS_THREAD_MGMT_S"):
            if n["f"] in LISTS:
                self.credit(st, frozenset([("list", n["f"])]))
        if self.mode == "reloc" and k == "asg":
            m = fn.nodes[n["c"][0]]
            if m["k"] in ("un", "sub") and ("f", "KOS_HUGE_TRACKER_S", "object") in self.R.fields(fn, n["c"][0]):
                self.credit(st, frozenset([BACKREF]))
            if m["k"] == "mem" and m.get("r"):
                key = (m["r"], m["f"])
                if key in INTERIOR:
                    self.credit(st, frozenset([key]))
                elif any(x[0] == "f" and (x[1], x[2]) == key for x in self.R.fields(fn, n["c"][1])) and self.relocated_local(fn, n["c"][1]):
                    self.sites.setdefault(key, []).append(fn.loc(nid))
                    self.credit(st, frozenset([key]))
        return super().eval(st, fn, nid)

    def relocated_local(self, fn, e):
        n = fn.nodes[e]
        while n["k"] in ("cast", "load"):
            n = fn.nodes[n["c"][0]]
        if n["k"] != "ref" or "var" not in n:
            return False
        v = n["var"]
        for c, ck in fn.calls:
            for j, a in enumerate(fn.nodes[c]["c"][1:]):
                if (ck, j) in self.roles.reloc and self.local_addr(fn, a):
                    m = fn.nodes[a]
                    while m["k"] in ("cast", "load"):
                        m = fn.nodes[m["c"][0]]
                    if fn.nodes[m["c"][0]].get("var") == v:
                        return True
        return False

    # ---- conditions
    def type_node(self, fn, nid):
        n = fn.nodes[nid]
        d = 0
        while d < 6:
            if "t" in n and self.tymin in fn.types[n["t"]]:
                return True
            if n["k"] in ("cast", "load") and n.get("c"):
                n = fn.nodes[n["c"][0]]
            elif n["k"] == "ref":
                break
            else:
                break
            d += 1
        return False

    def refine_eq(self, st, fn, nid, c, eq):
        if self.type_node(fn, nid):
            t, f = st.prop
            if t is None:
                t = frozenset(self.types)
            t2 = (t & {c}) if eq else (t - {c})
            if not t2:
                return False
            st.prop = (t2, f)
        n = fn.nodes[nid]
        tn = fn.types[n["t"]] if "t" in n else ""
        if eq and c == 0 and tn.rstrip().endswith("*"):
            rec = rec_in_type(tn)
            if rec and rec != "KOS_ENTITY_PLACEHOLDER":
                self.credit(st, frozenset(self.slots.of(rec)))
        if eq and c == 1 and is_ref_type(tn):
            g = frozenset((x[1], x[2]) for x in self.R.fields(fn, nid) if x[0] == "f")
            if ("KOS_HUGE_TRACKER_S", "object") in g:
                g |= {BACKREF}
            if g:
                self.credit(st, g)
        # (ref & mask) == 1 : not tracked
        m = n
        while m["k"] == "cast":
            m = fn.nodes[m["c"][0]]
        if m["k"] == "bin" and m["op"] == "&":
            for a, b in (m["c"], m["c"][::-1]):
                mask = const_of(fn.nodes[b])
                if mask is None:
                    continue
                fl = frozenset((x[1], x[2]) for x in self.R.fields(fn, a) if x[0] == "f")
                if not fl:
                    continue
                if c == 1 and not eq and (self.mode == "reloc" or not mask & TRACK_BIT):
                    self.credit(st, fl)
                if c == 0 and eq and mask == 1:
                    self.credit(st, fl)
                if c == 0 and mask == self.strref and eq and any(x[1] == "flags" for x in fl):
                    self.credit(st, frozenset([("KOS_STRING_REF_S", "obj_id"), ("KOS_STRING_REF_S", "data_ptr")]))
                if c == 0 and mask == self.ext and not eq and any(x[1] == "flags" for x in fl):
                    self.credit(st, frozenset([("KOS_BUFFER_STORAGE_S", "ptr")]))
        return super().refine_eq(st, fn, nid, c, eq)

    def refine(self, st, fn, nid, want):
        n = fn.nodes[nid]
        return super().refine(st, fn, nid, want)

    # ---- loops: a walk over no elements has nothing to handle
    def leave_loop(self, st, fn, b):
        tok = ("loop", fn.key, b)
        if st.prop[1] == FAILED:
            return
        if tok not in st.prop[1]:
            self.credit(st, self.loop_slots(fn, b))
        st.prop = (st.prop[0], st.prop[1] - {tok})

    def loop_slots(self, fn, b):
        c = fn.cache.setdefault("loopslots" + self.mode, {})
        if b in c:
            return c[b]
        body, todo = set(), []
        for p in fn.preds.get(b, ()):
            if fn.rpoidx.get(p, -1) > fn.rpoidx[b]:
                body.add(p); todo.append(p)
        while todo:
            x = todo.pop()
            for p in fn.preds.get(x, ()):
                if p != b and p not in body and fn.rpoidx.get(p, -1) > fn.rpoidx[b]:
                    body.add(p); todo.append(p)
        out = set()
        for x in body:
            for e in fn.blocks[x]["e"]:
                n = fn.nodes[e]
                if n["k"] == "call" and n.get("fn"):
                    out |= self.call_slots(fn, e)
                elif n["k"] == "mem" and n.get("r") in ("KOS_THREAD_CONTEXT_S", "KOS_THREAD_MGMT_S") and n["f"] in LISTS:
                    out.add(("list", n["f"]))
        c[b] = frozenset(out)
        return c[b]

    def call_slots(self, fn, e, depth=0):
        n = fn.nodes[e]
        out = set()
        key = n["fn"]
        roles = (self.roles.deep | self.roles.shallow | self.roles.child) if self.mode == "mark" else self.roles.reloc
        for j, a in enumerate(n["c"][1:]):
            if (key, j) in roles:
                for x in self.R.fields(fn, a):
                    if x[0] == "f":
                        out.add((x[1], x[2]))
                        out |= self.nested(x[1], x[2])
        if depth < 3 and not out and key in self.P.fns and self.P.fns[key].file == "core/kos_heap.c" and key not in self.tracers:
            g = self.P.fns[key]
            for c, ck in g.calls:
                if ck:
                    out |= self.call_slots(g, c, depth + 1)
            for nn in g.nodes:
                if nn["k"] == "mem" and nn.get("r") in ("KOS_THREAD_CONTEXT_S", "KOS_THREAD_MGMT_S") and nn["f"] in ("local_list", "ulocal_list"):
                    out.add(("list", nn["f"]))
        if depth == 0:
            for nn in fn.nodes:
                if nn["k"] == "mem" and nn.get("r") == "KOS_THREAD_CONTEXT_S" and nn["f"] in ("local_list", "ulocal_list", "next"):
                    pass
        return out

    def enter_loop(self, st, fn, b):
        if st.prop[1] == FAILED:
            return
        st.prop = (st.prop[0], st.prop[1] | {("loop", fn.key, b)})


class PrimInterp(TraceInterp):
    """the primitives themselves: the given reference is handled, or is of a kind that needs no handling"""

    def __init__(self, P, roles, slots, mode, key, idx):
        super().__init__(P, roles, slots, mode)
        self.key, self.idx = key, idx
        self.tracers = set()

    def mine(self, fn, e):
        return fn.key == self.key and ("p", self.idx) in self.R.fields(fn, e)

    def call_hook(self, st, fn, nid, key, args):
        if key is None or key not in self.P.fns:
            return None
        r = self.roles
        n = fn.nodes[nid]
        got, role = set(), False
        for j, a in enumerate(n["c"][1:]):
            if not self.mine(fn, a):
                continue
            if self.mode == "mark":
                if (key, j) in r.deep:
                    got |= {"mark", "trace"}
                elif (key, j) in r.shallow:
                    got.add("mark")
                if (key, j) in r.sched or (key, j) in r.child:
                    got.add("trace")
            elif (key, j) in r.reloc:
                got.add("store")
        if self.mode == "mark" and key in r.cas:
            got.add("mark")
        callee = self.P.fns[key]
        role = any(x == key for s in (r.deep, r.shallow, r.sched, r.child, r.reloc) for x, _ in s) or key in r.cas
        if not role:
            return None
        self.kill_memory(st.env, None)
        if callee.ret == "int" and any(x == key for s in (r.deep, r.sched, r.child) for x, _ in s):
            bad = st.copy()
            bad.prop = (bad.prop[0], FAILED)
            res = [(st, (0, None)), (bad, (frozenset((0,)), None))]
        else:
            res = [(st, (None, "shallow-result"))]
        for s, v in res:
            self.credit(s, frozenset(got))
        return res

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        if fn.key == self.key and n["k"] == "asg":
            l = n["c"][0]
            m = fn.nodes[l]
            if self.mode == "reloc" and m["k"] in ("un", "sub") and ("p", self.idx) in self.R.fields(fn, l):
                self.credit(st, frozenset(["store"]))
            if self.mode == "mark" and any(x[0] == "f" and x[1] == "KOS_MARK_GROUP_S" and x[2] == "objs" for x in self.R.fields(fn, l)) and self.mine(fn, n["c"][1]):
                self.credit(st, frozenset(["trace"]))
        return Interp.eval(self, st, fn, nid)

    def refine_eq(self, st, fn, nid, c, eq):
        n = fn.nodes[nid]
        m = n
        while m["k"] == "cast":
            m = fn.nodes[m["c"][0]]
        about = lambda e: self.mine(fn, e) or (self.mode == "reloc" and any(x[0] == "f" and x[2] == "size_and_type" for x in self.R.fields(fn, e)))
        if fn.key == self.key:
            if eq and c == 1 and m["k"] in ("load", "ref") and about(nid):
                self.credit(st, frozenset(["exempt"]))
            if eq and c == 0 and self.val(st, fn, nid)[1] == "shallow-result":
                self.credit(st, frozenset(["already"]))
            if m["k"] == "bin" and m["op"] == "&":
                for a, b in (m["c"], m["c"][::-1]):
                    mask = const_of(fn.nodes[b])
                    if mask is not None and about(a):
                        if c == 1 and not eq and (self.mode == "reloc" or not mask & TRACK_BIT):
                            self.credit(st, frozenset(["exempt"]))
                        if c == 0 and eq and mask == 1:
                            self.credit(st, frozenset(["exempt"]))
        return Interp.refine_eq(self, st, fn, nid, c, eq)

    def enter_loop(self, st, fn, b):
        pass

    def leave_loop(self, st, fn, b):
        pass


def check_primitives(P, roles, slots, reports, cov):
    n = 0
    for mode, sets in (("mark", (("deep", roles.deep), ("shallow", roles.shallow), ("sched", roles.sched))), ("reloc", (("reloc", roles.reloc),))):
        for what, pairs in sets:
            for key, idx in sorted(pairs):
                if what == "shallow" and (key, idx) in roles.deep:
                    continue
                fn = P.fns[key]
                I = PrimInterp(P, roles, slots, mode, key, idx)
                n += 1
                for o in I.run_function(fn, (CLEAR, (None, frozenset()), ())):
                    c = o.prop[1]
                    if c == FAILED:
                        if o.num == 0:
                            reports.append(dict(file=fn.file, function=fn.name, line=fn.line, rule="failure-lost", path=[],
                                                msg="%s reports success although it failed" % fn.name))
                        continue
                    if "exempt" in c:
                        continue
                    if what == "sched" and o.num is not None and o.num != 0:
                        continue
                    ok = {"deep": "mark" in c and ("trace" in c or "already" in c), "shallow": "mark" in c,
                          "sched": "trace" in c, "reloc": "store" in c}[what]
                    if not ok:
                        reports.append(dict(file=fn.file, function=fn.name, line=fn.line, rule="primitive", path=[],
                                            msg="%s can return without having %s the object it is given" % (
                                                fn.name, {"deep": "marked and scheduled", "shallow": "marked", "sched": "scheduled", "reloc": "updated the reference to"}[what])))
    cov["primitives_checked"] = n


INTERIOR = {("KOS_BUFFER_STORAGE_S", "ptr"), ("KOS_STRING_REF_S", "data_ptr")}


def record_of_type(P, tyname):
    n = tyname[4:]
    for cand in ("KOS_%s_S" % n, "KOS_%s_U" % n):
        if cand in P.records:
            return cand
    return None


def run(P):
    slots = Slots(P)
    roles = Roles(P)
    reports = []
    cov = {"marking_primitives": sorted({k for k, _ in roles.deep}), "relocation_primitives": sorted({k for k, _ in roles.reloc}),
           "object_kinds": {}, "root_slots": 0, "functions": 0}
    # slots that are ever given an object
    stored = stored_slots(P, slots)
    heap_recs = {}
    types = {n: v for n, v in P.enums["KOS_ENTITY_TYPE_E"]["v"].items() if n not in ("OBJ_LAST_TYPE", "OBJ_LAST_POSSIBLE")}
    for n, v in types.items():
        r = record_of_type(P, n)
        heap_recs[v] = (n, r, slots.of(r) if r else set())
    heap_recs_names = {r for _, r, _ in heap_recs.values() if r}
    if len([1 for x in heap_recs.values() if x[2]]) < 8:
        raise ir.AnalysisBroken("object kinds with references not recognised")
    root_recs = ["KOS_INSTANCE_S", "KOS_THREAD_S", "KOS_THREAD_CONTEXT_S"]
    roots = set()
    for r in root_recs:
        if r not in P.records:
            raise ir.AnalysisBroken("record %s not found" % r)
        roots |= slots.of(r)
    roots |= {("KOS_LOCAL_S", "o")}
    unused = {s for s in roots if s not in stored and s != ("KOS_LOCAL_S", "o")}
    roots -= unused
    cov["root_slots"] = len(roots)
    cov["never_assigned_slots"] = sorted("%s.%s" % s for s in unused)
    lists = {("list", "local_list"), ("list", "ulocal_list"), ("list", "next"), ("list", "main_thread"), ("list", "threads")}
    heapf = [f for f in P.fns.values() if f.file == "core/kos_heap.c"]
    for mode in ("mark", "reloc"):
        I = TraceInterp(P, roles, slots, mode)
        I.tracers = set()
        prim = {k for k, _ in (roles.deep | roles.sched | roles.shallow if mode == "mark" else roles.reloc)}
        prim_leaf = prim - {k for k, _ in roles.child}
        # functions that hand slots to the primitives
        uses = {}
        for f in heapf:
            s = set()
            for c, ck in f.calls:
                if ck:
                    for j, a in enumerate(f.nodes[c]["c"][1:]):
                        if mode == "mark" and ((ck, j) in roles.deep or (ck, j) in roles.shallow) or mode == "reloc" and (ck, j) in roles.reloc:
                            s |= {(x[1], x[2]) for x in roles.R.fields(f, a) if x[0] == "f"}
            uses[f.key] = s
        direct = {k for k, s in uses.items() if s}
        trans = {}
        def total(k, stack=()):
            if k in trans:
                return trans[k]
            if k in stack:
                return set()
            s = set(uses.get(k, ()))
            for _, c in P.fns[k].calls:
                if c in uses:
                    s |= total(c, stack + (k,))
            if not stack:
                trans[k] = s
            return s
        tot = {f.key: total(f.key) for f in heapf}
        kinds = {s[0] for v in heap_recs.values() for s in v[2]}
        # the dispatcher over object kinds: the smallest functions which cover most kinds' slots
        allheap = set().union(*[v[2] for v in heap_recs.values()])
        disp = minimal_cover(P, uses, tot, allheap, 0.8, heapf)
        rootf = minimal_cover(P, uses, tot, roots, 0.8, heapf)
        if not disp or not rootf:
            raise ir.AnalysisBroken("no %s function covering the object kinds or the roots was found" % mode)
        I.tracers = set(disp)
        # object kinds
        for k in disp:
            fn = P.fns[k]
            outs = I.analyse(fn, (CLEAR, (None, frozenset()), ()))
            cov["functions"] += 1
            for o in outs:
                if o.prop[1] == FAILED:
                    if o.num == 0 or fn.ret == "void":
                        reports.append(dict(file=fn.file, function=fn.name, line=fn.line, rule="failure-lost",
                                            msg="%s reports success after the collector failed to follow a reference" % fn.name, path=[]))
                    continue
                t, done = o.prop
                for ty in (t if t is not None else frozenset(heap_recs)):
                    if ty not in heap_recs:
                        continue
                    name, rec, need = heap_recs[ty]
                    need = set(need)
                    if mode == "reloc" and rec == "KOS_STRING_U":
                        need.add(("KOS_STRING_REF_S", "data_ptr"))
                    if mode == "reloc" and name == "OBJ_HUGE_TRACKER":
                        need.add(BACKREF)
                    if mode == "reloc" and name == "OBJ_BUFFER_STORAGE":
                        need.add(("KOS_BUFFER_STORAGE_S", "ptr"))
                    cov["object_kinds"].setdefault(name, {})[mode] = len(need)
                    for s in sorted(need - done):
                        reports.append(dict(file=fn.file, function=fn.name, line=fn.line, rule="slot-not-" + ("followed" if mode == "mark" else "rewritten"),
                                            msg="an object of kind %s can pass through %s without its slot %s.%s being %s" % (
                                                name, fn.name, s[0], s[1], "followed" if mode == "mark" else "rewritten"), path=[]))
        # roots
        for k in rootf:
            fn = P.fns[k]
            outs = I.analyse(fn, (CLEAR, (None, frozenset()), ()))
            cov["functions"] += 1
            for o in outs:
                if o.prop[1] == FAILED:
                    if o.num == 0 or fn.ret == "void":
                        reports.append(dict(file=fn.file, function=fn.name, line=fn.line, rule="failure-lost",
                                            msg="%s reports success after the collector failed to follow a reference" % fn.name, path=[]))
                    continue
                for s in sorted((roots | lists) - o.prop[1]):
                    reports.append(dict(file=fn.file, function=fn.name, line=fn.line, rule="root-not-" + ("followed" if mode == "mark" else "rewritten"),
                                        msg="the collector can pass through %s without %s %s.%s being %s" % (
                                            fn.name, "the root" if s[0] != "list" else "walking", s[0], s[1], "followed" if mode == "mark" else "rewritten"), path=[]))
        # element ranges
        for f in heapf:
            for c, ck in f.calls:
                if ck is None:
                    continue
                for j, a in enumerate(f.nodes[c]["c"][1:]):
                    if mode == "mark" and ((ck, j) in roles.deep) or mode == "reloc" and (ck, j) in roles.reloc:
                        for msg in range_defects(P, roles.R, f, a):
                            reports.append(dict(file=f.file, function=f.name, line=f.nodes[c].get("l", f.line), rule="partial-walk", msg=msg, path=[]))
        for f in heapf:
            if uses[f.key]:
                early_exits(P, roles.R, f, reports, mode)
        cov[mode + "_dispatchers"] = sorted(disp)
        cov[mode + "_root_functions"] = sorted(rootf)
        cov[mode + "_sites"] = sum(len(set(v)) for v in I.sites.values())
        need_sites = len(allheap | roots)
        if cov[mode + "_sites"] < need_sites // 2:
            raise ir.AnalysisBroken("only %d %s sites recognised" % (cov[mode + "_sites"], mode))
    check_primitives(P, roles, slots, reports, cov)
    uniq = {}
    for r in reports:
        uniq.setdefault((r["rule"], r["msg"]), r)
    return list(uniq.values()), cov


def minimal_cover(P, uses, tot, need, frac, heapf):
    ok = {f.key for f in heapf if len(tot[f.key] & need) >= frac * len(need)}
    res = []
    for k in ok:
        if not any(c in ok and c != k for _, c in P.fns[k].calls):
            res.append(k)
        elif uses[k] & need and len(uses[k] & need) >= frac * len(need):
            res.append(k)
    return sorted(set(res))


def stored_slots(P, slots):
    R = Resolver(P)
    out = set()
    for fn in P.fns.values():
        for n in fn.nodes:
            if n["k"] == "asg":
                m = fn.nodes[n["c"][0]]
                if m["k"] == "sub":
                    m2 = fn.nodes[m["c"][0]]
                    while m2["k"] in ("decay", "load", "cast"):
                        m2 = fn.nodes[m2["c"][0]]
                    m = m2
                if m["k"] == "mem" and m.get("r"):
                    if const_of(fn.nodes[n["c"][1]]) != 1:
                        out.add((m["r"], m["f"]))
            elif n["k"] == "un" and n["op"] == "&" or n["k"] == "atomic":
                m = fn.nodes[n["c"][0]]
                if m["k"] == "un":
                    m = fn.nodes[m["c"][0]]
                if m["k"] == "mem" and m.get("r"):
                    if fn.file != "core/kos_heap.c":
                        out.add((m["r"], m["f"]))
    return out


def range_defects(P, R, fn, a):
    """a walk over an object's slots which visibly starts late or stops early"""
    n = fn.nodes[a]
    # find the walking variable
    vs = set()
    def walk(x):
        m = fn.nodes[x]
        if m["k"] == "ref" and "var" in m and m["var"] not in fn.params:
            vs.add(m["var"])
        for c in m.get("c", ()):
            if c >= 0:
                walk(c)
    walk(a)
    out = []
    for v in vs:
        inc = any(m["k"] == "un" and m["op"] in ("++", "--") and fn.nodes[m["c"][0]].get("var") == v or
                  m["k"] == "casg" and fn.nodes[m["c"][0]].get("var") == v for m in fn.nodes)
        if not inc:
            continue
        for m in fn.nodes:
            if m["k"] == "casg" and fn.nodes[m["c"][0]].get("var") == v:
                k = const_of(fn.nodes[m["c"][1]])
                if k is not None and k not in (1, -1):
                    out.append("the walk skips elements (step %d)" % k)
        name = fn.vars[v]["n"]
        for d in R.defs(fn).get(v, ()):
            off = start_offset(fn, d)
            if off:
                out.append("the walk over '%s' starts at element %d" % (name, off))
        for m in fn.nodes:
            if m["k"] == "bin" and m["op"] in ("<", "!=", ">", "<=", ">="):
                for x, y in (m["c"], m["c"][::-1]):
                    q = fn.nodes[x]
                    while q["k"] in ("load", "cast"):
                        q = fn.nodes[q["c"][0]]
                    if q["k"] == "ref" and q.get("var") == v:
                        s = minus_const(R, fn, y)
                        if s:
                            out.append("the walk over '%s' stops %d element(s) early" % (name, s))
                        recs = {f[1] for f in R.fields(fn, a) if f[0] == "f"}
                        fl = bound_fields(R, fn, y)
                        for owner, elems, counts in WALK_BOUNDS:
                            if recs & elems:
                                wrong = {f for r_, f in fl if r_ == owner and f not in counts and f not in ("buf", "items")}
                                if wrong and not any(r_ == owner and f in counts for r_, f in fl):
                                    out.append("the walk over '%s' is bounded by %s instead of %s" % (name, ", ".join(sorted(wrong)), "/".join(sorted(counts))))
    return out


# number of initialised reference slots of the variable-size records
WALK_BOUNDS = [("KOS_OBJECT_STORAGE_S", {"KOS_OBJECT_STORAGE_S", "KOS_PITEM_S"}, {"capacity"}),
               ("KOS_ARRAY_STORAGE_S", {"KOS_ARRAY_STORAGE_S"}, {"capacity"}),
               ("KOS_STACK_S", {"KOS_STACK_S"}, {"size"})]


def bound_fields(R, fn, y, depth=0, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if y < 0 or y in seen or depth > 30:
        return out
    seen.add(y)
    n = fn.nodes[y]
    if n["k"] == "mem":
        out.add((n.get("r"), n["f"]))
        return out
    if n["k"] == "ref" and "var" in n and n["var"] not in fn.params:
        for d in R.defs(fn).get(n["var"], ()):
            out |= bound_fields(R, fn, d, depth + 1, seen)
    for c in n.get("c", ()):
        out |= bound_fields(R, fn, c, depth + 1, seen)
    return out


def early_exits(P, R, fn, reports, what):
    """a walk over the thread table or the thread list which a missing element ends early"""
    for h in fn.rpo:
        backs = [p for p in fn.preds.get(h, ()) if fn.rpoidx.get(p, -1) >= fn.rpoidx[h]]
        if not backs:
            continue
        body, todo = {h}, list(backs)
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo += [p for p in fn.preds.get(x, ()) if fn.rpoidx.get(p, -1) > fn.rpoidx[h]]
        if not any(fn.nodes[e]["k"] == "mem" and fn.nodes[e].get("r") == "KOS_THREAD_MGMT_S" and fn.nodes[e]["f"] == "threads"
                   for b in body for e in fn.blocks[b]["e"]):
            continue
        for b in body:
            bl = fn.blocks[b]
            cond = bl.get("tc")
            if len(bl["s"]) != 2 or cond is None or cond < 0:
                continue
            out = [i for i, s in enumerate(bl["s"]) if s >= 0 and s not in body]
            if len(out) != 1:
                continue
            c = fn.nodes[cond]
            neg = False
            while True:
                if c["k"] == "un" and c["op"] == "!":
                    neg = not neg
                elif c["k"] not in ("cast", "load"):
                    break
                c = fn.nodes[c["c"][0]]
            if c["k"] == "bin" and c["op"] in ("==", "!="):
                neg ^= c["op"] == "=="
                c = fn.nodes[c["c"][0]]
                while c["k"] in ("cast", "load"):
                    c = fn.nodes[c["c"][0]]
            if c["k"] == "ref" and "var" in c and "KOS_THREAD_S" in fn.vars[c["var"]]["ctn"]:
                null_edge = 0 if neg else 1
                if out[0] == null_edge:
                    reports.append(dict(file=fn.file, function=fn.name, line=c.get("l", fn.line), rule="partial-walk", path=[],
                                        msg="the walk over the threads (%s) ends at the first free entry" % what))


def start_offset(fn, d):
    n = fn.nodes[d]
    while n["k"] in ("cast", "load", "decay") or n["k"] == "un" and n["op"] == "&":
        n = fn.nodes[n["c"][0]]
    if n["k"] == "sub":
        return const_of(fn.nodes[n["c"][1]]) or 0
    if n["k"] == "bin" and n["op"] == "+":
        return const_of(fn.nodes[n["c"][1]]) or 0
    if n["k"] == "lit":
        return const_of(n) or 0
    return 0


def minus_const(R, fn, y, depth=0):
    n = fn.nodes[y]
    if depth > 6:
        return 0
    if n["k"] in ("load", "cast"):
        return minus_const(R, fn, n["c"][0], depth + 1)
    if n["k"] == "bin" and n["op"] == "-":
        k = const_of(fn.nodes[n["c"][1]])
        return k or 0
    if n["k"] == "bin" and n["op"] == "+":
        return minus_const(R, fn, n["c"][0], depth + 1) or minus_const(R, fn, n["c"][1], depth + 1)
    if n["k"] == "ref" and "var" in n and n["var"] not in fn.params:
        for d in R.defs(fn).get(n["var"], ()):
            k = minus_const(R, fn, d, depth + 1)
            if k:
                return k
    return 0
