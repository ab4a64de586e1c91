"""Temporary roots: every root a function registers is unregistered, in reverse order, before it returns.

The property state is (popped, pushed): the roots of the caller this function unregistered and the stack
of roots it registered itself, most recent first; each root is the access path of the local variable.
Helpers which register or unregister roots on behalf of their caller get their effect transferred to
the caller's own variables at the call."""
from absint import *
from absint import _base
from errflow import ErrInterp

EMPTY = ((), ())
LOST = "lost"         # a root which cannot be named was (un)registered: nothing is claimed from here on


class RootInterp(ErrInterp):
    name = "roots"
    CHECK_PENDING = True
    API = {"KOS_init_local_with", "KOS_init_locals", "KOS_destroy_top_local", "KOS_destroy_top_locals",
           "KOS_init_ulocal", "KOS_destroy_ulocal"}
    RULES = {"root-left", "root-order", "root-twice", "root-lost"}

    def __init__(self, prog):
        super().__init__(prog)
        self.sites = {}
        P = prog
        self.touch_roots = P.closure(set(self.API), lambda f: [c for _, c in f.calls if c])

    def entry_prop(self, fn):
        return EMPTY

    def prop_view(self, fn, prop, key):
        return EMPTY

    def target(self, args, i):
        if i < len(args):
            tag = args[i][1]
            if type(tag) is tuple and tag and tag[0] == "&" and not tag[1].endswith("[?]"):
                return tag[1][:-2] + "[0]" if tag[1].endswith("[]") else tag[1]
        return None

    def prop_back(self, st, oprop, key, fn=None, nid=None, args=()):
        if oprop == EMPTY:
            return st.prop
        if oprop == LOST:
            return LOST
        callee = self.P.fns[key]
        m = {}
        for i, p in enumerate(callee.params):
            t = self.target(args, i)
            if t is not None:
                m["%d->*" % p] = t
        popped, pushed = [], []
        for src, dst in ((oprop[0], popped), (oprop[1], pushed)):
            for x in src:
                b = x.split("->*")[0] + "->*"
                if b not in m:
                    self.report(fn, nid, "root-lost", "%s leaves its own temporary root registered" % callee.name, st)
                    return LOST
                dst.append(m[b] + x[len(b):])
        for x in popped:
            self.pop(st, fn, nid, x)
        for x in reversed(pushed):
            self.push(st, fn, nid, x)
        return st.prop

    @staticmethod
    def disp(fn, x):
        b = _base(x)
        return fn.vars[int(b)]["n"] + x[len(b):].replace("->*", "").replace("[0]", "[0]") if b else x

    def push(self, st, fn, nid, x):
        if st.prop == LOST:
            return
        if x is None:
            st.prop = LOST
            self.lost.add(fn.key)
            return
        if x in st.prop[1]:
            self.report(fn, nid, "root-twice", "registers the temporary root %s which is still registered" % self.disp(fn, x), st)
            st.prop = LOST
            return
        st.prop = (st.prop[0], (x,) + st.prop[1])

    def pop(self, st, fn, nid, x):
        if st.prop == LOST:
            return
        popped, pushed = st.prop
        if x is None:
            st.prop = LOST
            self.lost.add(fn.key)
        elif not pushed and "->*" in x:
            st.prop = (popped + (x,), pushed)
        elif not pushed:
            self.report(fn, nid, "root-order", "unregisters %s which is not a registered temporary root" % self.disp(fn, x), st)
            st.prop = LOST
        elif pushed[0] != x:
            self.report(fn, nid, "root-order", "unregisters %s while %s is the most recently registered temporary root"
                        % (self.disp(fn, x), self.disp(fn, pushed[0])), st)
            st.prop = LOST
        else:
            st.prop = (popped, pushed[1:])

    lost = set()

    def builtin(self, st, fn, nid, key, args):
        if key in self.API:
            self.sites[(fn.key, nid)] = 1
            if key == "KOS_init_local_with":
                self.push(st, fn, nid, self.target(args, 1))
            elif key == "KOS_init_locals":
                for i in range(len(args) - 1, 0, -1):
                    if args[i][0] == 0:
                        continue
                    self.push(st, fn, nid, self.target(args, i))
            elif key == "KOS_destroy_top_local":
                self.pop(st, fn, nid, self.target(args, 1))
            elif key == "KOS_destroy_top_locals":
                a, b = self.target(args, 1), self.target(args, 2)
                r = super().builtin(st, fn, nid, key, args)
                if st.prop != LOST:
                    if a is None or b is None:
                        st.prop = LOST
                        self.lost.add(fn.key)
                    elif b in st.prop[1] and st.prop[1][0] == a:
                        k = st.prop[1].index(b)
                        st.prop = (st.prop[0], st.prop[1][k + 1:])
                    elif not st.prop[1] and "->*" in a and "->*" in b:
                        st.prop = LOST
                        self.lost.add(fn.key)
                    else:
                        top = st.prop[1][0] if st.prop[1] else None
                        self.report(fn, nid, "root-order", "unregisters the roots from %s to %s, but %s" % (
                            self.disp(fn, a), self.disp(fn, b),
                            "none is registered" if top is None else
                            "%s is the most recently registered" % self.disp(fn, top) if top != a else "%s is not registered" % self.disp(fn, b)), st)
                        st.prop = LOST
                return r
        return super().builtin(st, fn, nid, key, args)

    def eval(self, st, fn, nid):
        n = fn.nodes[nid]
        if n["k"] == "decl" and st.prop not in (EMPTY, LOST):
            for var, init in n.get("dv", ()):
                for x in st.prop[1]:
                    if _base(x) == str(var) and "->*" not in x:
                        self.report(fn, nid, "root-left", "%s goes out of scope while it is still registered as a temporary root" % self.disp(fn, x), st)
                        st.prop = LOST
                        break
                if st.prop == LOST:
                    break
        return super().eval(st, fn, nid)

    def on_return(self, st, fn, nid, val):
        super().on_return(st, fn, nid, val)
        if st.prop == LOST or fn.key in self.API:
            return
        left = [x for x in st.prop[1] if "->*" not in x]
        if left:
            self.report(fn, nid, "root-left", "returns with %s still registered as temporary root%s" % (
                ", ".join(self.disp(fn, x) for x in left), "s" if len(left) > 1 else ""), st)
            st.prop = LOST


def run(P):
    I = RootInterp(P)
    I.run_all()
    reps = [r for r in I.reports.values() if r["rule"] in I.RULES]
    return reps, dict(functions_analysed=len({k for k, _ in I.summaries}), root_operations=len(I.sites), contexts=I.contexts,
                      abstract_states=I.stats["states"], functions_given_up=sorted(I.lost), functions_with_roots=len({k for k, _ in I.sites}))
