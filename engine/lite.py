"""A light path-sensitive interpreter for local typestate properties: only functions which matter for the
property (those from which one of its operations can be reached) are followed into; the result of any
other call is unknown, and whatever the call may write is forgotten."""
from absint import *
from absint import _base
import ir, os, pickle, sys


class Lite(Interp):
    RULES = set()
    CAP = 6
    GROUPCAP = 300

    def __init__(self, prog):
        super().__init__(prog)
        self.touches_exc = set()
        self.relevant = set()
        self.sites = {}
        self.by_type = {}
        for k in prog.addr_taken:
            f = prog.fns.get(k)
            if f is not None:
                self.by_type.setdefault(tuple(f.vars[p]["ctn"] for p in f.params), []).append(f)

    def reach(self, names):
        """functions from which one of the operations can be reached through direct calls"""
        P = self.P
        names = set(names)
        seeds = {k for k, f in P.fns.items() if any(c in names for _, c in f.calls)}
        return P.closure(seeds, lambda f: [c for _, c in f.calls if c]) | (names & set(P.fns))

    def default_call(self, st, fn, nid, key, args):
        if key in self.P.noreturn:
            return []
        n = fn.nodes[nid]
        callee = self.P.fns.get(key)
        if callee is None or key not in self.relevant:
            base = self.builtin(st, fn, nid, key, args)
            if base is not None:
                return base
            if callee is not None:
                self.kill_memory(st.env, self.mod.get(key))
                self.out_effects(st, fn, nid, key, args, n)
                return self.unknown_call(st, fn, nid, key, args)
            self.out_effects(st, fn, nid, key, args, n)
            return self.extern_call(st, fn, nid, key, args)
        return super().default_call(st, fn, nid, key, args)

    def unknown_call(self, st, fn, nid, key, args):
        return [(st, TOP)]

    def indirect_call(self, st, fn, nid, cal, args):
        self.out_effects(st, fn, nid, None, args, fn.nodes[nid])
        self.kill_memory(st.env, None)
        return [(st, TOP)]

    def is_root(self, fn):
        return not fn.static or fn.key in self.P.addr_taken or fn.key not in self.P.callers

    def reset(self):
        self.summaries.clear()
        self.reports.clear()
        self.sites.clear()
        self._finished.clear()
        self._dirty.clear()
        self._deps.clear()

    def entry(self, fn):
        return self.entry_prop(fn)

    def targets(self):
        return [fn for k, fn in sorted(self.P.fns.items()) if k in self.relevant and self.is_root(fn)]

    def run_all(self):
        self.checking = False
        for fn in self.targets():
            self.analyse(fn, (None, self.entry(fn), ()))
        self.settle()
        self.checking = True
        for k, ek in sorted(self.summaries, key=repr):
            self.run_function(self.P.fns[k], ek)
        self.contexts = len(self.summaries)

    def findings(self):
        return [r for r in sorted(self.reports.values(), key=lambda r: (r["file"], r["line"], r["rule"], r["msg"])) if r["rule"] in self.RULES]
