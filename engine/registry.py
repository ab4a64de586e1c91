"""The checks: which analysis decides which property."""
import ir


def _err(P):
    import errflow
    I = errflow.ErrInterp(P)
    I.run_all()
    return I


def c04(P):
    I = _err(P)
    reps = [r for r in I.reports.values() if r["rule"] != "null-deref"]
    return reps, dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, abstract_states=I.stats["states"],
                      call_sites=I.stats["calls"], contracted_functions=len(I.contracted), raising_functions=len(I.raisers))


def c18(P):
    I = _err(P)
    reps = [r for r in I.reports.values() if r["rule"] == "null-deref"]
    return reps, dict(functions_analysed=len({k for k, _ in I.summaries}), contexts=I.contexts, abstract_states=I.stats["states"],
                      call_sites=I.stats["calls"], allocating_functions=len(I.allocating))


def c02(P):
    import gctrace
    return gctrace.run(P)


CHECKS = {
    "C02": dict(run=c02, min=dict(mark_sites=40, reloc_sites=40, root_slots=20),
                rule="every reference slot of every object kind, thread and instance record is passed to the marking (resp. relocation) primitive on every path through the collector's tracing functions",
                explanation="Path-sensitive effect analysis of the collector: reference slots are read off the record definitions, every path of the tracing functions is followed per object kind and the slots handed to the marking / relocation primitives are collected."),
    "C04": dict(run=c04, min=dict(contracted_functions=150, raising_functions=250, functions_analysed=500),
                rule="on every path: failure result <=> exception pending; nothing that may raise is called with an exception pending",
                explanation="Interprocedural path-sensitive abstract interpretation with per-function outcome summaries (result value x pending exception)."),
    "C18": dict(run=c18, min=dict(allocating_functions=200, functions_analysed=500),
                rule="no path dereferences a null result of a failed allocation or failed access",
                explanation="Same abstract interpretation as C04; every dereference of a pointer whose value on that path is a failure result is reported."),
}


def c03(P):
    import roots
    return roots.run(P)


CHECKS["C03"] = dict(run=c03, min=dict(root_operations=250, functions_with_roots=120),
                     rule="on every path the temporary roots a function registers are unregistered in reverse order before it returns or the variable leaves its scope",
                     explanation="Typestate analysis of the root list on every path of every function, on top of the failure-aware path-sensitive interpreter.")


def c01(P):
    import gcsafe
    return gcsafe.run(P)


CHECKS["C01"] = dict(run=c01, min=dict(collecting_functions=400, root_operations=250, uses_checked=50000),
                     rule="no native variable or temporary which refers to a movable heap object is used after a point at which a collection may have moved the object, unless the collector knows the variable",
                     explanation="Path-sensitive staleness analysis over all functions: collection points are propagated through call summaries; every unregistered reference is out of date after one.")


def _mod(name):
    def run(P):
        return __import__(name).run(P)
    return run


CHECKS["C05"] = dict(run=_mod("suspend"), min=dict(waiting_call_sites=25, suspend_resume_sites=100, functions_needing_a_running_thread=300),
                     rule="a call which may wait is only made while the thread stands aside for the collector, suspend and resume alternate on every path, and no object is used in between",
                     explanation="Path-sensitive typestate analysis of every function with a suspend, resume or waiting operation, following helpers which change the state on behalf of their caller.")
CHECKS["C06"] = dict(run=_mod("locks"), min=dict(lock_operations=60, lock_order_edges=4),
                     rule="every native mutex is released on every path, never locked again by its holder, locked in one global order, and not held at a point where a collection may wait for other threads",
                     explanation="Path-sensitive lockset analysis with transitive lock-order graph.")
CHECKS["C11"] = dict(run=_mod("resources"), min=dict(acquisition_sites=60, release_sites=20),
                     rule="every native resource (memory, file, descriptor, directory, address list, reference) acquired on a path is released exactly once or handed over before the function returns",
                     explanation="Path-sensitive ownership analysis with per-function transfer summaries.")
CHECKS["C14"] = dict(run=_mod("types_"), min=dict(builtin_functions=120, typed_uses=500),
                     rule="a value a program supplied is used as an object of one type only on paths on which its type was established",
                     explanation="Path-sensitive type-set analysis of every value which comes from a program (this, arguments, elements, properties, results of calls, iterated values), following the values into callees.")
CHECKS["C15"] = dict(run=_mod("numeric"), min=dict(divisions=8, shifts=8, conversions=6, narrowings=30),
                     rule="on every path, the operands of an integer division, a shift by a 64-bit count, a conversion of a floating-point number to an integer, and a cut of an integer received from the program to fewer bits are in the range in which the operation is defined",
                     explanation="Path-sensitive interval analysis (with NaN and excluded values) from the comparisons on each path, through helpers and kept test results.")
CHECKS["C20"] = dict(run=_mod("guarded"), min=dict(guarded_accesses=60, wake_duties=3, counter_updates=0),
                     rule="on every path, a field guarded by a mutex is used only while it is held (or while no other thread can run), an unguarded shared counter or handle is changed in one atomic step, and the change a waiting thread waits for is followed by waking it",
                     explanation="Path-sensitive lockset analysis of every access to the guarded fields, with locks taken and released by helpers, and pending wake-ups followed through helpers to the function's end.")
CHECKS["C10"] = dict(run=_mod("readonly"), min=dict(writes_checked=30, flag_tests=12),
                     rule="on every path, a write to the size, storage or contents of an array or buffer is preceded by a test that the same container is not read-only, unless it was created there",
                     explanation="Path-sensitive analysis of every function which writes to a container or hands out its memory; the container a pointer belongs to is found through the variables it was obtained from; duties of helpers are passed to their callers.")
