"""An error in the background reaches the caller: every exception raised while the dataset is read or decoded is
reported by the next read that would otherwise have to report the end, and by every read after it until a reset.

Exceptions are followed from the node bodies through the thread's entry point (no path may let one escape or swallow
one) into the state that the caller's read path tests."""
from pipeline import *
from absint import show
from checks.c03 import val

ASSUMPTIONS = ["TBB rethrows an exception of a node body from wait_for_all and cancels the graph."]


def run(ck):
    m = ck.model("core")
    p = Pipe(ck, m)
    idle = idle_value(p)
    ck.need(idle and p.exc, "the reader's state and stored exception")
    SL = this_field(idle[0])
    # consumer: the state under which the stored exception is rethrown
    f = m.method(p.cls, "read_example_core")
    ck.need(f and f.name in p.fg, "read_example_core")
    core = p.fg[f.name][1]
    fault = set()
    for r in core:
        th = [e for e in r.trace if e.kind == "throw" and e.extra and e.extra[0] == "rethrow_exception"]
        if th:
            last = None
            for a, v in facts(r.trace):
                s = state_eq(a, [idle[0]])
                if s and v:
                    last = s[1]
            if last is not None and last != idle[1]:
                fault.add(last)
    ck.ob("E1 the read path reports a stored exception", f.name, len(fault) == 1, "no state of the reader makes a read rethrow the stored exception", f.where())
    if len(fault) != 1:
        return
    fv = fault.pop()
    # background: what ends in which state
    for r in p.bg:
        threw = any(e.kind in ("mthrow", "throw") for e in r.trace)
        w = p.entry.where()
        ck.ob("E2 no exception escapes the background thread", p.entry.name, r.outcome == "return", "an exception ends the process instead of being reported", w)
        if r.outcome != "return":
            continue
        v = val(r.state.store.get(SL))
        if threw:
            ck.ob("E3 a failure is recorded as such", p.entry.name, v == fv, "after an exception the state is %s: the caller takes it for the end of the dataset" % v, w)
            stored = [e for e in r.trace if e.kind == "write" and e.obj in p.exc and e.args and mentions(e.args, lambda t: len(t) > 1 and t[1] == "std::current_exception")]
            ck.ob("E3 the exception is kept", p.entry.name, bool(stored), "the exception that ended the graph is not stored", w)
            st = [i for i, e in enumerate(r.trace) if e.kind == "write" and e.obj == SL]
            si = [i for i, e in enumerate(r.trace) if e in stored]
            ck.ob("E3 the exception is stored before the state tells of it", p.entry.name, bool(si and st and si[0] < st[-1]), "the state is changed before the exception is stored", w)
        else:
            ck.ob("E4 a normal end is not a failure", p.entry.name, v not in (fv, idle[1], None) and v != run_value(p, idle), "without an exception the state becomes %s" % v, w)
    # node bodies let exceptions through
    for k, (n, box, _) in p.bodies.items():
        may = lambda c: nm(c.get("fn", ""), ("read_instance_batch", "decode"))
        for r in lambda_paths(ck, m, box.node, p.builder, this_cls=p.cls, opaque=p.opaque, may_throw=may):
            if any(e.kind == "mthrow" for e in r.trace):
                ck.ob("E5 node bodies pass exceptions on", p.builder.name + "/" + k, r.outcome == "throw", "an exception is swallowed in a node body", p.builder.where(box.node["l"]))
    # consumer paths
    for r in core:
        w = f.where()
        waited = any(e.kind == "call" and e.name.startswith("std::condition_variable") for e in r.trace)
        st = [(state_eq(a, [idle[0]]), v, i) for i, (a, v) in enumerate(facts(r.trace)) if state_eq(a, [idle[0]])]
        saw_fault = any(s and s[1] == fv and v for s, v, i in st)
        if saw_fault:
            ck.ob("E6 a failed reader throws the stored exception", f.name, r.outcome == "throw" and any(
                e.kind == "throw" and e.extra and e.extra[0] == "rethrow_exception" and mentions(list(e.args) + list(e.locs), lambda t: any(t == L or (t[0] == "r" and str(t[1]) in ("woken:" + L[2], "loop:" + L[2])) for L in p.exc)) for e in r.trace),
                "the reader has failed but the read does not report it", w)
        if r.outcome == "return" and r.value == ("null",):
            ck.ob("E7 the end is reported only if the reader has not failed", f.name, any(s and s[1] == fv and not v for s, v, i in st) or any(s and v and s[1] not in (fv, idle[1]) for s, v, i in st),
                  "the end of the dataset is reported on a path that has not excluded a failure (facts: %s)" % fact_texts(r.trace), w)
        # the failure is kept
        for e in r.trace:
            if e.kind == "write" and (e.obj in p.exc):
                ck.ob("E8 the failure stays reported until a reset", f.name, False, "the read path changes the stored exception", where(e))
        if saw_fault:
            i0 = next(i for i, e in enumerate(r.trace) if e.kind == "fact" and state_eq(e.name, [idle[0]]) == (idle[0], fv) and e.args[0])
            wr = [e for e in r.trace[i0:] if e.kind == "write" and e.obj == SL and val(e.args[0]) != fv]
            ck.ob("E8 the failure stays reported until a reset", f.name, not wr, "the failed state is left when the exception is reported: the next read reports the end of the dataset", w)
        starts = [i for i, e in enumerate(r.trace) if e.kind == "write" and e.obj == SL]
        if starts:
            ck.ob("E9 the read path starts the thread only when idle", f.name, any(state_eq(a, [idle[0]]) == idle and v for a, v in facts(r.trace[:starts[0]])),
                  "the read path changes the state although the thread may have failed or ended", w)


def run_value(p, idle):
    for n, r in p.all_fg():
        for i, e in enumerate(r.trace):
            if e.kind == "ctor" and e.name == "std::thread::(ctor)" and e.args:
                for x in reversed(r.trace[:i]):
                    if x.kind == "write" and x.obj == this_field(idle[0]):
                        return val(x.args[0])
    return None
