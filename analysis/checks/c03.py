"""Stopping, resetting or destroying a reader at any moment ends its background activity: no deadlock, nothing left
running, nothing left over for the next epoch.

The stopping sequence is checked as an ordering of events on every path of the function that joins the thread; every
concrete reader's destructor is shown to reach it; the graph's delivering stage is shown to test the cancellation after
its wait; the thread's entry point is shown to outlive the graph."""
from pipeline import *
from absint import show

ASSUMPTIONS = ["TBB's cancel_group_execution makes wait_for_all return once the running node bodies have returned."]


def run(ck):
    m = ck.model("core")
    p = Pipe(ck, m)
    idle = idle_value(p)
    ck.need(idle, "the state that means that no background thread runs")
    # the waits of the background side
    bg_waits = {}
    for name, r in p.all_bg():
        for e in r.trace:
            if e.kind == "call" and e.name.startswith("std::condition_variable") and short(e.name).startswith("wait"):
                for f, k in (predicate_needs(p, e) or {}).items():
                    bg_waits.setdefault(e.obj, {}).setdefault(f, set()).update(k)
    stoppers = [(n, f) for n, (f, rs) in p.fg.items() if any(e.kind == "call" and e.name == "std::thread::join" for r in rs for e in r.trace)]
    ck.need(stoppers, "a function that joins the background thread")
    for n, f in stoppers:
        for r in p.fg[n][1]:
            check_stop(ck, p, n, r, idle, bg_waits)
    # T1 destructors
    stop_names = {n for n, f in stoppers}
    for c in m.concrete(p.cls):
        chain = [c] + [b for b in m.bases(c) if m.derives(b, p.cls) and b != p.cls]
        ok, why = False, "no destructor stops the background thread"
        for k in chain:
            d = next((f for f in m.methods(k) if f.short == "(dtor)" and f.body is not None and not f.flag("defaulted")), None)
            if d is None:
                continue
            rs = paths(ck, m, d, this_cls=c, opaque=lambda fn, call: fn.cls == p.cls)
            if rs and all(any(e.kind == "call" and (e.name in stop_names) and e.obj == ("obj", "this") for e in r.trace) for r in rs):
                ok = True
                break
            why = "a path through %s does not stop the background thread" % d.name
        ck.ob("T1 every reader stops its thread when it is destroyed", c, ok, why, "%s" % m.classes[c].get("file", "").replace("/repo/", ""))
    # T3 cancellation is observed after the wait
    n3 = 0
    for k, (n, box, rs) in p.bodies.items():
        for r in rs:
            wi = [i for i, e in enumerate(r.trace) if e.kind == "call" and e.name.startswith("std::condition_variable") and short(e.name).startswith("wait")]
            if not wi:
                continue
            for i, e in enumerate(r.trace):
                if i > wi[-1] and e.kind == "write" and is_this_field(e.obj) and any(e.obj[2] in nd for nd in bg_waits.values()):
                    n3 += 1
                    canc = [x for x in r.trace[wi[-1]:i] if x.kind == "call" and short(x.name) == "is_group_execution_cancelled"]
                    neg = canc and any(x.kind == "fact" and not x.args[0] and mentions(x.name, lambda t: t == canc[-1].extra) for x in r.trace[wi[-1]:i])
                    ck.ob("T3 nothing is delivered after a stop", p.builder.name + "/" + k, neg, "an example is delivered after the wait without a test whether the reader is being stopped", where(e))
    ck.need(n3, "a node body that delivers after a wait")
    # T4 the thread's entry point outlives the graph
    for r in p.bg:
        act = [i for i, e in enumerate(r.trace) if e.kind == "call" and short(e.name) == "activate"]
        wt = [i for i, e in enumerate(r.trace) if e.kind in ("call", "mthrow") and short(e.name) == "wait_for_all"]
        thrown = any(e.kind == "mthrow" for e in r.trace)
        if act and not (thrown and not wt):
            ck.ob("T4 the thread waits for the whole graph", p.entry.name, wt and wt[-1] > act[-1], "the background thread ends without having waited for the graph's tasks", p.entry.where())
            done = [i for i, e in enumerate(r.trace) if e.kind == "write" and e.obj == this_field(idle[0])]
            ck.ob("T4 the end is announced after the graph is idle", p.entry.name, wt and done and done[0] > wt[-1], "the end of the dataset is announced before the graph is idle", p.entry.where())
    # T5 reset
    rf = m.method(p.cls, "reset")
    ck.need(rf and rf.name in p.fg, "reset of " + p.cls)
    for r in p.fg[rf.name][1]:
        alive = list(alive_track(p, r.trace, idle))
        joined = any(e.kind == "call" and e.name == "std::thread::join" for e in r.trace)
        ck.ob("T5 reset ends the background activity", rf.name, not alive[-1], "the background thread may still run when reset returns (facts: %s)" % fact_texts(r.trace), rf.where())
        for i, e in enumerate(r.trace):
            touch = e.kind == "call" and ((e.name.startswith("tbb::") and short(e.name) == "reset") or e.name.rsplit("::", 1)[0] in (
                "mlio::detail::Instance_batch_reader", "mlio::detail::Instance_reader"))
            if touch:
                ck.ob("T5 reset rewinds only what is idle", rf.name, not alive[i], "%s is called before the background thread has ended" % short(e.name), where(e))
        v = r.state.store.get(this_field(idle[0]))
        ck.ob("T5 reset allows a new start", rf.name, val(v) == idle[1] or (v is None and not joined), "the state after a reset is %s" % (show(v) if v else "unchanged"), rf.where())
    # T6 failure to start the thread leaves the reader stoppable
    for n, (f, rs0) in p.fg.items():
        if not any(e.kind == "ctor" and e.name == "std::thread::(ctor)" and e.args for r in rs0 for e in r.trace):
            continue
        rs = paths(ck, m, f, this_cls=p.cls, opaque=p.opaque, may_throw=lambda c: c.get("k") == "ctor" and c.get("fn") == "std::thread::(ctor)" and len(c.get("args", [])) > 0 and not c.get("mv"))
        for r in rs:
            if not any(e.kind == "mthrow" and e.name == "std::thread::(ctor)" for e in r.trace):
                continue
            v = r.state.store.get(this_field(idle[0]))
            ck.ob("T6 a thread that could not be started is not waited for", n, r.outcome == "throw" and (v is None or val(v) == idle[1]),
                  "after a failed start the state is %s: a later stop joins a thread that does not exist" % (show(v) if v else "?"), f.where())


def val(v):
    if v is None:
        return None
    if v[0] == "enum":
        return v[2]
    if v[0] == "c":
        return v[1]
    return None


def check_stop(ck, p, n, r, idle, bg_waits):
    alive = list(alive_track(p, r.trace, idle))
    w = p.fg[n][0].where()
    j = next((i for i, e in enumerate(r.trace) if e.kind == "call" and e.name == "std::thread::join"), None)
    ck.ob("T2 stopping joins the thread", n, not alive[-1] if r.trace else False, "a path returns although the background thread may run (facts: %s)" % fact_texts(r.trace), w)
    if j is None:
        return
    if not alive[j]:
        return
    can = [i for i, e in enumerate(r.trace[:j]) if e.kind == "call" and short(e.name) == "cancel_group_execution"]
    ck.ob("T2 the graph is cancelled before the join", n, can, "the thread is joined without having cancelled the graph: stopping waits for the whole dataset", w)
    locks = {i: h for e, h, i in with_locks(r.trace)}
    for cv, need in bg_waits.items():
        for f, k in need.items():
            ch = [i for i, e in enumerate(r.trace[:j]) if e.kind == "write" and e.obj == this_field(f) and ("value" in k or change_kind(r.trace, i) & k)]
            ck.ob("T2 the stop releases the delivering stage", n, ch, "the condition that the background side waits for (%s) is not made true before the join" % f, w)
            if not ch:
                continue
            nt = [i for i, e in enumerate(r.trace[:j]) if e.kind == "call" and e.obj == cv and short(e.name).startswith("notify")]
            ck.ob("T2 the stop wakes the delivering stage", n, nt and nt[-1] > ch[-1], "the waiting background side is not notified before the join", w)
            if can:
                # the cancellation must be visible no later than the change
                end = ch[-1]
                while end + 1 < len(r.trace) and locks.get(end + 1):
                    end += 1
                ck.ob("T2 the cancellation precedes the release", n, can[0] <= end,
                      "the graph is cancelled only after the delivering stage could have continued (it may fill the queue again and wait forever)", w)
