"""Everything the background thread shares with the caller is accessed under one lock (or atomically), and every
change that a waiting side waits for is signalled.

Lock sets are computed along every path of the background thread's entry point, of the flow-graph node bodies and of
the caller's entry points; the accesses of the two sides are then compared per member."""
from pipeline import *
from absint import show

ASSUMPTIONS = ["A reader is used by one caller at a time (as its documentation says); TBB's graph and context objects and std::atomic are internally synchronised."]
UPSTREAM = ("mlio::detail::Instance_batch_reader", "mlio::detail::Instance_reader")


def run(ck):
    m = ck.model("core")
    p = Pipe(ck, m)
    idle = idle_value(p)
    ck.need(idle, "the state that means that no background thread runs")
    waits = {"bg": {}, "fg": {}}
    acc = {"bg": [], "fg": []}
    for side, it in (("bg", p.all_bg()), ("fg", p.all_fg())):
        for name, r in it:
            if name.endswith("(ctor)"):
                continue
            alive = list(alive_track(p, r.trace, idle)) if side == "fg" else [True] * len(r.trace)
            held_at = {}
            prev = frozenset()
            for e, held, i in with_locks(r.trace):
                held_at[i] = held
                if e.kind == "ctor" and isinstance(e.name, str) and base_of(e.name) in LOCKS and len(e.args) == 1:
                    mu = e.args[0][1] if e.args[0][0] == "init" else e.args[0]
                    ck.ob("L5 a lock is not taken twice", name, mu not in prev, "%s is locked while it is already held" % show(mu), where(e))
                prev = held
                if e.kind == "call" and e.name.startswith("std::condition_variable") and short(e.name).startswith("wait"):
                    need = predicate_needs(p, e)
                    ck.ob("L2 waits re-test their condition", name, need is not None, "a wait without a predicate (a spurious or early wake-up goes unnoticed)", where(e))
                    ck.ob("L2 the lock is held while waiting", name, bool(held), "a wait without the lock", where(e))
                    ck.ob("L4 no second lock is held while waiting", name, len(held) <= 1, "two locks are held during a wait", where(e))
                    if e.obj is not None:
                        w = waits[side].setdefault(e.obj, {})
                        for f, k in (need or {}).items():
                            w.setdefault(f, set()).update(k)
                if held and e.kind == "call":
                    blocking = e.name in ("std::thread::join", "std::this_thread::sleep_for") or nm(e.name, ("wait_for_all", "decode", "infer_schema", "read_instance_batch", "peek_instance", "read_instance"))
                    if blocking:
                        ck.ob("L4 no blocking call under the lock", name, False, "%s is called with the lock held" % short(e.name), where(e))
                if e.kind == "call" and e.name == "std::thread::join":
                    ck.ob("L4 no blocking call under the lock", name, not held, "join is called with the lock held", where(e))
            for i, e, f, rw, L in accesses(r.trace, p.ftypes):
                acc[side].append((f, rw, held_at.get(i, frozenset()), alive[i], name, r, i, e))
    # L1
    for f, t in p.ftypes.items():
        if is_sync_type(t) or t == "std::thread":
            continue
        bg = [a for a in acc["bg"] if a[0] == f]
        fg = [a for a in acc["fg"] if a[0] == f and a[3] and not init_once(a)]
        bw = [a for a in bg if a[1] == "w"]
        fw = [a for a in fg if a[1] == "w"]
        if not (bg and fg and (bw or fw)):
            ck.ob("L1 shared members are accessed under the lock", p.cls + "::" + f, True)
            continue
        for a in bg:
            # a value published before the lock is taken, for a caller that looks at
            # it only after having seen what was written under the lock
            pub = a[1] == "w" and published(p, a) and all(x[2] and guarded(p, x) for x in fg)
            pub = pub or (a[1] == "r" and all(b[1] == "w" and published(p, b) or b[1] == "r" for b in bg) and not fw)
            ck.ob("L1 shared members are accessed under the lock", "%s::%s in %s" % (p.cls, f, a[4]), bool(a[2]) or pub,
                  "%s is %s by the background side without the lock, and accessed by the caller" % (f, "written" if a[1] == "w" else "read"), where(a[7]))
        for a in fg:
            ck.ob("L1 shared members are accessed under the lock", "%s::%s in %s" % (p.cls, f, a[4]), bool(a[2]),
                  "%s is %s by the caller without the lock while the background side may access it" % (f, "written" if a[1] == "w" else "read"), where(a[7]))
        common = None
        for a in bg + fg:
            if a[2]:
                common = a[2] if common is None else common & a[2]
        ck.ob("L1 both sides use the same lock", p.cls + "::" + f, common is None or common, "the accesses of %s have no lock in common" % f, p.entry.where())
    # scalar state read on both sides must be atomic or always locked: covered above,
    # for atomics nothing is to be shown
    # L3 signalling
    n3 = 0
    for side, other, it in (("bg", "fg", p.all_bg()), ("fg", "bg", p.all_fg())):
        for name, r in it:
            if name.endswith("(ctor)"):
                continue
            alive = list(alive_track(p, r.trace, idle)) if side == "fg" else [True] * len(r.trace)
            locks = {i: h for e, h, i in with_locks(r.trace)}
            for i, e in enumerate(r.trace):
                if e.kind != "write" or not is_this_field(e.obj) or not alive[i]:
                    continue
                for cv, need in waits[other].items():
                    k = need.get(e.obj[2])
                    if not k:
                        continue
                    ch = change_kind(r.trace, i)
                    if "value" in k or (ch & k):
                        n3 += 1
                        ck.ob("L3 a change that is waited for is signalled", "%s, %s" % (name, e.obj[2]), any(
                            x.kind == "call" and x.obj == cv and short(x.name).startswith("notify") for x in r.trace[i:]),
                            "%s changes but %s is not notified afterwards (facts: %s)" % (e.obj[2], show(cv), fact_texts(r.trace)), where(e))
                        ck.ob("L3 a change that is waited for is made under the lock", "%s, %s" % (name, e.obj[2]), bool(locks[i]),
                              "%s changes without the lock: the waiting side may miss it" % e.obj[2], where(e))
    ck.need(n3 >= 3, "changes that the other side waits for (found %d)" % n3)
    ck.need(waits["bg"] and waits["fg"], "waits on both sides")
    # L6 the upstream readers are not touched by the caller while the thread may run
    for name, r in p.all_fg():
        if name.endswith("(ctor)"):
            continue
        alive = list(alive_track(p, r.trace, idle))
        for i, e in enumerate(r.trace):
            if e.kind == "call" and e.name.rsplit("::", 1)[0] in UPSTREAM:
                ok = not alive[i] or once_guard(r.trace, i)
                ck.ob("L6 the caller leaves the dataset to the background thread", "%s calls %s" % (name, short(e.name)), ok,
                      "%s is called while the background thread may be reading" % e.name, where(e))
            if e.kind == "call" and e.name.startswith("tbb::") and short(e.name) == "reset":
                ck.ob("L6 the graph is reset only when idle", name, not alive[i], "the flow graph is reset while the background thread may run", where(e))


def base_of(n):
    return n[:-len("::(ctor)")] if n.endswith("::(ctor)") else n


def once_guard(trace, i):
    """Is a member known to be null at i that is then set on this path?"""
    for a, v in facts(trace[:i]):
        if a[0] == "has" and not v and a[1][0] == "init" and is_this_field(a[1][1]):
            L = a[1][1]
            if any(e.kind == "write" and e.obj == L for e in trace):
                return True
    return False


def init_once(a):
    f, rw, held, alive, name, r, i, e = a
    for at, v in facts(r.trace[:i]):
        if at[0] == "has" and not v and at[1] == ("init", this_field(f)):
            return True
    # the test itself, or a read of a member that is only ever set once
    return rw == "r"and any(x.kind == "fact" and x.name[0] == "has" and x.name[1] == ("init", this_field(f)) for x in r.trace[i:i + 3])


def published(p, a):
    f, rw, held, alive, name, r, i, e = a
    if held:
        return True
    later = [(x, h) for x, h, j in with_locks(r.trace) if j > i]
    return any(h and x.kind == "write" and is_this_field(x.obj) and x.obj[2] != f for x, h in later) and not any(
        (not h) and x.kind == "write" and is_this_field(x.obj) and x.obj[2] != f and not is_sync_type(p.ftypes.get(x.obj[2], "")) for x, h in later)


def guarded(p, a):
    """The caller looks at the member only after a test of another member under the
    same lock."""
    f, rw, held, alive, name, r, i, e = a
    for x, h, j in with_locks(r.trace):
        if j < i and x.kind == "fact" and h & held and mentions(x.name, lambda t: len(t) > 1 and (is_this_field(t) and t[2] != f or t[0] == "r" and str(t[1]).startswith(("woken:", "loop:")))):
            return True
    return False
