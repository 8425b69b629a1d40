"""Peeking does not consume: a peek returns what the next read will return, any number of peeks changes nothing, and each
element is delivered to exactly one read.

Classes with a public peek_X/read_X pair on top of one hook are found by role; the four combinations (peek or read, with or
without a pending element) are decided on all paths, including those on which the hook throws."""
from util import *
from absint import show, NULL
from model import walk

ASSUMPTIONS = ["The element types' smart pointers and optionals behave as documented."]


def pairs(m):
    for c in sorted(m.classes):
        for f in m.methods(c):
            if f.short.startswith("peek_") and f.body is not None and not f.params:
                r = [g for g in m.methods(c) if g.short == "read_" + f.short[5:] and g.body is not None and not g.params]
                if r:
                    yield c, f, r[0]


def run(ck):
    m = ck.model("core")
    found = list(pairs(m))
    ck.need(len(found) >= 2, "classes with a peek/read pair (found %s)" % [c for c, _, _ in found])
    for c, pk, rd in found:
        one(ck, m, c, pk, rd)


def one(ck, m, c, pk, rd):
    own = {f.id for f in m.methods(c)}
    hooks = [f for f in m.methods(c) if f.virtual and f.body is None or (f.virtual and f.short == rd.short + "_core")]
    core = {x["fn"] for f in (pk, rd) for x in walk(f.body) if x.get("k") == "call" and x.get("fn", "").endswith(rd.short + "_core")}
    if not core:
        # the hook is the virtual member that both call
        vs = [{x["fn"] for x in walk(f.body) if x.get("k") == "call" and x.get("virt") and x.get("fn")} for f in (pk, rd)]
        core = vs[0] & vs[1]
    ck.need(core, "the hook that %s and %s read through" % (pk.name, rd.name))
    is_core = lambda e: e.kind in ("call", "mcall") and e.name in core
    opts = dict(opaque=lambda fn, call: fn.name in core, may_throw=lambda call: call.get("fn") in core)
    P, R = paths(ck, m, pk, this_cls=c, **opts), paths(ck, m, rd, this_cls=c, **opts)
    # the member that holds the pending element: written by peek
    cache = {e.obj for r in P for e in r.trace if e.kind == "write" and is_this_field(e.obj)}
    ck.ob("P1 a peeked element is kept", pk.name, len(cache) == 1, "peeking keeps its element in %d members" % len(cache), pk.where())
    if len(cache) != 1:
        return
    L = cache.pop()

    def pending(tr):
        for a, v in facts(tr):
            if a[0] == "has" and a[1] == ("init", L):
                return v
        return None
    for f, rs in ((pk, P), (rd, R)):
        peek = f is pk
        for r in rs:
            w = f.where()
            n = sum(1 for e in r.trace if is_core(e) and e.kind == "call")
            thrown = any(e.kind == "mthrow" for e in r.trace)
            end = r.state.store.get(L, ("init", L))
            p = pending(r.trace)
            if thrown:
                ck.ob("P6 a failing read leaves nothing behind", f.name, r.outcome == "throw" and end == ("init", L), "when reading fails the pending element becomes %s or the failure is hidden" % show(end), w)
                continue
            if r.outcome != "return":
                ck.ob("P6 a failing read leaves nothing behind", f.name, False, "it throws", w)
                continue
            if p is None:
                ck.ob("P2 the pending element decides", f.name, False, "a path does not ask whether an element is pending", w)
                continue
            if p:
                ck.ob("P3 a pending element is delivered before reading on", f.name, n == 0, "the hook is called although an element is pending", w)
                ok = r.value == ("init", L) or taken(r, L)
                ck.ob("P3 a pending element is delivered before reading on", f.name, ok, "it returns %s instead of the pending element" % show(r.value), w)
                if peek:
                    ck.ob("P4 a peek keeps the element", f.name, end == ("init", L), "after the peek the pending element is %s" % show(end), w)
                else:
                    gone = end == NULL or any(e.kind == "call" and short(e.name) == "exchange" and e.args and len(e.args) > 1 and e.args[1] == NULL for e in r.trace)
                    ck.ob("P5 a read consumes the element", f.name, gone, "after the read the element is still pending (%s)" % show(end), w)
            else:
                ck.ob("P7 exactly one element is read", f.name, n == 1, "the hook is called %d times" % n, w)
                got = next((e.extra for e in r.trace if is_core(e) and e.kind == "call"), None)
                ck.ob("P7 exactly one element is read", f.name, got is not None and r.value == got, "it returns %s, not what was read" % show(r.value), w)
                if peek:
                    ck.ob("P4 a peek keeps the element", f.name, end == got, "what is kept is %s, not the element" % show(end), w)
                else:
                    ck.ob("P5 a read consumes the element", f.name, end in (("init", L), NULL), "a read element stays pending (%s)" % show(end), w)
    # nobody else touches the pending element
    for h in [c] + sorted(m.subclasses(c)):
        for g in m.methods(h):
            if g.body is None or g.id in (pk.id, rd.id) or g.is_ctor or g.is_dtor or g.short.startswith("reset"):
                continue
            hit = [x for x in walk(g.body) if x.get("k") == "mem" and x.get("f") == L[2] and x.get("cls") == c]
            ck.ob("P8 only peek, read and reset use the pending element", g.name, not hit, "it uses the pending element", g.where(hit[0]["l"]) if hit else g.where())
    for s in sorted(m.subclasses(c)):
        for g in m.methods(s):
            if g.short in (pk.short, rd.short) and not g.params:
                ck.ob("P9 derived readers do not bypass the pending element", g.name, False, "it overrides the reading interface", g.where())


def taken(r, L):
    for e in r.trace:
        if e.kind == "call" and short(e.name) == "exchange" and e.extra == r.value and e.args and (e.args[0] == ("init", L) or e.locs and e.locs[0] == L):
            return True
    return False
