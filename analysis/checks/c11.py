"""A closed input stream stays closed and refuses every operation; streams state their capabilities truthfully.

For every concrete class derived from Input_stream: the state that each path of close() ends in is handed to closed(), and the
states in which closed() yields true are handed to every operation, so that the rules speak about the class's own notion of
being closed, however it is stored."""
from util import *
from absint import show, Interp
from model import fn_nodes

ASSUMPTIONS = ["A stream that another stream wraps keeps the same contract (it is one of the classes checked here, or implemented by the user)."]
BASE = "mlio::Input_stream"
OPS = ("read", "seek", "size", "position")
CLOSED_ERRORS = ("mlio::Stream_error", "mlio::Not_supported_error")


def run(ck):
    m = ck.model("core", "py")
    classes = [c for c in m.concrete(BASE) if c != BASE and not c.startswith("pymlio") and not c.startswith("mlio::py")]
    classes = [c for c in classes if final(m, c, "read") and any(f.cls == c and f.body is not None for f in final(m, c, "close"))]
    ck.need(len(classes) >= 5, "concrete input streams (found %s)" % classes)
    for c in classes:
        check_class(ck, m, c)


def final(m, c, name, pick=lambda f: True):
    """The implementations of a (virtual) method that objects of class c use."""
    out, seen = [], set()
    for k in [c] + m.bases(c):
        for f in m.methods(k):
            if f.short == name and not f.flag("static") and pick(f):
                sig = tuple(p["t"] for p in f.params)
                if sig not in seen:
                    seen.add(sig)
                    if f.body is not None:
                        out.append(f)
    return out


def outcomes(ck, i, c, f, state=None, assume=()):
    def setup(ii, st):
        for a, v in assume:
            ii.assume(st, a, v)
    rs = i.run(f, state=state, setup=setup)
    return ck.interp_done(i, rs)


def truths(i, r):
    """[(state, bool)] for the boolean a path returned."""
    return list(i.truth(r.state.fork(), r.value))


def closed_states(ck, i, m, c, want, state=None):
    """States in which closed() yields `want`."""
    out = []
    for f in final(m, c, "closed"):
        for r in outcomes(ck, i, c, f, state=state):
            if r.outcome == "return":
                out += [s for s, v in truths(i, r) if v == want]
    return out


def check_class(ck, m, c):
    i = Interp(m, this_cls=c, peel=0)
    closed = final(m, c, "closed")
    close = final(m, c, "close")
    ck.need(closed and close, "close and closed of " + c)
    for f in close:
        for r in outcomes(ck, i, c, f):
            if r.outcome != "return":
                continue
            ok, why = True, ""
            for g in closed:
                for r2 in outcomes(ck, i, c, g, state=r.state):
                    ts = truths(i, r2)
                    if all(v for _, v in ts):
                        continue
                    ok = delegated(r, r2.value)
                    why = "after a path of close(), closed() yields %s" % show(r2.value)
            ck.ob("R1 close() leaves the stream closed", c, ok, why, f.where())
            # a second close() must not use what the first gave up: same state, run again
            for r2 in outcomes(ck, i, c, f, state=r.state):
                bad = null_uses(r2)
                ck.ob("R5 close() can be repeated", c, not bad and r2.outcome == "return", "the second close() uses %s" % bad, f.where())
    cs = closed_states(ck, i, m, c, True)
    ck.need(cs, "a closed state of " + c)
    os_ = closed_states(ck, i, m, c, False)
    for op in OPS:
        fs = final(m, c, op)
        ck.need(fs, c + "::" + op)
        for f in fs:
            ck.saw(f)
            for st in cs:
                for r in outcomes(ck, i, c, f, state=st):
                    t = r.value[1] if r.outcome == "throw" else None
                    ok = t is not None and any(m.derives(t, e) for e in CLOSED_ERRORS)
                    ck.ob("R2 a closed stream refuses the operation", "%s (%s)" % (f.name, c), ok,
                          "it %s although the stream is closed" % ("returns" if t is None else "throws " + str(t)), f.where())
                    used = [e.name for e in r.trace if e.kind == "call" and touches(e)]
                    ck.ob("R3 a closed stream is not touched", "%s (%s)" % (f.name, c), not used, "it calls %s on a closed stream" % used, f.where())
            rs = [r for st in os_ for r in outcomes(ck, i, c, f, state=st)]
            works = any(r.outcome == "return" for r in rs)
            unsup = rs and all(r.outcome == "throw" and m.derives(r.value[1], "mlio::Not_supported_error") for r in rs)
            ck.ob("R4 an open stream accepts the operation", "%s (%s)" % (f.name, c), works or unsup, "no path succeeds although the stream is open", f.where())
            if op != "read":
                for g in final(m, c, "seekable"):
                    for r in outcomes(ck, i, c, g):
                        for s, v in truths(i, r):
                            some = any(x.outcome == "throw" and m.derives(x.value[1], "mlio::Not_supported_error") for x in rs)
                            ck.ob("R6 seekable() tells whether the position can be used", "%s (%s)" % (f.name, c), works and not some if v else unsup or not works,
                                  "seekable() is %s but the operation is %s" % (v, "supported" if works and not some else "refused"), g.where())
    # a stream is open once it is made
    opened = False
    ctors = [f for f in m.methods(c) if f.is_ctor and f.body is not None and not f.flag("deleted") and f.params]
    for f in ctors:
        for r in outcomes(ck, i, c, f):
            if r.outcome != "return":
                continue
            states = [r.state]
            t, bad = closed_states(ck, i, m, c, False, r.state), closed_states(ck, i, m, c, True, r.state)
            if t and not bad or delegates(ck, i, m, c, r):
                opened = True
                continue
            # opened by a second step
            steps = [g for g in m.methods(c) if g.body is not None and not g.is_ctor and not g.is_dtor and not g.params and g.ret == "void" and g not in close]
            for g in steps:
                rs = [x for x in outcomes(ck, i, c, g, state=r.state) if x.outcome == "return"]
                if rs and all(closed_states(ck, i, m, c, False, x.state) and not closed_states(ck, i, m, c, True, x.state) for x in rs):
                    opened = True
    if ctors:
        ck.ob("R4 an open stream accepts the operation", c + " (construction)", opened, "a newly made stream is not known to be open", ctors[0].where())


def delegates(ck, i, m, c, r):
    for g in final(m, c, "closed"):
        for x in outcomes(ck, i, c, g, state=r.state):
            if not (x.value and inner_of(x.value)):
                return False
    return True


def inner_of(v):
    """The inner object whose closed() the value v is."""
    if v[0] == "cond" and v[1][0] == "has" and v[2]:
        v = v[1][1]
    if v[0] == "m" and short(v[1]) == "closed":
        return v[2]
    return None


def obj_of(x):
    while x[0] in ("init", "ver", "loc"):
        x = x[1]
    return x


def delegated(r, v):
    """closed() asks an inner stream, which close() has closed."""
    o = inner_of(v)
    if o is None:
        return False
    root = o
    for e in r.trace:
        if e.kind == "call" and short(e.name) == "close" and e.obj is not None:
            if mentions(root, lambda x: x == e.obj) or root == e.obj or (e.extra is not None and mentions(root, lambda x: x == e.extra)):
                return True
    return False


def null_uses(r):
    return [show(e.args[0]) for e in r.trace if e.kind == "deref" and e.args and e.args[0] == ("null",)]


def touches(e):
    s = short(e.name)
    if "::" not in e.name:
        return not e.name.startswith("__errno")
    return e.name.startswith(BASE) and s in OPS
