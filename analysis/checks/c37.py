"""A SageMaker pipe channel belongs to one stream at a time and advances to its next FIFO with every stream opened.

Linear typestate of the channel: claimed by the constructor (the table's entry becomes -1, and -1 read back means somebody else
holds it), given back exactly once by close or the destructor, the FIFO number incremented exactly where a FIFO was opened."""
from util import *
from absint import show, Interp
from model import fn_nodes

ASSUMPTIONS = ["The table of channels is only used by the functions found to use it (every function of the library is searched)."]
MINUS1 = ("c", -1)


def run(ck):
    m = ck.model("core")
    fns = [f for f in (m.fns.values() if isinstance(m.fns, dict) else m.fns) if f.body is not None]
    # the table: a global map that holds a number per path
    tables = sorted(q for q, g in m.globals.items() if q.startswith("mlio::") and "unordered_map" in g.get("t", "") and "fifo" in q or
                    q.startswith("mlio::") and "map<" in g.get("t", "") and "atomic" in g.get("t", ""))
    ck.need(tables, "the table of SageMaker pipe channels")
    T = tables[0]
    users = [f for f in fns if any(t.get("k") == "ref" and t.get("qn") == T for t in fn_nodes(f))]
    ck.need(users, "users of " + T)
    c = next((x for x in m.concrete("mlio::Input_stream") if "agemaker" in x), None)
    ck.need(c, "the SageMaker stream")
    for f in fns:
        if f not in users:
            continue
        ck.ob("R7 only the pipe streams use the table of channels", f.name, f.cls in (None, c), "", f.where())
    ids = [x["n"] for _, x in m.fields(c) if x["n"].startswith("fifo_id")]
    ck.need(ids, "the FIFO number of the stream")
    ID, PATH, FD = this_field(ids[0]), this_field("path_"), this_field("fifo_fd_")
    i = Interp(m, this_cls=c, peel=0)

    def table_ops(r):
        """[(index, element location, value stored, value read)]"""
        out = []
        for k, e in enumerate(r.trace):
            if e.kind == "write" and e.obj is not None and e.obj[0] == "e" and e.obj[1] == ("g", T):
                read = next((x.extra for x in r.trace[:k + 2] if x.kind == "call" and x.node is e.node and x.obj == e.obj), None) if e.node is not None else None
                out.append((k, e.obj, e.args[0], read))
        return out

    def know(r, v, w):
        a, pol = i.cond_eq(v, w)
        if a is None or isinstance(a, bool):
            return pol if a is None else a == pol
        d = dict(facts(r.trace)).get(a)
        d = i.decide(r.state, a) if d is None else d
        return None if d is None else d == pol

    # --- claim
    ctors = [f for f in m.methods(c) if f.is_ctor and f.body is not None and f.params and not f.flag("deleted")]
    ck.need(ctors, "constructor of " + c)
    for f in ctors:
        for r in ck.interp_done(i, i.run(f)):
            ops = table_ops(r)
            claims = [o for o in ops if o[2] == MINUS1]
            prev = ("init", claims[0][1]) if claims else None
            if r.outcome == "return":
                ck.ob("R1 opening claims the channel", f.name, len(ops) == 1 and len(claims) == 1, "the channel is marked as taken %d times" % len(claims), f.where())
                if claims:
                    ck.ob("R1 a channel that is taken is refused", f.name, know(r, prev, MINUS1) is False, "the stream is made although the channel may belong to another stream", f.where())
                    own = claims[0][1][2]
                    p = i.read(r.state, PATH)
                    ck.ob("R1 opening claims the channel", f.name + " (key)", own == p or contains(own, ("obj", "arg0")), "the channel claimed is %s, the stream's path %s" % (show(own), show(p)), f.where())
                    v = i.read(r.state, ID)
                    given = [a for a, t in facts(r.trace) if a[0] == "has" and contains(a, ("obj", "arg2")) and t]
                    ok = v == prev or bool(given) and contains(v, ("obj", "arg2"))
                    ck.ob("R2 the stream continues with the channel's next FIFO", f.name, ok, "the FIFO number is %s" % show(v), f.where())
            else:
                bad = [o for o in ops if know(r, ("init", o[1]), MINUS1) is not True]
                ck.ob("R3 a failed opening does not keep the channel", f.name, not bad, "the channel stays taken although no stream exists", f.where())
    # --- give back
    close = m.method(c, "close")
    dtor = next((f for f in m.methods(c) if f.is_dtor and f.body is not None), None)
    ck.need(close is not None and close.body is not None, "close of " + c)
    ck.ob("R4 the destructor gives the channel back", c, dtor is not None, "it has no destructor", "")
    for f in [x for x in (close, dtor) if x is not None]:
        for r in ck.interp_done(i, i.run(f)):
            ops = table_ops(r)
            held = know(r, ("init", ID), MINUS1)
            n = len(ops)
            if held is True:
                ck.ob("R5 a channel is given back only by its holder", f.name, n == 0, "the table is changed although the stream does not hold the channel", f.where())
                continue
            ck.ob("R4 the channel is given back once", f.name, n == 1, "the table is changed %d times" % n, f.where())
            for o in ops:
                ck.ob("R4 the channel is given back once", f.name + " (number)", o[2] == ("init", ID) and contains(o[1][2], PATH), "%s is stored for %s" % (show(o[2]), show(o[1][2])), f.where())
            ck.ob("R5 a channel is given back only by its holder", f.name, i.read(r.state, ID) == MINUS1 or (n == 1 and f.is_dtor), "the stream could give the channel back again: it still has the number %s" % show(i.read(r.state, ID)), f.where())
            ck.ob("R5 a channel is given back only by its holder", f.name + " (known)", held is False, "the stream gives a channel back without knowing that it holds one", f.where())
            # the FIFO is closed before somebody else can open the channel
            for o in ops:
                op = [k for k, e in enumerate(r.trace) if e.kind == "call" and e.name == "close"]
                ck.ob("R6 the FIFO is closed before the channel is given back", f.name, not [k for k in op if k > o[0]], "the FIFO is closed after the channel was given back", f.where())
    # --- the FIFOs
    openers = [f for f in m.methods(c) if f.body is not None and any(t.get("k") == "call" and t.get("fn") in ("open", "openat") for t in fn_nodes(f))]
    ck.need(openers, "the function that opens FIFOs")
    for f in openers:
        quiet = {g.id for g in fns if g.name.startswith("mlio::logger::")}
        i2 = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id in quiet or fn.short in ("sleep",))
        rs = ck.interp_done(i2, i2.run(f))
        inv = loop_invariants(rs)
        for r in rs:
            op = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and e.name in ("open", "openat")]
            v = i2.read(r.state, ID)
            d = i2.add(subst(i2, v, inv), ("init", ID), -1)
            for k, e in op:
                fm = [x for x in r.trace[:k] if x.kind == "call" and x.name in ("fmt::format",)]
                nm_ = [x for x in fm if contains(e.args, x.extra)]
                ok = any(x.args[0] == ("s", "{0}_{1}") and x.args[1] == ("init", PATH) and x.args[2] == ("init", ID) for x in nm_)
                ck.ob("R8 the FIFO opened is <path>_<number>", f.name, ok, "it opens %s" % [[show(a) for a in x.args] for x in nm_], where(e))
            fd = i2.read(r.state, ("f", FD, "fd_"))
            if r.outcome == "return":
                ck.ob("R9 opening a FIFO advances the number by one", f.name, d == ("c", 1), "the number changes by %s" % show(d), f.where())
                ck.ob("R10 a stream starts when the other end has written", f.name, any(e.kind == "call" and e.name in ("select", "poll", "ppoll", "pselect") for e in r.trace[op[-1][0]:]) if op else False,
                      "the stream is handed out without waiting for data: its first read would report the end", f.where())
            else:
                opened = any(know2(i2, r, e.extra) for _, e in op)
                moved = d != ("c", 0)
                ck.ob("R9 opening a FIFO advances the number by one", f.name + " (failure)", d == ("c", 1) if moved else True, "the number changes by %s" % show(d), f.where())
                ck.ob("R9 a failed opening leaves the number as it was", f.name, not moved or opened, "the number advances although no FIFO was opened", f.where())
    # --- the table is locked
    for f in users:
        i3 = Interp(m, this_cls=f.cls, peel=0)
        for r in ck.interp_done(i3, i3.run(f)):
            for e, locks, k in with_locks(r.trace):
                if e.kind == "call" and e.obj == ("g", T):
                    ck.ob("R11 the table is only used under its lock", f.name, bool(locks), "it is used without a lock", where(e))


def know2(i, r, v):
    """Is the descriptor v known to be valid?"""
    a, pol = i.cond_eq(v, MINUS1)
    d = dict(facts(r.trace)).get(a)
    d = i.decide(r.state, a) if d is None else d
    return d is not None and d != pol
