"""Batches hold batch_size instances in order; the last, shorter one is handled as asked; the padding says how many rows are not data.

The function that puts batches together is followed on all paths: what a path does is compared with what each value of the policy that
is consistent with the path's decisions asks for.  The readers' decoders are followed likewise: rows and padding are linear terms."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type, walk, fn_nodes

ASSUMPTIONS = ["The number of instances of a batch fits in memory; std::vector keeps the order of what is appended."]
BATCH = "mlio::Instance_batch"


def is_log(fn):
    return fn.name.startswith("mlio::logger::")


def param_of(f, cls):
    return next((n for n, p in enumerate(f.params) if base_name(strip_type(p.get("t", ""))) == cls), None)


def enum_values(m, name):
    e = next((v for k, v in m.enums.items() if k.split("::")[-1] == name), None)
    return {n: v for n, v in e["c"]} if e else None


def is_param(t, name):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == "init" and isinstance(t[1], tuple) and len(t[1]) == 3 and t[1][0] == "f" and t[1][2] == name


def modes(trace, name, values):
    """the values of the policy that the path's decisions leave open (None stands for any value that is no policy)"""
    left = set(values) | {None}
    for e in trace:
        if e.kind != "fact":
            continue
        left = narrow(left, e.name, e.args[0], name)
    return left


def narrow(left, a, v, name):
    if a[0] == "eq0" and len(a[2]) == 1 and is_param(a[2][0][0], name) and a[2][0][1] in (1, -1):
        n = -a[1] * a[2][0][1]
        return {x for x in left if (x == n) == v}
    if a[0] == "pos" and len(a[2]) == 1 and is_param(a[2][0][0], name):
        return {x for x in left if x is None or (a[1] + a[2][0][1] * x > 0) == v}
    return left


def warns(trace):
    return [e for e in trace if e.kind == "call" and e.name.startswith("mlio::logger::") and short(e.name) == "warn"]


def run(ck):
    m = ck.model("core")
    asm = [f for f in m.fns.values() if f.short == "read_instance_batch" and f.body is not None]
    ck.need(asm, "the function that puts batches together")
    for f in asm:
        assemble(ck, m, f)
        restart(ck, m, f)
    decoders(ck, m)


# -- putting a batch together
def role(ck, m, name):
    g = m.method(BATCH, name)
    rs = Interp(m, this_cls=BATCH).run(g) if g is not None and g.body is not None else []
    vs = {r.value for r in rs}
    if len(vs) != 1:
        return None
    v = vs.pop()
    L = v[1] if v and v[0] in ("init", "addrref") else None
    return L[2] if isinstance(L, tuple) and len(L) == 3 and L[0] == "f" and L[1] == ("obj", "this") else None


def assemble(ck, m, f):
    V = enum_values(m, "Last_example_handling")
    ck.need(V and {"none", "drop", "drop_warn", "pad", "pad_warn"} <= set(V), "the policies of the last example")
    names = {v: k for k, v in V.items()}
    I, N, S = (role(ck, m, n) for n in ("index", "instances", "size"))
    for n, r in (("index", I), ("instances", N), ("size", S)):
        ck.ob("B0 a batch says what it was made of", BATCH + "::" + n, r is not None, "it does not return a member of the batch")
    if None in (I, N, S):
        return
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: is_log(fn))
    rs = ck.interp_done(i, i.run(f))
    w = f.where()
    inv = loop_invariants(rs)
    is_read = lambda e: e.kind == "call" and short(e.name) == "read_instance"
    for r in rs:
        if r.outcome != "return":
            ck.ob("B1 a batch is put together without errors of its own", f.name, False, "it throws", w)
            continue
        tr = r.trace
        segs = loop_segments(tr)
        loops = [(j, k, kind) for j, k, kind in segs if any(is_read(e) for e in tr[j:(k if k is not None else len(tr))])]
        reads = [n for n, e in enumerate(tr) if is_read(e)]
        out = r.value
        if not reads:
            continue            # the batch size is zero: refused by the constructor
        # how reading ended: at the end of the data or with a full batch
        ended, order_ok = None, True
        for n in reads:
            e = tr[n]
            kept = [x for x in tr[n:] if x.kind == "call" and short(x.name) in ("emplace_back", "push_back") and x.args and about_value(x.args[0], e.extra)]
            a, pol = i.cond_has(e.extra)
            v = dict(facts(tr)).get(a)
            v = v if v is None else v == pol
            if v is None:
                ck.ob("B2 reading stops at the end of the data", f.name, False, "it is not asked whether there was another instance", "%s line %s" % (w, e.line))
                continue
            if v:
                ck.ob("B3 every instance is kept once", f.name, len(kept) == 1, "an instance that was read is kept %d times" % len(kept), "%s line %s" % (w, e.line))
            else:
                ck.ob("B3 every instance is kept once", f.name, not kept, "the end of the data is kept as an instance", "%s line %s" % (w, e.line))
                ck.ob("B2 reading stops at the end of the data", f.name, n == reads[-1], "it reads on after the end of the data", "%s line %s" % (w, e.line))
                ended = "end"
        vec = None
        for j, k, kind in loops:
            bound_ok = False
            for L, n, g in (trip_counts(i, tr, j, k) if kind == "iter" else []):
                if is_param(n, "batch_size"):
                    bound_ok = True
            if kind == "iter":
                # or as many as the vector holds
                for e in tr[j:k]:
                    if e.kind == "fact" and e.name[0] in ("pos", "eq") and names_in(e.name, lambda s: s.endswith("::size")) and names_in(e.name, lambda s: s == "batch_size"):
                        bound_ok = True
                ck.ob("B4 a batch has batch_size instances", f.name, bound_ok, "the loop that collects the instances does not end after batch_size of them", w)
                if ended is None:
                    ended = "full"
        if out != NULL and (not out or out[0] != "some" or out[1][0] != "agg"):
            ck.ob("B5 a batch holds what was read", f.name, False, "it returns %s" % show(out), w)
            continue
        agg = dict(out[1][2]) if out != NULL else {}
        vec = agg.get(N)
        W = warns(tr)
        # decide: number of instances 0 < n < batch_size, 0, or batch_size
        H = modes(tr, "last_example_handling", V.values())
        for kind in ("none", "some", "all"):
            if (kind == "all") != (ended == "full"):
                continue
            if not consistent(i, tr, kind):
                continue
            if kind == "none":
                ck.ob("B6 no batch without instances", f.name, out == NULL and not W, "with no instance left it returns a batch or warns", w)
                continue
            for h in H:
                if h is None:
                    continue
                hn = names[h]
                size = agg.get(S)
                what = "a full batch" if kind == "all" else "a last batch that is not full with %s" % hn
                if kind == "all" or hn == "none":
                    ck.ob("B7 the last batch is handled as asked", f.name + " " + hn, out != NULL, "%s is dropped" % what, w)
                    ck.ob("B7 the last batch is handled as asked", f.name + " " + hn, not W, "%s causes a warning" % what, w)
                    if out != NULL:
                        ok = is_size(size, vec) or (kind == "all" and is_param(size, "batch_size"))
                        ck.ob("B8 the size of a batch", f.name + " " + hn, ok, "%s is given the size %s" % (what, show(size)), w)
                elif hn in ("drop", "drop_warn"):
                    ck.ob("B7 the last batch is handled as asked", f.name + " " + hn, out == NULL, "%s is not dropped" % what, w)
                    ck.ob("B7 the last batch is handled as asked", f.name + " " + hn, len(W) == (1 if hn == "drop_warn" else 0), "%s causes %d warnings" % (what, len(W)), w)
                else:
                    ck.ob("B7 the last batch is handled as asked", f.name + " " + hn, out != NULL, "%s is dropped" % what, w)
                    ck.ob("B7 the last batch is handled as asked", f.name + " " + hn, len(W) == (1 if hn == "pad_warn" else 0), "%s causes %d warnings" % (what, len(W)), w)
                    if out != NULL:
                        ck.ob("B8 the size of a batch", f.name + " " + hn, is_param(size, "batch_size"), "%s is given the size %s" % (what, show(size)), w)
        if out != NULL:
            x = agg.get(I)
            L = x[1] if x and x[0] == "init" else None
            ck.ob("B9 batches are numbered", f.name, L is not None and is_this_field(L) and i.add(r.state.store.get(L, ("init", L)), x, -1) == ("c", 1),
                  "a batch gets the number %s and the next one %s" % (show(x), show(r.state.store.get(L)) if L else "?"), w)
            ck.ob("B5 a batch holds what was read", f.name, vec is not None and mentions(vec, lambda t: t[0] in ("r", "mut") and len(t) > 1 and isinstance(t[1], str)), "its instances are %s" % show(vec), w)


def about_value(t, v):
    return t == v or t == ("fld", v, "*") or (isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[1] == v)


def is_size(t, vec):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == "m" and t[1].endswith("::size") and t[2] == vec


def consistent(i, tr, kind):
    """can the number of instances collected be none, fewer than batch_size, or batch_size, as the path's decisions are?"""
    for e in tr:
        if e.kind != "fact":
            continue
        a, v = e.name, e.args[0]
        if a[0] not in ("eq0", "pos", "eq"):
            continue
        sz = lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "m" and t[1].endswith("::size")
        bs = lambda t: is_param(t, "batch_size")
        if a[0] == "eq":
            ts = [(a[1], 1), (a[2], -1)]
            c = 0
            op = "eq0"
        else:
            ts, c, op = list(a[2]), a[1], a[0]
        ok = all(sz(t) or bs(t) for t, _ in ts) and any(sz(t) for t, _ in ts)
        if not ok:
            continue
        # a batch size of 10 stands for all: the decisions are about equality and order
        n = {"none": 0, "some": 4, "all": 10}[kind]
        val = c + sum(k * (n if sz(t) else 10) for t, k in ts)
        if (val == 0 if op == "eq0" else val > 0) != v:
            return False
    return True


def restart(ck, m, f):
    """a reset starts the numbering again"""
    g = m.method(f.cls, "reset")
    if g is None or g.body is None:
        return
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: is_log(fn))
    idx = {e.obj for r in i.run(f) for e in r.trace if e.kind == "write" and is_this_field(e.obj)}
    j = Interp(m, this_cls=g.cls, peel=0)
    for r in ck.interp_done(j, j.run(g)):
        for L in idx:
            ck.ob("B10 a reset starts the numbering again", g.name + " " + show(L), r.state.store.get(L) == ("c", 0), "after a reset it is %s" % show(r.state.store.get(L, ("init", L))), g.where())
        ck.ob("B10 a reset starts the numbering again", g.name, any(e.kind == "call" and short(e.name) == "reset" for e in r.trace), "the instances are not read from the beginning again", g.where())
    for L in idx:
        for c in [x for x in m.methods(f.cls) if x.is_ctor and x.body is not None]:
            k = Interp(m, this_cls=f.cls, peel=0)
            for r in k.run(c):
                if r.outcome == "return" and L in r.state.store:
                    ck.ob("B9 batches are numbered", c.name, r.state.store[L] == ("c", 0), "the first batch gets the number %s" % show(r.state.store[L]), c.where())


# -- rows and padding of the decoders
def batch_decoders(m):
    out = []
    for c in sorted(m.classes):
        for f in m.methods(c):
            if f.body is None or f.short != "decode":
                continue
            if param_of(f, BATCH) is None:
                continue
            leaf = {g.id for g in m.fns.values() if g.body is not None and param_of(g, "mlio::Instance") is not None and (g.cls or "").startswith(c)}
            out.append((c, f, leaf))
    return out


TENSORS = ("make_tensor", "make_tensors", "build", "make_cpu_array")


def run_decoder(ck, m, c, f, leaf):
    i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id in leaf or is_log(fn) or fn.short.startswith("make_tensor") or fn.short in ("bits", "init_state", "build"))
    return i, ck.interp_done(i, i.run(f))


def decoders(ck, m):
    ds = [d for d in batch_decoders(m)]
    ck.need(len(ds) >= 3, "the decoders of the readers")
    for c, f, leaf in ds:
        ids = {n: role(ck, m, n) for n in ("instances", "size")}
        i, rs = run_decoder(ck, m, c, f, leaf)
        B = ("obj", "arg%d" % param_of(f, BATCH))
        size = ("init", ("f", B, ids["size"]))
        nall = lambda t: isinstance(t, tuple) and len(t) == 4 and t[0] == "m" and t[1].endswith("::size") and names_in(t[2], lambda x: x == ids["instances"]) and contains(t[2], B)
        w = f.where()
        done = False
        for r in rs:
            if r.outcome != "return" or r.value == NULL:
                continue
            done = True
            pads = [e for e in r.trace if e.kind == "write" and isinstance(e.name, str) and e.name == "padding"]
            if not pads:
                ck.ob("D1 the padding is the rows that hold no instance", f.name, False, "an example is returned without its padding", w)
                continue
            v = pads[-1].args[0]
            c0, d = i.lin(v)
            rest = {k: x for k, x in d.items() if k != size}
            ok = c0 == 0 and d.get(size) == 1 and len(rest) == 1
            k = next(iter(rest)) if len(rest) == 1 else None
            while isinstance(k, tuple) and k[0] == "fld" and k[1][0] == "some":
                k = k[1][1]
                rest = {k: -1}
            ok = ok and rest[k] == -1
            ck.ob("D1 the padding is the rows that hold no instance", f.name, ok, "the padding is %s" % show(v), w)
            if not ok:
                continue
            par = any(e.kind == "call" and "parallel" in e.name for e in r.trace)
            leaves = [e for e in r.trace if is_leaf(e, m, leaf)]
            if nall(k):
                bad = any(truth_of(r.trace, e) is False for e in leaves)
                ck.ob("D2 the rows that hold an instance are counted", f.name, not bad and (par or not leaves), "bad instances are counted as rows", w)
                continue
            ok, why = counter(i, r, k, m, leaf)
            ck.ob("D2 the rows that hold an instance are counted", f.name, ok, why, w)
        rows(ck, i, m, f, rs, leaf, B, ids["instances"], w)
        ck.ob("D1 the padding is the rows that hold no instance", f.name, done, "it never returns an example", w)
        # the tensors have as many rows as the batch
        for r in rs:
            for e in r.trace:
                if e.kind == "call" and (short(e.name).startswith("make_tensor") or short(e.name) == "init_state") and e.args:
                    ck.ob("D3 the tensors have a row for each of the batch", f.name, size in e.args, "the tensors are made for %s" % ", ".join(show(a) for a in e.args), w)


def rows(ck, i, m, f, rs, leaf, B, inst, w):
    """instances are decoded in order, each into the row behind the last good one"""
    for r in rs:
        tr = r.trace
        for j, n, kind in loop_segments(tr):
            over = any(e.kind == "fact" and e.name[0] == "more" and contains(e.name, B) and names_in(e.name, lambda x: x == inst) and e.args[0] for e in tr[j:n])
            lv = [e for e in tr[j:n] if is_leaf(e, m, leaf)]
            if not over and not lv:
                continue
            ent = tr[j].extra or {}
            end = tr[n].extra or {} if n is not None and kind == "iter" else None
            if leaf:
                if not lv:
                    ck.ob("D4 every instance of the batch is decoded", f.name, False, "an instance is passed over", w)
                    continue
                for e in lv:
                    el = [a for a in e.args if isinstance(a, tuple) and contains(a, B) and names_in(a, lambda x: x.startswith("iter"))]
                    ck.ob("D4 every instance of the batch is decoded", f.name, bool(el) or not over, "it is not the instance at hand that is decoded", w)
                    t = truth_of(tr, e)
                    if t is None or end is None:
                        continue
                    row = False
                    for L, (en, fr) in ent.items():
                        if not any(contains(a, fr) for a in e.args):
                            continue
                        row = True
                        same = end.get(L, fr) == fr
                        ck.ob("D5 good instances follow each other without gaps", f.name, same != t, "the row of the next instance is %s after a %s one" % ("the same" if same else "another", "good" if t else "bad"), w)
                    ck.ob("D5 good instances follow each other without gaps", f.name, row, "all instances are decoded into the same row", w)
            elif end is not None:
                ws = []
                for e in tr[j:n]:
                    if e.kind in ("write", "assign") and e.obj and e.obj[0] == "*":
                        ws += [L for L, (en, fr) in ent.items() if e.obj[1] == fr and i.add(end.get(L, fr), fr, -1) == ("c", 1)]
                ck.ob("D4 every instance of the batch is decoded", f.name, len(ws) == 1, "an instance is written to %d rows" % len(ws), w)


def is_leaf(e, m, leaf):
    nd = e.node if isinstance(e.node, dict) else None
    return nd is not None and nd.get("id") in leaf


def truth_of(tr, e):
    for a, v in facts(tr):
        if contains(a, e.extra):
            if a[0] == "has" or a[0] == "pos":
                return v
            if a[0] == "eq0":
                return not v
            return v
    return None


def counter(i, r, k, m, leaf):
    """k counts the instances that were decoded"""
    tr = r.trace
    for j, n, kind in loop_segments(tr):
        ent = tr[j].extra or {}
        for L, (en, fr) in ent.items():
            after = [x for x in tr if x.kind == "endloop" and x.node is tr[j].node]
            heads = {fr} | {(x.extra or {}).get(L) for x in after}
            if k in heads:
                if en != ("c", 0):
                    return False, "the count starts with %s" % show(en)
                if kind != "iter":
                    return True, ""
                end = (tr[n].extra or {}).get(L, fr)
                lv = [e for e in tr[j:n] if is_leaf(e, m, leaf)]
                good = all(truth_of(tr, e) is True for e in lv) if lv else None
                d = i.add(end, fr, -1)
                if lv and good and d != ("c", 1):
                    return False, "a decoded instance changes the count by %s" % show(d)
                if lv and not good and d != ("c", 0):
                    return False, "a bad instance changes the count by %s" % show(d)
                if not lv and d != ("c", 1):
                    return False, "an instance changes the count by %s" % show(d)
                return True, ""
    # no iteration on this path: the count is what it started with
    if k == ("c", 0):
        return True, ""
    return False, "%s is no count of the instances that were decoded" % show(k)
