"""Streams deliver the bytes of their source: all of them, once, in order, and zero bytes mean the end.

Per concrete stream class, on every path of its operations (loops abstracted, values symbolic): a zero result needs evidence
that the source has ended; the positions of the stream and of its buffers advance by exactly what was delivered or consumed;
and every loop that reads from a stream advances its destination by each count and ends only at zero or when it is full."""
from util import *
from absint import show, Interp, NULL
from model import fn_nodes
from checks.c11 import BASE, final

ASSUMPTIONS = ["inflate and iconv process their arguments as documented: they advance the input and the output by what they consumed and produced.",
               "A read of a file, pipe or user-implemented stream returns zero for a non-empty destination only at its end."]


def run(ck):
    m = ck.model("core")
    classes = [c for c in m.concrete(BASE) if c != BASE and final(m, c, "read") and final(m, c, "close")]
    ck.need(len(classes) >= 5, "concrete input streams (found %s)" % classes)
    for c in classes:
        if any("S3_client" in x["t"] for _, x in m.fields(c)):
            ck.notes.append(c + ": its reads are those of the storage service's client, which this build leaves out")
            continue
        for f in final(m, c, "read"):
            if "span" in f.params[0]["t"]:
                zero_is_end(ck, m, c, f)
                forwards(ck, m, c, f)
    memory_stream(ck, m)
    base_read(ck, m)
    file_stream(ck, m)
    gzip_stream(ck, m)
    inflater(ck, m)
    utf8_stream(ck, m)
    converter(ck, m)
    preamble(ck, m)
    read_loops(ck, m)


def interp(m, c=None, **kw):
    return Interp(m, this_cls=c, peel=0, **kw)


def runs(ck, i, f, **kw):
    return ck.interp_done(i, i.run(f, **kw))


def known(i, r, c):
    a, pol = c
    if a is None or isinstance(a, bool):
        return pol if a is None else a == pol
    d = dict(facts(r.trace)).get(a)
    if d is None:
        d = i.decide(r.state, a)
    return None if d is None else d == pol


def is_zero(i, r, v):
    if v[0] == "cond":
        return None
    z = known(i, r, i.cond_eq(v, ("c", 0)))
    if z is None and v[0] == "lin":
        c, d = i.lin(v)
        if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
            a, b = sorted(d, key=lambda k: -d[k])
            z = known(i, r, i.cond_eq(a, b))
            if z is None:
                z = known(i, r, i.cond_eq(b, a))
    return z


def nonzero(i, r, v):
    """Is v known not to be zero on path r?"""
    if is_zero(i, r, v) is False:
        return True
    if v[0] == "m" and v[1] == "std::min":
        return all(nonzero(i, r, x) for x in v[3])
    return False


def is_min(i, r, v, a, b):
    """Is v = min(a, b) on path r?"""
    if v[0] == "m" and v[1] == "std::min" and (set(v[3]) == {a, b}):
        return True
    if v == a and known(i, r, i.cond_lt(b, a)) is False:
        return True
    if v == b and known(i, r, i.cond_lt(a, b)) is False:
        return True
    return False


def span_of(i, v):
    return i.project(v, ("f", None, "data_")), i.project(v, ("f", None, "size_"))


def arg(f, n=0):
    o = ("obj", "arg%d" % n)
    return ("init", ("f", o, "data_")), ("init", ("f", o, "size_"))


def inner_reads(r):
    return [e for e in r.trace if e.kind == "call" and (e.name == "read" or e.name == BASE + "::read")]


# ---------------------------------------------------------------- zero means end

def zero_is_end(ck, m, c, f, done=()):
    helpers = [g for g in m.methods(c) if g.body is not None and g.id != f.id and g.short != "read" and g.params and "span" in g.params[0]["t"] and "const" not in g.params[0]["t"]
               and g.ret == "unsigned long" and any(t.get("k") == "call" and t.get("id") == g.id for t in fn_nodes(f))
               and any(t.get("k") in ("while", "for", "do") for t in fn_nodes(g))]
    for g in helpers:
        if g.id not in done:
            zero_is_end(ck, m, c, g, tuple(done) + (f.id, g.id))
    opq = {g.id for g in helpers} | {g.id for g in allfns(m) if not g.cls and g.ret == "unsigned long" and len(g.params) == 2 and "Input_stream" in g.params[0]["t"] and "span" in g.params[1]["t"]}
    i = interp(m, c, opaque=lambda fn, call: fn.id in opq)
    left = distance_left(ck, m, c, i)
    D, S = arg(f)
    n = 0
    for r in runs(ck, i, f):
        if r.outcome != "return":
            continue
        n += 1
        v = r.value
        if v[0] == "init" and v[1] == ("obj", "arg0"):
            continue
        ok = False
        if nonzero(i, r, v):
            ok = True
        elif is_zero(i, r, S):
            ok = is_zero(i, r, v)
        else:
            ok = ended(i, r, v, left, opq)
        ck.ob("R1 zero bytes are returned only at the end", f.name, ok, "%s may be zero although nothing shows that the source has ended (%s)" % (show(v), fact_texts(r.trace)), f.where())
    ck.need(n, "paths of " + f.name)


def ended(i, r, v, left, opq):
    """Evidence on path r that v is zero only if the source has ended."""
    src = [e for e in inner_reads(r)] + [e for e in r.trace if e.kind == "call" and e.node is not None and e.node.get("id") in opq]
    for e in src:
        x = e.extra
        if x is None:
            continue
        if v == x:
            return True                                             # the count of the source itself
        if v[0] == "m" and v[1] == "std::min" and x in v[3] and all(y == x or nonzero(i, r, y) for y in v[3]):
            return True
        if is_zero(i, r, v):
            if is_zero(i, r, x):
                return True
            if known(i, r, i.cond_eq(("fld", x, "beg_"), ("fld", x, "end_"))):
                return True
    # size of the source minus the position in it
    for x in left:
        if is_zero(i, r, x):
            return True
        if v[0] == "m" and v[1] == "std::min" and all(y in left or nonzero(i, r, y) for y in v[3]):
            return True
        if v in left:
            return True
    return False


def distance_left(ck, m, c, i):
    """size() - position(), where the class can tell."""
    out = []
    for f in final(m, c, "size"):
        for g in final(m, c, "position"):
            for r in runs(ck, i, f):
                for q in runs(ck, i, g):
                    if r.outcome == q.outcome == "return" and r.value[0] in ("init", "lin", "c") and q.value[0] in ("init", "lin", "c"):
                        out.append(i.add(r.value, q.value, -1))
    return out


def forwards(ck, m, c, f):
    """A read that hands its destination on hands on all of it (the count of the source is the count of the stream)."""
    i = interp(m, c)
    D, S = arg(f)
    for r in runs(ck, i, f):
        if r.outcome != "return":
            continue
        for e in inner_reads(r):
            if e.extra is None or r.value != e.extra:
                continue
            if e.name == "read":
                d, s = e.args[1], e.args[2]
            else:
                d, s = span_of(i, e.args[0])
            ok = d == D and (s == S or known(i, r, i.cond_lt(S, s)) is False or s[0] == "m" and s[1] == "std::min" and S in s[3])
            ck.ob("R2 what is read lands at the destination", f.name, ok, "the source is read into %s, %s bytes" % (show(d), show(s)), where(e))


# ---------------------------------------------------------------- memory

MS = "mlio::Memory_input_stream"


def memory_stream(ck, m):
    c = MS
    ck.need(c in m.classes, c)
    i = interp(m, c)
    P0 = ("init", this_field("pos_"))
    src = this_field("source_")
    B, E = ("init", ("f", src, "beg_")), ("init", ("f", src, "end_"))
    left = i.add(E, P0, -1)
    for f in final(m, c, "read"):
        sp = "span" in f.params[0]["t"]
        D, S = arg(f) if sp else (None, ("init", ("obj", "arg0")))
        for r in runs(ck, i, f):
            if r.outcome != "return":
                continue
            P1 = i.read(r.state, this_field("pos_"))
            n = i.add(P1, P0, -1)
            if is_zero(i, r, S):
                ck.ob("R3 the position advances by what was read", f.name, P1 == P0, "the position moves although nothing is read", f.where())
                continue
            at_end = is_zero(i, r, left)
            ck.ob("R3 the position advances by what was read", f.name, is_min(i, r, n, S, left) or at_end and P1 == P0,
                  "the position advances by %s" % show(n), f.where())
            if at_end and P1 == P0:
                continue
            if sp:
                cp = [e for e in r.trace if e.kind == "call" and e.name in ("std::copy", "std::copy_n", "memcpy", "std::memcpy", "memmove", "std::memmove")]
                ok = r.value == n
                for e in cp:
                    if e.name == "std::copy":
                        s, k, d = e.args[0], i.add(e.args[1], e.args[0], -1), e.args[2]
                    elif e.name == "std::copy_n":
                        s, k, d = e.args
                    else:
                        d, s, k = e.args
                    ok = ok and s == P0 and k == n and d == D
                ck.ob("R3 the bytes at the position are delivered", f.name, ok and len(cp) == 1, "copied: %s; returned: %s" % ([[show(a) for a in e.args] for e in cp], show(r.value)), f.where())
            else:
                b, e = i.project(r.value, ("f", None, "beg_")), i.project(r.value, ("f", None, "end_"))
                ck.ob("R3 the bytes at the position are delivered", f.name, b == P0 and e == P1, "the slice returned is [%s, %s)" % (show(b), show(e)), f.where())
    for f in final(m, c, "seek"):
        for r in runs(ck, i, f):
            if r.outcome == "return":
                n = i.add(i.read(r.state, this_field("pos_")), B, -1)
                ck.ob("R4 seek sets the position, at most to the end", f.name, is_min(i, r, n, ("init", ("obj", "arg0")), i.add(E, B, -1)), "the position becomes %s" % show(n), f.where())
    for op, t in (("size", i.add(E, B, -1)), ("position", i.add(P0, B, -1))):
        for f in final(m, c, op):
            for r in runs(ck, i, f):
                if r.outcome == "return":
                    ck.ob("R4 size and position are those of the source", f.name, r.value == t, "it returns %s" % show(r.value), f.where())


def base_read(ck, m):
    c = "mlio::Input_stream_base"
    for f in final(m, c, "read"):
        if f.cls != c or "span" in f.params[0]["t"]:
            continue
        i = interp(m, c)
        n = 0
        for r in runs(ck, i, f):
            if r.outcome != "return":
                continue
            rd = [e for e in r.trace if e.kind == "call" and short(e.name) == "read"]
            n += 1
            al = [e for e in r.trace if e.kind == "call" and short(e.name) == "allocate"]
            b, e_ = i.project(r.value, ("f", None, "beg_")), i.project(r.value, ("f", None, "end_"))
            ok = len(rd) == 1 and i.add(e_, b, -1) == rd[0].extra and (not al or al[0].args[0] == ("init", ("obj", "arg0")))
            ck.ob("R2 what is read lands at the destination", f.name, ok, "the slice has %s bytes" % show(i.add(e_, b, -1)), f.where())
            d, s = span_of(i, rd[0].args[0]) if rd else (None, None)
            ck.ob("R2 what is read lands at the destination", f.name + " (start)", d == b or contains(b, d) or contains(d, b), "the slice starts at %s, the read at %s" % (show(b), show(d)) if d else "", f.where())
        ck.need(n, "paths of " + f.name)


def file_stream(ck, m):
    for c in m.concrete(BASE):
        for f in final(m, c, "seek"):
            if f.cls != c:
                continue
            i = interp(m, c)
            for r in runs(ck, i, f):
                for e in r.trace:
                    if e.kind == "call" and e.name in ("lseek", "lseek64"):
                        n = e.args[1]
                        sz = [x.extra for x in r.trace if x.kind == "call" and short(x.name) == "size"]
                        a = ("init", ("obj", "arg0"))
                        size = size_of_file(i, r)
                        ok = e.args[2] == ("c", 0) and (n == a or size is not None and is_min(i, r, n, a, size))
                        ck.ob("R4 seek sets the position, at most to the end", f.name, ok, "lseek(%s, %s)" % (show(n), show(e.args[2])), where(e))
        for f in final(m, c, "position"):
            if f.cls != c:
                continue
            i = interp(m, c)
            for r in runs(ck, i, f):
                ls = [e for e in r.trace if e.kind == "call" and e.name in ("lseek", "lseek64")]
                if r.outcome == "return" and ls:
                    ck.ob("R4 size and position are those of the source", f.name, len(ls) == 1 and ls[0].args[1] == ("c", 0) and ls[0].args[2] == ("c", 1) and r.value == ls[0].extra,
                          "it returns %s" % show(r.value), f.where())
        for f in final(m, c, "size"):
            if f.cls != c:
                continue
            i = interp(m, c)
            for r in runs(ck, i, f):
                if r.outcome == "return" and any(e.kind == "call" and e.name in ("fstat", "fstat64") for e in r.trace):
                    ck.ob("R4 size and position are those of the source", f.name, size_of_file(i, r) == r.value or contains_fld(r.value, "st_size"), "it returns %s" % show(r.value), f.where())


def contains_fld(v, n):
    return mentions(v, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] in ("f", "fld") and x[2] == n)


def size_of_file(i, r):
    v = i.read(r.state, this_field("size_"))
    return v


# ---------------------------------------------------------------- gzip

def calls(r, *names):
    return [e for e in r.trace if e.kind == "call" and short(e.name) in names]


def gzip_stream(ck, m):
    c = next((x for x in m.concrete(BASE) if any(any(short(t.get("fn") or "") == "inflate" for t in fn_nodes(f) if t.get("k") == "call") for f in final(m, x, "read"))), None)
    ck.need(c, "the stream that inflates")
    f = next(f for f in final(m, c, "read") if "span" in f.params[0]["t"])
    i = interp(m, c, opaque=lambda fn, call: fn.short == "inflate")
    n = 0
    buf, pos = this_field("buffer_"), this_field("buffer_pos_")
    D, S = arg(f)
    for r in runs(ck, i, f):
        inf = [k for k, e in enumerate(r.trace) if e.kind == "call" and short(e.name) == "inflate"]
        rb = [k for k, e in enumerate(r.trace) if e.kind == "call" and e.name == BASE + "::read"]
        fx = r.trace
        lo = next((e for e in fx if e.kind == "loop"), None)
        ent = (lo.extra if lo else {}) or {}
        P = ent[pos][1] if pos in ent else ("init", pos)
        Bv = ent[buf][1] if buf in ent else ("init", buf)
        Bend = i.project(Bv, ("f", None, "end_"))
        done = known(i, r, i.cond_eq(P, Bend))
        if done is None:
            done = known(i, r, i.cond_eq(Bend, P))
        for k in rb:
            n += 1
            ck.ob("R5 compressed bytes are consumed once, in order", f.name + " (refill)", done, "the buffer is replaced before all of it was inflated", where(fx[k]))
        for k in inf:
            e = fx[k]
            cur = fx[rb[-1]].extra if rb and rb[-1] < k else Bv
            start = i.project(cur, ("f", None, "beg_")) if rb and rb[-1] < k else P
            end = i.project(cur, ("f", None, "end_"))
            d, s = span_of(i, e.args[0])
            ck.ob("R5 compressed bytes are consumed once, in order", f.name, d == start and s == i.add(end, start, -1), "inflate gets [%s, +%s)" % (show(d), show(s)), where(e))
            od, os_ = span_of(i, e.args[1])
            okd = os_ == S and od == D or od[0] == "r" and os_[0] == "r" or od == D
            ck.ob("R2 what is read lands at the destination", f.name, okd, "inflate writes to [%s, +%s)" % (show(od), show(os_)), where(e))
            # after it: position = end - what is left of the input
            left = None
            for e2 in fx[:k + 1]:
                if e2.kind == "lwrite" and e2.obj is not None and e.locs and e.locs[0] == e2.obj:
                    left = e2.args[0]
            it = next((x for x in fx[k:] if x.kind == "iter"), None)
            P2 = (it.extra or {}).get(pos) if it is not None else i.read(r.state, pos)
            if P2 is None:
                P2 = i.read(r.state, pos)
            if left is not None and r.outcome == "return":
                ck.ob("R5 compressed bytes are consumed once, in order", f.name + " (position)", P2 == i.add(end, i.project(left, ("f", None, "size_")), -1),
                      "the position becomes %s" % show(P2), where(e))
        if r.outcome == "return" and is_zero(i, r, S) is False:
            if is_zero(i, r, r.value):
                # end of the source: only if the compressed data is complete
                eof = [x for x, t in facts(fx) if contains_fld(x, "state_") and t] or any(short(e.name) == "eof" for e in fx if e.kind == "call")
                ck.ob("R6 truncated data is reported", f.name, bool(eof), "the end is reported without knowing that the compressed data is complete", f.where())
    ck.need(n >= 1, "refills of the compressed buffer")


def inflater(ck, m):
    fs = [f for f in m.fns if f.body is not None and any(t.get("k") == "call" and t.get("fn") == "inflate" for t in fn_nodes(f))] if not isinstance(m.fns, dict) else \
         [f for f in m.fns.values() if f.body is not None and any(t.get("k") == "call" and t.get("fn") == "inflate" for t in fn_nodes(f))]
    ck.need(fs, "the caller of ::inflate")
    for f in fs:
        i = interp(m, f.cls)
        for r in runs(ck, i, f):
            if r.outcome != "return":
                continue
            for k, e in enumerate(r.trace):
                if e.kind != "call" or e.name != "inflate":
                    continue
                w = {}
                for x in r.trace[:k + 1]:
                    if x.kind == "write" and x.name in ("next_in", "next_out", "avail_in", "avail_out"):
                        w[x.name] = x.args[0]
                for side, (p, a, A) in enumerate((("next_in", "avail_in", 0), ("next_out", "avail_out", 1))):
                    D, S = arg(f, A)
                    ok = w.get(p) == D and w.get(a) is not None and (w[a] == S or w[a][0] == "m" and w[a][1] == "std::min" and S in w[a][3] or known(i, r, i.cond_lt(S, w[a])) is False)
                    ck.ob("R7 the inflater processes the whole input and output", f.name + " " + p, ok, "%s = %s, %s = %s" % (p, show(w.get(p, ("?",))), a, show(w.get(a, ("?",)))), where(e))
                    d2 = i.read(r.state, ("f", ("obj", "arg%d" % A), "data_"))
                    s2 = i.read(r.state, ("f", ("obj", "arg%d" % A), "size_"))
                    used = i.add(S, s2, -1)
                    moved = i.add(d2, D, -1)
                    la = [i.project(x.args[0], ("f", None, a)) for x in r.trace[k - 6:] if x.kind == "write" and x.args and contains(x.args[0], "out:inflate") or
                          x.kind == "write" and x.args and x.args[0][0] == "r" and str(x.args[0][1]).startswith("out:inflate")]
                    want = [i.add(w[a], v, -1) for v in la] if w.get(a) else []
                    ck.ob("R7 the inflater processes the whole input and output", f.name + " " + a, used == moved and used in want,
                          "the span advances by %s and shrinks by %s; the call used %s" % (show(moved), show(used), [show(x) for x in want]), where(e))


# ---------------------------------------------------------------- UTF-8

def utf8_stream(ck, m):
    c = next((x for x in m.concrete(BASE) if any(f.body is not None and any(short(t.get("fn") or "") == "convert" for t in fn_nodes(f) if t.get("k") == "call") for f in m.methods(x))), None)
    ck.need(c, "the stream that converts")
    # the function with the conversion loop
    conv = [f for f in m.methods(c) if f.body is not None and any(t.get("k") == "call" and (t.get("fn") or "").endswith("Iconv_desc::convert") for t in fn_nodes(f))]
    ck.need(len(conv) == 1, "the conversion loop of " + c)
    f = conv[0]
    i = interp(m, c, opaque=lambda fn, call: fn.name.endswith("Iconv_desc::convert") or fn.short == "fill_buffer" and fn.cls is None)
    B = ("m", "mlio::Memory_block::data", None, ())
    pos, end, fill = this_field("buffer_pos_"), this_field("buffer_end_"), this_field("should_fill_buffer_")
    blocks = set()
    seen = set()
    D, S = arg(f)
    for r in runs(ck, i, f):
        tr = r.trace
        lo = next((e for e in tr if e.kind == "loop"), None)
        ent = (lo.extra if lo else {}) or {}

        def start(L):
            return ent[L][1] if L in ent else ("init", L)
        P, E, F = start(pos), start(end), start(fill)
        need = known(i, r, i.cond_has(F))
        fills = [k for k, e in enumerate(tr) if e.kind == "call" and (short(e.name) == "fill_buffer" or e.name == BASE + "::read")]
        cvs = [k for k, e in enumerate(tr) if e.kind == "call" and short(e.name) == "convert"]
        data = [e.extra for e in tr if e.kind == "call" and e.name.lower().endswith("memory_block::data")]
        beg = data[0] if data else None
        E1 = E
        for k in fills:
            e = tr[k]
            seen.add("fill")
            sp = next((a for a in e.args if a[0] in ("agg",)), None)
            d, s = span_of(i, sp) if sp else (None, None)
            size = ("m", "mlio::Memory_block::size", beg[2], ()) if beg else None
            ck.ob("R8 characters split between two reads are kept", f.name + " (refill)", need and d == P and size is not None and s == i.add(i.add(beg, size), P, -1),
                  "the buffer is filled at %s, %s bytes, %s" % (show(d) if d else "?", show(s) if s else "?", "" if need else "although it is not used up"), where(e))
            E1 = i.add(P, e.extra)
        for k in cvs:
            e = tr[k]
            d, s = span_of(i, e.args[0])
            st = beg if fills else P
            ck.ob("R8 characters split between two reads are kept", f.name + " (input)", d == st and s == i.add(E1, st, -1), "the input is [%s, +%s)" % (show(d), show(s)), where(e))
            od, os_ = span_of(i, e.args[1])
            left = None
            for e2 in tr[:k + 1]:
                if e2.kind == "lwrite" and e2.obj is not None and e.locs and e.locs[0] == e2.obj:
                    left = e2.args[0]
            if left is None or r.outcome != "return":
                continue
            ld, ls = span_of(i, left)
            it = next((x for x in tr[k:] if x.kind == "iter"), None)
            src = (it.extra or {}) if it is not None else {}
            P2 = src.get(pos, i.read(r.state, pos))
            F2 = src.get(fill, i.read(r.state, fill))
            copies = [x for x in tr[k:] if x.kind == "call" and x.name in ("std::copy", "std::copy_n", "memmove", "std::memmove")]
            moved = False
            for x in copies:
                if x.name == "std::copy":
                    cs, cn, cd = x.args[0], i.add(x.args[1], x.args[0], -1), x.args[2]
                elif x.name == "std::copy_n":
                    cs, cn, cd = x.args
                else:
                    cd, cs, cn = x.args
                moved = moved or cs == ld and cn == ls and cd == data[-1]
            status = e.extra
            st_facts = [(a, t) for a, t in facts(tr) if contains(a, status)]
            inc = status_is(i, r, m, status, "incomplete_char")
            lft = status_is(i, r, m, status, "leftover")
            okk = status_is(i, r, m, status, "ok") or inc is False and lft is False
            seen.add("incomplete" if inc else "leftover" if lft else "ok" if okk else "?")
            if F2 == ("c", True) or F2 == ("c", 1):
                if moved:
                    ok = P2 == i.add(data[-1], ls)
                    why = "the remainder is moved to the front but the position becomes %s" % show(P2)
                else:
                    ok = okk and P2 == data[-1]
                    why = "the rest of the input is dropped: the buffer is filled anew from %s" % show(P2)
            else:
                ok = not okk and not inc and (P2 == i.add(E1, ls, -1) or P2 == ld)
                why = "the position becomes %s without a refill" % show(P2)
            ck.ob("R8 characters split between two reads are kept", f.name, ok, why, where(e))
        # the value: what was written to the destination
        if r.outcome == "return" and is_zero(i, r, r.value):
            fl = [tr[k].extra for k in fills]
            ok = any(is_zero(i, r, x) or known(i, r, i.cond_eq(i.add(P, x), P)) for x in fl)
            empty = beg is not None and known(i, r, i.cond_eq(P, beg))
            ck.ob("R6 truncated data is reported", f.name, ok and empty, "the end is reported while part of a character is left", f.where())
    ck.need({"fill", "incomplete", "leftover", "ok"} <= seen, "the cases of the conversion loop (found %s)" % sorted(seen))
    # what was converted beforehand is delivered first
    i = interp(m, c, opaque=lambda fn, call: fn.id == f.id)
    rem = this_field("remaining_bits_")
    for g in final(m, c, "read"):
        if "span" not in g.params[0]["t"]:
            continue
        D, S = arg(g)
        for r in runs(ck, i, g):
            if r.outcome != "return":
                continue
            had = is_zero(i, r, ("init", ("f", rem, "size_"))) is False
            cps = [x for x in r.trace if x.kind == "call" and x.name in ("std::copy_n", "std::copy", "memcpy", "std::memcpy")]
            src = [e for e in r.trace if e.kind == "call" and (e.name == BASE + "::read" or short(e.name) == f.short)]
            if had:
                ck.ob("R9 bytes held back are delivered before new ones", g.name, not src, "the source is read while bytes are held back", g.where())
            if had or cps:
                RD, RS = ("init", ("f", rem, "data_")), ("init", ("f", rem, "size_"))
                if src:
                    d, s = span_of(i, src[-1].args[0])
                    RD, RS = d, src[-1].extra
                n = r.value
                ok = len(cps) == 1
                for x in cps:
                    if x.name == "std::copy":
                        cs, cn, cd = x.args[0], i.add(x.args[1], x.args[0], -1), x.args[2]
                    elif x.name == "std::copy_n":
                        cs, cn, cd = x.args
                    else:
                        cd, cs, cn = x.args
                    ok = ok and cs == RD and cn == n and cd == D
                ok = ok and is_min(i, r, n, RS, S)
                d2, s2 = i.read(r.state, ("f", rem, "data_")), i.read(r.state, ("f", rem, "size_"))
                ck.ob("R9 bytes held back are delivered before new ones", g.name, ok, "%s bytes are delivered from %s" % (show(n), [[show(a) for a in x.args] for x in cps]), g.where())
                ck.ob("R9 bytes held back are delivered before new ones", g.name + " (rest)", s2 == i.add(RS, n, -1) and (d2 == i.add(RD, n) or is_zero(i, r, s2)),
                      "[%s, +%s) is held back afterwards" % (show(d2), show(s2)), g.where())
    # a character always fits
    for g in final(m, c, "read"):
        if "span" not in g.params[0]["t"]:
            continue
        for r in runs(ck, i, g):
            for e in r.trace:
                if e.kind == "call" and short(e.name) == f.short and e.obj == ("obj", "this"):
                    d, s = span_of(i, e.args[0])
                    big = known(i, r, i.cond_lt(s, ("c", 4))) is False or array_size(m, c, s) >= 4
                    ck.ob("R10 a whole character fits where it is converted to", g.name, big, "the output has %s bytes" % show(s), where(e))


def array_size(m, c, s):
    if s[0] == "c":
        return s[1]
    if s[0] == "m" and s[1] == "std::array::size" and s[2][0] == "f":
        t = next((x["t"] for _, x in m.fields(c) if x["n"] == s[2][2]), "")
        try:
            return int(t.rsplit(",", 1)[1].strip(" >UL"))
        except (IndexError, ValueError):
            return 0
    return 0


def status_is(i, r, m, v, name):
    """Is the converter's status known to be (or not to be) the named one?"""
    for n, d in m.enums.items():
        for k, x in d["c"]:
            if short(n) == "Iconv_status" and k == name:
                return known(i, r, i.cond_eq(v, ("c", x)))
    return None


def converter(ck, m):
    fs = [f for f in allfns(m) if f.body is not None and any(t.get("k") == "call" and t.get("fn") == "iconv" for t in fn_nodes(f))]
    ck.need(fs, "the caller of ::iconv")
    for f in fs:
        i = interp(m, f.cls)
        for r in runs(ck, i, f):
            if r.outcome != "return":
                continue
            for k, e in enumerate(r.trace):
                if e.kind != "call" or e.name != "iconv":
                    continue
                ptr = {}
                for x in r.trace[:k + 1]:
                    if x.kind == "lwrite" and x.obj in [a[1] for a in e.args if a[0] == "addr"]:
                        ptr.setdefault(x.obj, []).append(x.args[0])
                locs = [a[1] if a[0] == "addr" else None for a in e.args]
                for side, (p, n) in enumerate(((1, 2), (3, 4))):
                    D, S = arg(f, side)
                    before = [ptr.get(locs[p], [("?",)])[0], ptr.get(locs[n], [("?",)])[0]]
                    ck.ob("R7 the converter processes the whole input and output", f.name + " arg%d" % side, before == [D, S], "it is given [%s, +%s)" % tuple(show(x) for x in before), where(e))
                    after = ptr.get(locs[n], [("?",)])[-1]
                    d2 = i.read(r.state, ("f", ("obj", "arg%d" % side), "data_"))
                    s2 = i.read(r.state, ("f", ("obj", "arg%d" % side), "size_"))
                    ok = s2 == after and (i.add(d2, D, -1) == i.add(S, after, -1) or d2 == ptr.get(locs[p], [("?",)])[-1])
                    ck.ob("R7 the converter processes the whole input and output", f.name + " left%d" % side, ok, "[%s, +%s) is left" % (show(d2), show(s2)), where(e))


def allfns(m):
    return list(m.fns.values()) if isinstance(m.fns, dict) else list(m.fns)


# ---------------------------------------------------------------- preamble

def preamble(ck, m):
    """Functions that read from a stream and hand out a stream: what they read is not lost."""
    n = 0
    for f in allfns(m):
        if f.body is None or f.cls or "Input_stream" not in f.ret or not f.params or "Input_stream" not in f.params[0]["t"]:
            continue
        if not any(t.get("k") == "call" and short(t.get("fn") or "") in ("fill_buffer", "read") for t in fn_nodes(f)):
            continue
        i = interp(m, None, opaque=lambda fn, call: fn.short in ("fill_buffer", "set_preamble", "infer_bom_encoding"))
        for r in runs(ck, i, f):
            if r.outcome != "return":
                continue
            rd = [k for k, e in enumerate(r.trace) if e.kind == "call" and short(e.name) in ("fill_buffer", "read")]
            sk = [k for k, e in enumerate(r.trace) if e.kind == "call" and short(e.name) == "seek" and e.args == (("c", 0),)]
            sp = [k for k, e in enumerate(r.trace) if e.kind == "call" and short(e.name) == "set_preamble"]
            n += 1
            ok = not rd or any(k > rd[-1] for k in sk)
            if not ok:
                for k in sp:
                    src = r.trace[rd[-1]]
                    ok = ok or any(i.project(a, ("f", None, "size_")) == src.extra for a in r.trace[k].args if a[0] == "agg")
            ck.ob("R11 bytes read to recognise the encoding are not lost", f.name, ok, "the stream is returned behind the bytes that were read (%s)" % fact_texts(r.trace), f.where())
    ck.need(n, "functions that look at the beginning of a stream")
    # set_preamble keeps them in front
    for f in allfns(m):
        if f.short != "set_preamble" or f.body is None or not f.cls or not m.derives(f.cls, BASE):
            continue
        i = interp(m, f.cls)
        D, S = arg(f)
        for r in runs(ck, i, f):
            if r.outcome != "return":
                continue
            cps = [x for x in r.trace if x.kind == "call" and x.name in ("std::copy", "std::copy_n")]
            ok = len(cps) == 1 and cps[0].args[0] == D
            if ok:
                x = cps[0]
                k = i.add(x.args[1], D, -1) if x.name == "std::copy" else x.args[1]
                dst = x.args[2]
                ok = k == S
                rs, rd = i.read(r.state, ("f", this_field("remaining_bits_"), "size_")), i.read(r.state, ("f", this_field("remaining_bits_"), "data_"))
                en = i.read(r.state, this_field("buffer_end_"))
                po = i.read(r.state, this_field("buffer_pos_"))
                fl = i.read(r.state, this_field("should_fill_buffer_"))
                held = rs == S and rd == dst
                buffered = en == i.add(dst, S) and (fl[0] in ("cond",) and (i.cond_eq(S, ("c", 0)) == (fl[1], fl[2])) or fl in (("c", False), ("c", 0)) or fl == ("cond",) + i.cond_eq(S, ("c", 0)))
                ok = ok and (held or buffered)
            ck.ob("R11 bytes read to recognise the encoding are not lost", f.name, ok, "they are neither held back nor in the buffer to be converted", f.where())


# ---------------------------------------------------------------- loops

def read_loops(ck, m):
    n = 0
    for f in allfns(m):
        if f.body is None:
            continue
        sites = [t for t in fn_nodes(f) if t.get("k") == "call" and (t.get("fn") or "") == BASE + "::read" and len(t.get("args", [])) == 1]
        loops = [t for t in fn_nodes(f) if t.get("k") in ("while", "do", "for", "frange")]
        inner = [l for l in loops if any(s is x for s in sites for x in nodes_below(l))]
        if not inner:
            continue
        if f.cls and m.derives(f.cls, BASE) and f.short == "read":
            continue
        i = interp(m, f.cls)
        for r in runs(ck, i, f):
            tr = r.trace
            for (j, end, kind) in loop_segments(tr):
                lp = tr[j].node
                evs_ = [k for k in range(j, len(tr) if end is None else end + 1) if tr[k].kind == "call" and tr[k].name == BASE + "::read"]
                deeper = [x for x in loop_segments(tr) if x[0] > j and x[1] is not None and (end is None or x[1] <= end)]
                evs_ = [k for k in evs_ if not any(a <= k <= (b if b is not None else k) for a, b, _ in deeper)]
                own = any(x is s for s in sites for x in nodes_below(lp)) and not any(x is not lp and any(y is s for s in sites for y in nodes_below(x)) for x in nodes_below(lp) if x.get("k") in ("while", "do", "for"))
                if not own:
                    continue
                ext = tr[j].extra or {}
                for k in evs_:
                    e = tr[k]
                    n += 1
                    if e.args[0][0] not in ("agg", "init", "r", "fld"):
                        continue
                    d, s = span_of(i, e.args[0])
                    nm_ = f.name
                    ck.ob("R12 reading loops ask for at least one byte", nm_, nonzero(i, r, s), "the destination may be empty, and zero bytes do not mean the end then", where(e))
                    DL = next((L for L, (en, fr) in ext.items() if fr == d), None)
                    SL = next((L for L, (en, fr) in ext.items() if fr == s), None)
                    z = is_zero(i, r, e.extra)
                    if kind == "iter":
                        it = tr[end]
                        ok = DL is not None and SL is not None and (it.extra or {}).get(DL) == i.add(d, e.extra) and (it.extra or {}).get(SL) == i.add(s, e.extra, -1)
                        ck.ob("R13 reading loops continue behind what was read", nm_, ok or z, "the next read does not go behind the bytes read before", where(e))
                        ck.ob("R14 reading loops end at zero", nm_, z is False, "the loop continues after a read that may have returned zero", where(e))
                    else:
                        ck.ob("R14 reading loops end only at zero or when the destination is full", nm_, z is True or r.outcome == "throw", "the loop is left after a read that returned some bytes", where(e))
                if kind == "exit" or kind == "iter":
                    # left through its condition: the destination is full
                    pass
        # an end mark is set only where a read returned zero
        for r in runs(ck, i, f):
            for k, e in enumerate(r.trace):
                if e.kind in ("write", "lwrite") and e.args and e.args[0] == ("c", True) and "eof" in str(e.name):
                    z = any(x.kind == "call" and x.name == BASE + "::read" and is_zero(i, r, x.extra) for x in r.trace[:k])
                    ck.ob("R15 the end is recorded only after a read returned zero", f.name, z, "%s is set without a read that returned zero" % e.name, where(e))
    ck.need(n >= 3, "reading loops")


def nodes_below(n):
    from model import walk
    return walk(n)
