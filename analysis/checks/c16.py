"""Memory blocks hold the bytes they claim, also when resizing fails; slices stay within what they were cut from.

On every path of the constructors and of everything that changes a block, the memory the block refers to is followed through the
calls that acquire, move and give back memory (realloc, mmap, mremap, munmap, free, ftruncate, PyObject_GetBuffer); at the end of
the path, also if it ends with an exception, what data() and size() hand out is compared with it."""
from util import *
from absint import Interp, show
from checks.c39 import status, known

ASSUMPTIONS = ["Files that are mapped do not shrink while they are mapped, and buffers of Python objects stay what the exporter said they are.",
               "The pointers to memory blocks that C++ code makes slices of are not null.",
               "A std::size_t that counts bytes of a slice is not so large that adding it to a pointer wraps around to a place within the same slice."]
BLOCK, MUTABLE, SLICE = "mlio::Memory_block", "mlio::Mutable_memory_block", "mlio::Memory_slice"
NULL, ZERO = ("null",), ("c", 0)
THIS = ("obj", "this")
RULES = {
    "H": "a block hands out its memory and the size of it",
    "S": "a new block has the size asked for",
    "L": "the memory handed out is alive and as large as size() says",
    "F": "the file behind a mapping is as large as the mapping",
    "R": "resizing gives the size asked for or an error",
    "K": "resizing keeps the bytes",
    "A": "a memory allocator gives the size asked for",
    "B": "the heap holds no more than the threshold",
    "V": "a slice is what was asked for",
    "W": "a slice lies within what it was cut from",
    "O": "a slice keeps its block alive",
    "I": "begin() and end() enclose the memory",
}


def run(ck):
    m = ck.model("core", "py")
    blocks = sorted(c for c in m.subclasses(BLOCK) if c != MUTABLE)
    ck.need(blocks, "the classes of memory blocks")
    inner = []
    for c in blocks:
        block(ck, m, c, inner)
    for c in inner:
        delegate(ck, m, c)
    bounds(ck, m)
    allocators(ck, m, blocks)
    slices(ck, m)
    resize_util(ck, m)


def runs(ck, m, f, cls=None, **o):
    i = Interp(m, this_cls=cls or f.cls, peel=0, opaque=lambda fn, call: fn.file != f.file and (not ("/include/mlio/" in fn.file or "/memory/" in fn.file) or fn.d.get("virt") and fn.cls in (BLOCK, MUTABLE)), **o)
    return i, ck.interp_done(i, i.run(f))


def member(m, c, name):
    return sorted((f for f in m.methods(c) if f.short == name and f.body is not None), key=lambda f: f.line)


def same(i, r, a, b):
    return a == b or known(i, r, i.cond_eq(a, b)) is True


def le(i, r, a, b):
    """Does the path establish a <= b?"""
    if a == b:
        return True
    if known(i, r, i.cond_lt(b, a)) is False:
        return True
    return known(i, r, i.cond_eq(a, b)) is True


def null(i, r, v):
    return v == NULL or v == ZERO or known(i, r, i.cond_has(v)) is False


def root(L):
    while L is not None and L[0] == "f":
        L = L[1]
    return L


# ------------------------------------------------------------ blocks
def block(ck, m, c, inner):
    got = {}
    for name in ("data", "size"):
        for f in member(m, c, name):
            i, rs = runs(ck, m, f, c)
            got.setdefault(name, set()).update(r.value for r in rs if r.outcome == "return")
            for r in rs:
                ck.ob(RULES["H"], "%s::%s" % (c, name), r.outcome == "return", "it fails", f.where())
    where = (member(m, c, "data") or [None])[0]
    where = where.where() if where else ""
    if len(got.get("data", ())) != 1 or len(got.get("size", ())) != 1:
        ck.ob(RULES["H"], c, not got, "data() or size() hands out different things: %s / %s" % tuple(", ".join(sorted(show(v) for v in got.get(n, ()))) for n in ("data", "size")), where)
        return
    D, S = next(iter(got["data"])), next(iter(got["size"]))
    if D[0] == "m" and S[0] == "m":
        ok = short(D[1]) == "data" and short(S[1]) == "size" and D[2] == S[2]
        ck.ob(RULES["H"], c, ok, "data() is that of %s and size() that of %s" % (show(D[2]), show(S[2])), where)
        inner.append(c)
        return
    ok = D[0] == "init" and S[0] == "init" and root(D[1]) == THIS and root(S[1]) == THIS and D != S
    ck.ob(RULES["H"], c, ok, "data() hands out %s and size() %s" % (show(D), show(S)), where)
    if not ok:
        return
    py = python_buffer(m, c, D[1], S[1])
    if py:
        ck.ob(RULES["H"], c, py[0] == "same" and D[1][2] == "buf" and S[1][2] == "len", "data() and size() are not those of one buffer", where)
    fs = [f for f in m.methods(c) if f.body is not None and not f.is_dtor and not f.d.get("const") and not f.flag("static") and not f.flag("deleted") and not f.flag("defaulted")
          and (f.is_ctor or f.d.get("access", "public") == "public")]
    for f in sorted(fs, key=lambda f: f.line):
        i, rs = runs(ck, m, f, c)
        for r in rs:
            if f.is_ctor and r.outcome != "return":
                continue    # no object is made
            if py:
                python_path(ck, i, f, r, c, py)
            else:
                path(ck, m, i, f, r, c, D[1], S[1])


def path(ck, m, i, f, r, c, D, S):
    """Follow the memory of the block along one path."""
    d0, s0 = ("init", D), ("init", S)
    st = r.state.store
    d, s = st.get(D, d0), st.get(S, s0)
    live, origin, files, why = {}, {}, {}, []
    if not f.is_ctor:
        live[d0] = s0
    filed = not f.is_ctor and any(e.kind == "call" and e.name in ("ftruncate", "mmap", "mremap") for e in r.trace)
    length = s0 if filed else None      # of the file behind the mapping
    mapped = {d0} if filed else set()
    for e in r.trace:
        if e.kind == "delete":
            live.pop(e.args[0], None)
            continue
        if e.kind != "call" or not isinstance(e.name, str):
            continue
        n, a = e.name, e.args
        if n in ("free", "std::free", "operator delete", "operator delete[]"):
            live.pop(a[0], None)
        elif n == "munmap":
            if a[0] in live and not same(i, r, a[1], live[a[0]]):
                why.append("only a part of it is unmapped")
            live.pop(a[0], None)
        elif n in ("realloc", "malloc", "mmap", "mremap", "std::realloc", "std::malloc"):
            n = short(n)
            bad = status(i, r, n, e.extra)
            if bad is True:
                continue
            if bad is None:
                why.append("a failure of %s goes unnoticed" % n)
            if n in ("realloc", "mremap"):
                old = a[0]
                if not null(i, r, old):
                    if old not in live:
                        why.append("%s is given memory that the block does not have" % n)
                    elif n == "mremap" and not same(i, r, a[1], live[old]):
                        why.append("mremap is given another size than that of the mapping")
                    live.pop(old, None)
                    origin[e.extra] = old
                if n == "mremap":
                    mapped.add(e.extra)
                live[e.extra] = a[1] if n == "realloc" else a[2]
            else:
                live[e.extra] = a[0] if n == "malloc" else a[1]
                if n == "mmap":
                    mapped.add(e.extra)
                    origin[e.extra] = ("fd", a[4])
                    ck.ob(RULES["L"], f.name + " mmap", len(a) > 5 and known(i, r, i.cond_eq(a[5], ZERO)) is True, "the mapping does not start with the file", e.fn.where() if e.fn else f.where())
                    if length is None:
                        length = next((("fld", x[1], "st_size") for x in outs(r, ("fstat", "fstat64"))), None)
        elif n == "ftruncate":
            bad = status(i, r, n, e.extra)
            if bad is not True:
                length = a[1]
            if bad is None:
                why.append("a failure of ftruncate goes unnoticed")
    what = f.name
    how = "" if r.outcome == "return" else " after a failure"
    txt = fact_texts(r.trace)
    for w in why:
        ck.ob(RULES["L"], what, False, "%s (%s)" % (w, txt), f.where())
    external = f.is_ctor and d[0] == "init" and s[0] == "init" and d[1][0] == "obj"
    if external:
        ck.ob(RULES["H"], what, d[1] != s[1] and "*" in param_type(f, d[1]) and "*" not in param_type(f, s[1]), "it refers to %s with the size %s" % (show(d), show(s)), f.where())
        return
    if null(i, r, d):
        ck.ob(RULES["L"], what, same(i, r, s, ZERO), "there is no memory%s, but the size is %s (%s)" % (how, show(s), txt), f.where())
    elif d in live:
        ck.ob(RULES["L"], what, same(i, r, s, live[d]), "the size%s is %s, that of the memory is %s (%s)" % (how, show(s), show(live[d]), txt), f.where())
        if d in mapped:
            ok = length is not None and le(i, r, live[d], length)
            ck.ob(RULES["F"], what, ok, "the file%s has %s bytes, the mapping %s (%s)" % (how, show(length) if length else "an unknown number of", show(live[d]), txt), f.where())
    elif d == d0 and f.is_ctor or d[0] not in ("r", "init", "new", "addr"):
        return      # made in a way that is not followed
    elif d in origin or d == d0:
        ck.ob(RULES["L"], what, False, "the memory%s has been given back or has moved (%s)" % (how, txt), f.where())
    if r.outcome != "return":
        return
    sizes = [k for k, p in enumerate(f.params) if p["t"].replace("const ", "") in ("unsigned long", "std::size_t", "size_type")]
    if f.is_ctor and len(f.params) == 1 and sizes:
        ck.ob(RULES["S"], what, same(i, r, s, ("init", ("obj", "arg0"))), "it has %s (%s)" % (show(s), txt), f.where())
    if f.short == "resize" and sizes:
        n = ("init", ("obj", "arg%d" % sizes[0]))
        ck.ob(RULES["R"], what, same(i, r, s, n), "it has %s (%s)" % (show(s), txt), f.where())
        kept = same(i, r, s0, ZERO) or same(i, r, s, ZERO) or d == d0 or chain(origin, d, d0)
        if not kept and d in origin and origin[d][0] == "fd" and d in mapped:
            kept = own_file(origin[d][1])   # another view of the same file
        if not kept:
            kept = any(dst == d and src == d0 and (same(i, r, k, s0) and le(i, r, s0, n) or same(i, r, k, n) and le(i, r, n, s0) or k[0] == "m" and k[1] == "std::min" and set(k[3]) == {s0, n}) for src, dst, k in copies(i, r))
        ck.ob(RULES["K"], what, kept, "the bytes are lost (%s)" % txt, f.where())


def param_type(f, L):
    try:
        return f.params[int(L[1][3:])]["t"]
    except (ValueError, IndexError):
        return ""


def own_file(v):
    return mentions(v, lambda t: isinstance(t, tuple) and t[:1] == ("f",) and root(t) == THIS)


def chain(origin, v, end):
    n = 0
    while v in origin and n < 9:
        v = origin[v]
        n += 1
        if v == end:
            return True
    return False


def outs(r, names):
    got = set()

    def go(v):
        if isinstance(v, tuple):
            if len(v) > 2 and v[0] == "fld" and v[2] == "st_size" and isinstance(v[1], tuple) and v[1][0] == "r" and v[1][1] in tuple("out:" + n for n in names):
                got.add(v)
            for x in v:
                go(x)
    for v in r.state.store.values():
        go(v)
    for e in r.trace:
        if e.kind == "call":
            go(e.args)
    return sorted(got, key=repr)


def copies(i, r):
    """(source, destination, number of bytes) of what the path copies"""
    out = []
    for e in r.trace:
        if e.kind != "call" or not isinstance(e.name, str):
            continue
        n, a = e.name, e.args
        if n in ("std::copy", "std::uninitialized_copy", "std::move") and len(a) == 3:
            out.append((a[0], a[2], i.add(a[1], a[0], -1)))
        elif n in ("std::copy_n", "std::uninitialized_copy_n") and len(a) == 3:
            out.append((a[0], a[2], a[1]))
        elif short(n) in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove") and len(a) == 3:
            out.append((a[1], a[0], a[2]))
    return out


# ------------------------------------------------------------ buffers of Python objects
def python_buffer(m, c, D, S):
    if D[0] == "f" and S[0] == "f":
        for L in (D, S):
            t = next((x["t"] for _, x in m.fields(c) if root(L) == THIS and L[1][0] == "f" and x["n"] == L[1][2]), "")
            if base_name(t) in ("Py_buffer", "bufferinfo"):
                return ("same" if D[1] == S[1] else "other", L[1])
    return None


def python_path(ck, i, f, r, c, py):
    if not f.is_ctor:
        return
    got = [e for e in r.trace if e.kind == "call" and e.name == "PyObject_GetBuffer" and len(e.args) == 3 and e.args[1] == ("addr", py[1])]
    ok = len(got) == 1 and known(i, r, i.cond_eq(got[0].extra, ZERO)) is True
    ck.ob(RULES["L"], f.name, ok, "there is no buffer", f.where())
    if ok:
        fl = got[0].args[2]
        # without PyBUF_STRIDES only buffers whose bytes lie side by side are given, with it they have to be asked for
        flat = fl[0] == "c" and isinstance(fl[1], int) and (not fl[1] & 0x10 or bool(fl[1] & 0xe0 & ~0x10))
        ck.ob(RULES["L"], f.name + " contiguous", flat, "the bytes of the buffer need not lie side by side", f.where())
        if "utable" in c and fl[0] == "c":
            ck.ob(RULES["L"], f.name + " writable", bool(fl[1] & 1), "the buffer need not be writable", f.where())


# ------------------------------------------------------------ blocks made of another block
def delegate(ck, m, c):
    f0 = member(m, c, "data")[0]
    field = next((D for D in (r.value for r in runs(ck, m, f0, c)[1]) if D[0] == "m"), None)
    L = field[2]
    L = L[1][1] if L[0] == "*" and L[1][0] == "init" else L
    ptr = ("init", L)

    def of(v, name):    # v is inner->name()
        return v[0] == "m" and short(v[1]) == name and v[2] in (field[2], ("*", ptr), ptr)

    flags = {x["n"] for k, x in m.fields(c) if k == c and x["t"] == "bool"}
    free = []   # (interpreter, path, size): paths that leave the inner block on the heap
    for f in sorted((f for f in m.methods(c) if f.body is not None and (f.is_ctor or f.short == "resize") and not f.flag("defaulted") and not f.flag("deleted")), key=lambda f: f.line):
        i, rs = runs(ck, m, f, c)
        n = ("init", ("obj", "arg0"))
        for r in rs:
            now = r.state.store.get(L, ptr)
            txt = fact_texts(r.trace)
            if f.is_ctor:
                ok = now[0] == "new" and len(now) > 3 and now[3] == n
                ck.ob(RULES["S"], f.name, r.outcome != "return" or ok, "the block inside is %s" % show(now), f.where())
                continue
            calls_ = [e for e in r.trace if e.kind == "call" and short(e.name) == "resize" and e.obj in (field[2], ("*", ptr), ptr)]
            if r.outcome != "return":
                ck.ob(RULES["L"], f.name, now == ptr, "the block inside is another one although resizing fails", f.where())
                continue
            if now == ptr:
                ok = bool(calls_) and calls_[-1].args[:1] == (n,)
                ck.ob(RULES["R"], f.name, ok, "the block inside is not resized to the size asked for (%s)" % txt, f.where())
                continue
            ok = now[0] == "new" and len(now) > 3 and now[3] == n
            ck.ob(RULES["R"], f.name, ok, "the new block is %s (%s)" % (show(now), txt), f.where())
            kept = False
            for src, dst, k in copies(i, r):
                if of(src, "data") or of(src, "begin"):
                    osize = size_of(i, r, src, k)
                    into = mentions(dst, lambda t: t == now) or dst[0] == "m" and dst[2] in (now, ("*", now)) or near(r, dst, now)
                    fits = room(i, r, c, m, f, osize, n, flags)
                    if into and osize is not None and fits:
                        kept = True
                    if into and osize is not None and not fits:
                        ck.ob(RULES["K"], f.name, False, "more bytes are copied than the new block has room for (%s)" % txt, f.where())
                        kept = True
            ck.ob(RULES["K"], f.name, kept, "the bytes are not copied into the new block (%s)" % txt, f.where())


def near(r, dst, now):
    return dst[0] == "m" and short(dst[1]) in ("data", "begin") and isinstance(dst[2], tuple) and now in dst[2]


def size_of(i, r, src, k):
    """k if it is the size of the block that src is the data of"""
    return k if k[0] == "m" and short(k[1]) == "size" and k[2] == src[2] else None


def room(i, r, c, m, f, old, n, flags):
    if old is None:
        return False
    if le(i, r, old, n):
        return True
    # old <= threshold < n, if the block inside never holds more than the threshold while it is on the heap
    for x in thresholds(m, c):
        t = ("init", ("f", THIS, x))
        if le(i, r, t, n) and any(known(i, r, i.cond_has(("init", ("f", THIS, b)))) is False for b in flags):
            return True
    return False


def thresholds(m, c):
    return [x["n"] for k, x in m.fields(c) if k == c and x["t"].replace("const ", "") in ("unsigned long", "std::size_t")]


def bounds(ck, m):
    """Blocks that keep small data elsewhere: what they hold there never exceeds the threshold."""
    for c in sorted(m.subclasses(BLOCK)):
        flags = {x["n"] for k, x in m.fields(c) if k == c and x["t"] == "bool"}
        ts = thresholds(m, c)
        ps = [x["n"] for k, x in m.fields(c) if k == c and "Intrusive_ptr" in x["t"]]
        if len(flags) != 1 or len(ts) != 1 or len(ps) != 1:
            continue
        flag, t, p = ("f", THIS, next(iter(flags))), ("f", THIS, ts[0]), ("f", THIS, ps[0])
        for f in (f for f in m.methods(c) if f.body is not None and f.short == "resize"):
            i, rs = runs(ck, m, f, c)
            for r in rs:
                if r.outcome != "return":
                    continue
                fl = r.state.store.get(flag, ("init", flag))
                if fl == ("c", True) or known(i, r, i.cond_has(fl)) is True:
                    now = r.state.store.get(p, ("init", p))
                    if known(i, r, i.cond_has(("init", flag))) is False:
                        ck.ob(RULES["B"], f.name + " moved", now != ("init", p), "the block inside is said to have been replaced, but it is not (%s)" % fact_texts(r.trace), f.where())
                    continue
                ck.ob(RULES["B"], f.name, le(i, r, ("init", ("obj", "arg0")), ("init", t)), "more than the threshold can stay in the small block (%s)" % fact_texts(r.trace), f.where())
        # and it starts with no more than that
        for f in sorted((f for f in m.fns.values() if f.body is not None and f.short == "allocate"), key=lambda f: f.name):
            i, rs = runs(ck, m, f)
            for r in rs:
                v = r.value
                if r.outcome == "return" and v[0] == "new" and v[1] == c and len(v) > 4:
                    ck.ob(RULES["B"], f.name, le(i, r, v[3], v[4]), "it makes a %s that is larger than its threshold (%s)" % (short(c), fact_texts(r.trace)), f.where())


# ------------------------------------------------------------ allocators
def allocators(ck, m, blocks):
    fs = [f for f in m.fns.values() if f.short == "allocate" and f.body is not None and f.cls and m.derives(f.cls, "mlio::Memory_allocator")]
    ck.need(fs, "the memory allocators")
    for f in sorted(fs, key=lambda f: f.name):
        i, rs = runs(ck, m, f)
        for r in rs:
            if r.outcome != "return":
                continue
            v = r.value
            if v[0] != "new" or v[1] not in blocks:
                ck.ob(RULES["A"], f.name, v != NULL, "it gives %s" % show(v), f.where())
                continue
            ck.ob(RULES["A"], f.name, len(v) > 3 and v[3] == ("init", ("obj", "arg0")), "it makes %s (%s)" % (show(v), fact_texts(r.trace)), f.where())


# ------------------------------------------------------------ slices
def slices(ck, m):
    fields = {x["n"]: x["t"] for k, x in m.fields(SLICE)}
    fs = [f for f in m.methods(SLICE) if f.body is not None]
    ck.need(fs, "the functions of Memory_slice")

    def one(name):
        f = next((f for f in fs if f.short == name and not f.params), None)
        if f is None:
            return None
        i, rs = runs(ck, m, f, SLICE)
        v = [r.value for r in rs if r.outcome == "return"]
        return v[0] if len(set(v)) == 1 else None
    B, E = one("begin"), one("end")
    ok = B is not None and E is not None and B[0] == "init" and E[0] == "init" and B != E and root(B[1]) == THIS == root(E[1])
    ck.ob(RULES["V"], "begin, end", ok, "they are %s and %s" % (B and show(B), E and show(E)), "")
    if not ok:
        return
    b, e = B[1], E[1]
    P = [n for n, t in fields.items() if "Intrusive_ptr" in t]
    ck.ob(RULES["O"], SLICE, len(P) == 1, "it holds no block", "")
    owner = ("f", THIS, P[0]) if len(P) == 1 else None
    A0, A1 = ("init", ("obj", "arg0")), ("init", ("obj", "arg1"))
    for f in sorted(fs, key=lambda f: f.line):
        ps = ["p" if "*" in p["t"] else "n" for p in f.params]
        i, rs = runs(ck, m, f, SLICE)
        add = i.add
        size = add(E, B, -1)
        want = {("subslice", "n"): lambda: (add(B, A0), E), ("subslice", "nn"): lambda: (add(B, A0), add(add(B, A0), A1)), ("subslice", "p"): lambda: (A0, E), ("subslice", "pp"): lambda: (A0, A1),
                ("first", "n"): lambda: (B, add(B, A0)), ("first", "p"): lambda: (B, A0), ("last", "n"): lambda: (add(E, A0, -1), E), ("last", "p"): lambda: (A0, E)}.get((f.short, "".join(ps)))
        what = "%s(%s)%s" % (f.short, ", ".join(p["n"] for p in f.params), " &&" if f.params and not f.d.get("const") else "")
        made = False
        for r in rs:
            st = r.state.store
            txt = fact_texts(r.trace)
            if want and r.outcome == "return":
                made = True
                v = r.value
                part = dict(v[2]) if v[0] == "agg" else {}
                if v[0] == "agg":
                    nb, ne, src = part.get(b[2], ("init", ("f", v[1], b[2]))), part.get(e[2], ("init", ("f", v[1], e[2]))), v[1]
                    np = part.get(P[0], ("init", ("f", v[1], P[0]))) if owner else None
                elif v in (("addrref", THIS), ("*", THIS), THIS):
                    nb, ne, src = st.get(b, B), st.get(e, E), THIS
                    np = st.get(owner, ("init", owner)) if owner else None
                elif v == ("init", THIS):
                    nb, ne, src = B, E, THIS
                    np = ("init", owner)
                elif v[0] == "new" and v[1] == SLICE:
                    continue    # made by another constructor: judged there
                else:
                    ck.ob(RULES["V"], what, False, "it is %s (%s)" % (show(v), txt), f.where())
                    continue
                w = want()
                ck.ob(RULES["V"], what, same(i, r, nb, w[0]) and same(i, r, ne, w[1]), "it is [%s, %s) instead of [%s, %s)" % (show(nb), show(ne), show(w[0]), show(w[1])), f.where())
                ck.ob(RULES["W"], what, le(i, r, B, nb) and le(i, r, nb, ne) and le(i, r, ne, E), "[%s, %s) need not lie within the slice (%s)" % (show(nb), show(ne), txt), f.where())
                if owner:
                    ck.ob(RULES["O"], what, np == ("init", owner), "the block is %s" % show(np), f.where())
            elif want and r.outcome == "throw":
                # what is refused is not within the slice
                w = want()
                inside = le(i, r, B, w[0]) and le(i, r, w[0], w[1]) and le(i, r, w[1], E)
                ck.ob(RULES["V"], what + " refused", not inside, "a range within the slice is refused (%s)" % txt, f.where())
                ck.ob(RULES["V"], what + " refused", "Memory_slice" not in str(st.get(b, B)) and st.get(b, B) == B and st.get(e, E) == E, "the slice is changed although the range is refused", f.where())
            elif f.is_ctor and r.outcome == "return" and not f.flag("defaulted") and len(f.params) == 1 and "Intrusive_ptr" in f.params[0]["t"]:
                nb, ne, np = st.get(b), st.get(e), st.get(owner)
                ck.ob(RULES["O"], "Memory_slice(block)", np in (A0, ("init", ("obj", "arg0"))), "the block is %s" % (np and show(np)), f.where())
                good = nb is not None and ne is not None and nb[0] == "m" and short(nb[1]) in ("data", "begin") and about(nb[2], A0)
                if good:
                    end_ = ne[0] == "m" and short(ne[1]) == "end" and about(ne[2], A0)
                    d = add(ne, nb, -1)
                    good = end_ or d[0] == "m" and short(d[1]) == "size" and about(d[2], A0)
                ck.ob(RULES["V"], "Memory_slice(block)", good, "it is [%s, %s)" % (nb and show(nb), ne and show(ne)), f.where())
            elif f.short == "data" and not f.params and r.outcome == "return":
                v = r.value
                ok = v == B or v == ("addr", ("*", B)) or v == NULL and null(i, r, B)
                ck.ob(RULES["V"], "data()", ok, "it is %s (%s)" % (show(v), txt), f.where())
            elif f.short == "size" and not f.params and r.outcome == "return":
                ck.ob(RULES["V"], "size()", r.value == size, "it is %s" % show(r.value), f.where())
            elif f.short == "empty" and not f.params and r.outcome == "return":
                t, pol = i.cond_eq(B, E)
                v = r.value
                ok = v[0] == "cond" and (v[1] == t and v[2] == pol or (v[1], v[2]) == i.cond_eq(size, ZERO)) or v[0] == "c" and known(i, r, (t, pol)) is v[1]
                ck.ob(RULES["V"], "empty()", ok, "it is %s" % show(v), f.where())
            elif f.short in ("begin", "end", "cbegin", "cend") and not f.params and r.outcome == "return":
                ck.ob(RULES["V"], f.short + "()", r.value == (B if "begin" in f.short else E), "it is %s" % show(r.value), f.where())
        if want:
            ck.ob(RULES["V"], what + " possible", made, "every range is refused", f.where())
    iterators(ck, m)


def about(o, v):
    return o in (v, ("*", v)) or mentions(o, lambda t: t == v)


def iterators(ck, m):
    for c in (BLOCK, MUTABLE):
        for f in sorted((f for f in m.methods(c) if f.body is not None and f.short in ("begin", "end", "cbegin", "cend")), key=lambda f: f.line):
            i, rs = runs(ck, m, f, c)
            for r in rs:
                v = r.value
                data = [x for x in atoms(v) if x[0] == "m" and short(x[1]) in ("data",) and x[2] == THIS]
                if "begin" in f.short:
                    ok = len(data) == 1 and v == data[0]
                else:
                    rest = i.add(v, data[0], -1) if len(data) == 1 else v
                    ok = len(data) == 1 and rest[0] == "m" and short(rest[1]) == "size" and rest[2] == THIS
                ck.ob(RULES["I"], "%s::%s" % (c, f.short), ok, "it is %s" % show(v), f.where())


def atoms(v):
    if v[0] == "lin":
        return [x[0] for x in v[2]]
    return [v]


# ------------------------------------------------------------ resize_memory_block
def resize_util(ck, m):
    fs = [f for f in m.fns.values() if f.short == "resize_memory_block" and f.body is not None]
    for f in fs:
        i, rs = runs(ck, m, f)
        old, n = ("init", ("obj", "arg0")), ("init", ("obj", "arg1"))
        for r in rs:
            if r.outcome != "return":
                continue
            v, txt = r.value, fact_texts(r.trace)
            if v == old:
                ok = any(e.kind == "call" and short(e.name) == "resize" and e.args[:1] == (n,) and about(e.obj, old) for e in r.trace)
                if not ok:
                    ok = any(same(i, r, s, n) for s in sizes_of(r, old))
                ck.ob(RULES["R"], f.name, ok, "the block given is returned without being resized (%s)" % txt, f.where())
                continue
            new = [e for e in r.trace if e.kind == "call" and short(e.name) == "allocate" and e.extra == v]
            ok = len(new) == 1 and new[0].args[:1] == (n,)
            ck.ob(RULES["R"], f.name, ok, "what is returned is %s (%s)" % (show(v), txt), f.where())
            kept = False
            for src, dst, k in copies(i, r):
                if not (src[0] == "m" and short(src[1]) in ("data", "begin") and about(src[2], old) and dst[0] == "m" and short(dst[1]) in ("data", "begin") and about(dst[2], v)):
                    continue
                s = [x for x in sizes_of(r, old)]
                kept = same(i, r, k, n) and any(le(i, r, n, x) for x in s) or any(same(i, r, k, x) and le(i, r, x, n) for x in s) or \
k[0] in ("m", "r") and k[1] == "std::min" and any(e.kind == "call" and e.extra == k and n in e.args and any(x in e.args for x in s) for e in r.trace)
            ck.ob(RULES["K"], f.name, kept, "the bytes that both have room for are not copied (%s)" % txt, f.where())


def sizes_of(r, old):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if len(v) > 2 and v[0] == "m" and isinstance(v[1], str) and short(v[1]) == "size" and about(v[2], old):
                out.append(v)
                return
            for x in v:
                go(x)
    for e in r.trace:
        go(e.args)
        go(e.extra)
        if e.kind == "fact":
            go(e.name)
    return out
