"""RecordIO records are taken apart at their true boundaries, and split records are put together completely or refused.

The paths of the record decoder, with its positions and sizes as expressions of the header word; those expressions are compared with the
format's own by evaluating both for header words that cover all cases.  The paths of the function that puts split records together: which
kinds it accepts in which order, and that it copies all parts, in order, side by side."""
from util import *
from absint import Interp, show, NULL
from model import fn_nodes
from checks.c20 import decoders, setup, proj, CH, BEG, ENDP, BLK, eq_known, truth, truth_atom, exc_type, allfns

ASSUMPTIONS = ["The host is little-endian (the byte order of the build that is analysed)."]
MAGIC = 0xCED7230A
M64 = (1 << 64) - 1


def run(ck):
    m = ck.model("core")
    fs = [f for f in decoders(m) if f.short == "decode_record" and "ecordio" in f.cls.lower() and not any(t.get("k") == "call" and t.get("virt") and t.get("fn", "").split("::")[-1].startswith("decode") for t in fn_nodes(f))]
    ck.need(fs, "decoders of RecordIO records")
    for f in fs:
        framing(ck, m, f)
    split(ck, m)


# ---------------------------------------------------------------- framing
def word(i, t):
    """index of the header word (or byte offset / 4) that the term loads from the chunk"""
    t = t[1] if t[0] == "init" else t
    for base in (("init", BEG), ("addr", ("*", ("init", BEG)))):
        if t[0] == "e" and t[1] == ("*", base) and t[2][0] == "c":
            return t[2][1]
        if t[0] == "*":
            d = i.add(t[1], base, -1)
            if d == ("c", 0):
                return 0
    return None


def value(i, t, env):
    """The value of the term for a header word, or None."""
    k = word(i, t) if t[0] in ("init", "*", "e") else None
    if k is not None:
        return env.get(k)
    if t in env:
        return env[t]
    if t[0] == "c":
        return int(t[1]) & M64
    if t[0] == "enum":
        return t[2] if isinstance(t[2], int) else None
    if t[0] == "lin":
        s = t[1]
        for x, q in t[2]:
            v = value(i, x, env)
            if v is None:
                return None
            s += q * v
        return s & M64
    if t[0] == "op":
        a = [value(i, x, env) for x in t[2:]]
        if None in a:
            return None
        o = t[1]
        if o == "~":
            return ~a[0] & M64
        if len(a) == 2:
            x, y = a
            if o in ("/", "%") and y == 0:
                return None
            return {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << min(y, 64), ">>": lambda: x >> min(y, 64), "*": lambda: x * y, "/": lambda: x // y, "%": lambda: x % y,
                    "+": lambda: x + y, "-": lambda: x - y}.get(o, lambda: None)() & M64 if o in "&|^<<>>*/%+-" else None
    if t[0] == "fld":
        p = t[1]
        if p[0] == "fld":
            q = flat(p)
            if q != p:
                return value(i, ("fld", q, t[2]) if q[0] != "agg" else get(q, t[2]) or t, env)
        q = flat(t)
        return value(i, q, env) if q != t else None
    if t[0] in ("cast", "conv") and len(t) >= 2:
        return value(i, t[-1], env)
    if t[0] == "m" and t[1] in ("std::min", "std::max"):
        a = [value(i, x, env) for x in t[3]]
        return None if None in a else min(a) if t[1] == "std::min" else max(a)
    return None


def get(agg, n):
    for k, v in agg[2]:
        if k == n:
            return v
    return None


def flat(t):
    """Fields of known aggregates and the values of known optionals."""
    if t[0] != "fld":
        return t
    b = flat(t[1])
    if b[0] == "some" and t[2] == "*":
        return b[1]
    if b[0] == "agg":
        v = get(b, t[2])
        if v is not None:
            return v
    return ("fld", b, t[2]) + tuple(t[3:])


WORDS = sorted({k << 29 | n for k in range(8) for n in list(range(0, 18)) + [255, 256, 1021, 1022, 1023, 65535, 0x0AAAAAAA, 0x15555555, 0x1FFFFFFC, 0x1FFFFFFD, 0x1FFFFFFE, 0x1FFFFFFF]})
PAY = lambda w: w & 0x1FFFFFFF
REC = lambda w: 8 + (PAY(w) + 3) // 4 * 4
KIND = lambda w: w >> 29


def same_as(i, t, fn, extra=None):
    """Is the term the function fn of the header word? (None: the term is not one of the header word alone)"""
    for w in WORDS:
        if extra is not None and w not in extra:
            continue
        v = value(i, t, {0: MAGIC, 1: w})
        if v is None:
            return None
        if v != fn(w) & M64:
            return False
    return True


def framing(ck, m, f):
    i = Interp(m, this_cls=f.cls, peel=0)
    size = i.add(("init", ENDP), ("init", BEG), -1)
    rs = ck.interp_done(i, i.run(f, setup=setup))
    some = 0
    for r in rs:
        fs = facts(r.trace)
        ign = truth(i, r, ("init", ("obj", "arg1")))
        magic = None
        for a, t in fs:
            if a[0] == "eq0" and len(a[2]) == 1 and word(i, a[2][0][0]) == 0:
                lit = -a[1] * a[2][0][1]
                ck.ob("R1 a record starts with the magic number", f.name, lit & 0xFFFFFFFF == MAGIC, "the first word is compared with 0x%x" % (lit & 0xFFFFFFFF), f.where())
                magic = t
        fits, header, feasible = known_fit(i, r, size)
        if not feasible:
            continue
        # the header is only looked at when it is there
        for n, (a, t) in enumerate(fs):
            if mentions(a, lambda x: x[0] in ("init", "*", "e") and word(i, x) == 1):
                h = known_fit(i, r, size, fs[:n])[1]
                ck.ob("R7 a record lies within the chunk", f.name + " (header)", h is True, "the size is read although the chunk may have fewer than 8 bytes", f.where())
                break
        if r.outcome == "throw":
            t = exc_type(r)
            ok = magic is False or ign is False and (fits is False or header is False)
            ck.ob("R2 only what is not a record is refused", f.name, ok, "it fails with %s although the next chunk may complete the record" % short(t), f.where())
            continue
        if r.outcome != "return":
            continue
        b = i.read(r.state, BEG)
        if r.value == NULL:
            empty = any(eq_known(i, r, x, y) is True for x, y in ((size, ("c", 0)), (("init", BEG), ("init", ENDP)), (("init", ENDP), ("init", BEG))))
            ck.ob("R3 nothing is returned only when the record is not complete yet", f.name, empty or ign is True and (fits is False or header is False), "a complete record is not returned, or incomplete data at the end is ignored", f.where())
            ck.ob("R3 nothing is returned only when the record is not complete yet", f.name + " (chunk)", (b, i.read(r.state, ENDP)) == (("init", BEG), ("init", ENDP)), "the beginning of the record is taken off the chunk", f.where())
            continue
        some += 1
        ck.ob("R1 a record starts with the magic number", f.name + " (returned)", magic is True, "a record is returned without looking at the magic number", f.where())
        words = {w for w, z in cases() if possible(i, fs, z, w)}
        v = r.value[1] if r.value[0] == "some" else r.value
        p = proj(i, v, "payload_")
        pb, pe = proj(i, p, "beg_"), proj(i, p, "end_")
        off, n = i.add(pb, ("init", BEG), -1), i.add(pe, pb, -1)
        ck.ob("R4 the payload is what follows the header, in the size that the header gives", f.name, same_as(i, off, lambda w: 8, words) is True, "the payload begins %s byte(s) behind the header's start" % show(off)[:60], f.where())
        s = same_as(i, n, PAY, words)
        ck.ob("R4 the payload is what follows the header, in the size that the header gives", f.name + " (size)", s is True, "the payload's size is %s" % show(n)[:80], f.where())
        adv = i.add(b, ("init", BEG), -1)
        ck.ob("R5 the next record starts at the next multiple of four bytes", f.name, same_as(i, adv, REC, words) is True, "the chunk goes on %s byte(s) later" % show(adv)[:80], f.where())
        ck.ob("R5 the next record starts at the next multiple of four bytes", f.name + " (end)", i.read(r.state, ENDP) == ("init", ENDP) and i.read(r.state, BLK) == ("init", BLK), "the end of the chunk moves", f.where())
        kd = proj(i, v, "kind_")
        ck.ob("R6 the kind of the record is that of its header", f.name, same_as(i, kd, KIND, words) is True, "it is %s" % show(kd)[:80], f.where())
        ck.ob("R7 a record lies within the chunk", f.name, header is True and fits is True, "the chunk may end before the record does", f.where())
    ck.ob("R4 the payload is what follows the header, in the size that the header gives", f.name + " (paths)", some > 0, "no record is ever returned", f.where())


def holds(i, a, sz, w):
    """Does the condition hold for a chunk of sz bytes and the header word w?  None: it is about something else."""
    if a[0] not in ("pos", "eq0"):
        return None
    s = a[1]
    for x, q in a[2]:
        v = value(i, x, {0: MAGIC, 1: w, ("init", ENDP): sz, ("init", BEG): 0})
        if v is None:
            return None
        v = v - (1 << 64) if v >> 63 else v
        s += q * v
    return s > 0 if a[0] == "pos" else s == 0


def possible(i, fs, sz, w):
    for a, t in fs:
        if names_in(a, lambda s: s in ("beg_", "end_")):
            h = holds(i, a, sz, w)
            if h is not None and h != t:
                return False
    return True


def cases():
    for w in WORDS:
        if KIND(w) in (0, 1, 2, 3, 5):
            n = REC(w)
            for z in sorted({0, 1, 3, 4, 7, 8, 9, 12} | set(range(max(8, n - 5), n)) | {n, n + 4, n + 5}):
                yield w, z


def known_fit(i, r, size, fs=None):
    """(does the whole record lie in the chunk?, does the header?, can the path be taken?) as known on the path, judged by evaluating its facts"""
    fs = facts(r.trace) if fs is None else fs
    inside = outside = hin = hout = any_ = False
    for w, z in cases():
        if not possible(i, fs, z, w):
            continue
        any_ = True
        if z >= 8:
            hin = True
            if z >= REC(w):
                inside = True
            else:
                outside = True
        elif z:
            hout = True
    header = True if not hout else False if not hin else None
    fits = None if header is False else True if not outside else False if not inside else None
    return fits, header, any_


# ---------------------------------------------------------------- split records
ARG0 = ("obj", "arg0")


def about(t, V):
    """Is t a term over the record V?  (The argument's record has several spellings.)"""
    return contains(t, ARG0) if contains(V, ARG0) else contains(t, V)


def kind_of(i, r, k, V):
    """The kind of the record V as known from the facts before event k (None: unknown)."""
    for e in r.trace[:k]:
        if e.kind == "fact" and e.name[0] == "eq0" and e.args[0] and len(e.name[2]) == 1:
            t, q = e.name[2][0]
            if t[0] == "m" and short(t[1]) == "kind" and about(t, V):
                return -e.name[1] * q
    return None


def split_functions(m):
    """the functions that put split records together"""
    return [f for f in allfns(m) if f.body is not None and f.params and "Record" in f.params[0]["t"] and "optional" in f.params[0]["t"] and "Memory_slice" in (f.d.get("ret") or "")
          and any(t.get("k") == "call" and t.get("fn", "").split("::")[-1] == "kind" for t in fn_nodes(f))]


def split(ck, m):
    OPAQUE = {"read_record", "kind", "payload"}
    fs = split_functions(m)
    ck.need(fs, "the function that puts split records together")
    for f in fs:
        i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.short in OPAQUE)
        rs = ck.interp_done(i, i.run(f))
        n = 0
        copied = False
        for r in rs:
            ap = [(k, e, e.args[0]) for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and short(e.name) in ("emplace_back", "push_back") and e.args]
            reads = [(k, e.extra) for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "read_record"]
            if r.outcome == "throw":
                continue
            if r.outcome != "return":
                continue
            n += 1
            ks = [kind_of(i, r, k, V) for k, e, V in ap]
            ok = len(ks) >= 2 and ks[0] == 1 and ks[-1] == 3 and all(x == 2 for x in ks[1:-1])
            ck.ob("S1 a split record is a beginning, middle parts and an end", f.name, ok, "records of the kinds %s are put together" % ks, f.where())
            for k, v in reads:
                ck.ob("S2 no part of a split record is dropped", f.name, any(contains(V, v) for _, _, V in ap), "a record that was read is not kept", f.where())
            ck.ob("S2 no part of a split record is dropped", f.name + " (first)", any(contains(V, ("obj", "arg0")) for _, _, V in ap[:1]), "the first part is not kept", f.where())
            blk = r.value[1] if r.value[0] == "some" else r.value
            al = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "allocate" and e.extra is not None and contains(blk, e.extra)]
            ck.ob("S3 the parts are returned in memory of their own", f.name, bool(al), "it returns %s" % show(blk)[:80], f.where())
            if not al:
                continue
            k0, a = al[-1]
            ck.ob("S4 the memory has the size of all parts together", f.name, total(i, r, a.args[0], ap, k0), "the size is %s" % show(a.args[0])[:120], where(a))
            copied |= copies(ck, i, f, r, a, ap, k0)
        ck.ob("S1 a split record is a beginning, middle parts and an end", f.name + " (paths)", n > 0, "no split record is ever returned", f.where())
        if not any(t.get("k") == "call" and short(t.get("fn", "")) in ("for_each", "transform", "accumulate", "for_each_n") for t in fn_nodes(f)):
            ck.ob("S5 every part is copied whole", f.name + " (loop)", copied, "the parts are not copied one after the other", f.where())
        # refused records stay refused
        cs = [g for g in m.methods(f.cls) if g.body is not None and any(t.get("k") == "call" and t.get("id") == f.id for t in fn_nodes(g))]
        for g in cs:
            for r in rs:
                if r.outcome != "throw" or exc_type(r) in ("?",) or not exc_type(r).startswith("mlio"):
                    continue
                for r2 in i.run(g, state=r.state):
                    new = r2.trace[len(r.trace):]
                    rd = [e for e in new if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "read_record"]
                    ck.ob("S7 after a corrupt split record nothing is read until the reset", g.name, not rd, "reading goes on behind the part that was refused: that part is lost", g.where())
            # whole records go through unchanged
            ig = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.short in OPAQUE or fn.id == f.id)
            for r in ck.interp_done(ig, ig.run(g)):
                if r.outcome != "return":
                    continue
                rd = [e.extra for e in r.trace if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "read_record"]
                sp = [e for e in r.trace if e.kind == "call" and (e.node or {}).get("id") == f.id]
                k = kind_of(ig, r, len(r.trace), rd[-1]) if rd else None
                if sp:
                    ck.ob("S8 whole records are taken as they are", g.name, k != 0, "a whole record is treated as a part", g.where())
                elif r.value != NULL:
                    ck.ob("S8 whole records are taken as they are", g.name + " (payload)", k == 0 and payload_of(r, r.value, rd[-1]), "it returns %s" % show(r.value)[:80], g.where())
                elif rd:
                    ck.ob("S8 whole records are taken as they are", g.name + " (end)", truth_atom(ig, r, ("has", rd[-1])) is False, "a record is dropped", g.where())


def payload_of(r, v, rec):
    """Is v the payload of the record rec, copied or moved out of it?"""
    if contains(v, rec):
        return True
    owners = set()      # places known to hold the record
    for e in r.trace:
        if e.kind in ("lwrite", "write") and e.obj is not None:
            owners = {x for x in owners if not contains(x, e.obj)}
        if e.kind == "lwrite" and e.args and isinstance(e.args[0], tuple) and contains(e.args[0], rec) and e.obj is not None:
            owners.add(e.obj)
        if e.kind != "call" or not isinstance(e.name, str) or e.obj is None:
            continue
        if short(e.name) == "kind" and e.extra is not None and contains(e.extra, rec):
            owners.add(e.obj)
        if short(e.name) == "payload" and e.extra is not None and contains(v, e.extra) and (contains(e.obj, rec) or any(contains(e.obj, x) for x in owners)):
            return True
    return False


def size_of(i, V):
    """terms for the size of the payload of V"""
    return lambda t: mentions(t, lambda x: isinstance(x, tuple) and x and x[0] == "m" and short(x[1]) == "payload" and about(x, V))


def is_size(i, t, V):
    """Is t the size of the payload of V: end - begin, or a call of size() on it?"""
    c, d = i.lin(t)
    if c:
        return False
    has = size_of(i, V)
    if len(d) == 1 and list(d.values()) == [1]:
        x = next(iter(d))
        return has(x) and names_in(x, lambda s: short(s) == "size" or s == "size_")
    if len(d) == 2 and sorted(d.values()) == [-1, 1]:
        e, b = sorted(d, key=lambda x: -d[x])
        return has(e) and has(b) and names_in(e, lambda s: s == "end_" or short(s) == "end") and names_in(b, lambda s: s == "beg_" or short(s) == "begin")
    return False


def is_sum(i, t, Vs):
    """Is t the sum of the sizes of Vs?"""
    if not Vs:
        return t == ("c", 0)
    c, d = i.lin(t)
    parts = []
    for V in Vs:
        has = size_of(i, V)
        mine = {x: q for x, q in d.items() if has(x)}
        rest = i.mk(0, mine) if hasattr(i, "mk") else None
        parts.append(mine)
        for x in mine:
            d = {y: q for y, q in d.items() if y != x}
        if sorted(mine.values()) not in ([-1, 1], [1]):
            return False
    return c == 0 and not d


def loops(r, upto):
    out = []
    st = []
    for k, e in enumerate(r.trace[:upto]):
        if e.kind == "loop":
            st.append([k, e, None, None])
        elif e.kind == "iter" and st:
            st[-1][2] = (k, e)
        elif e.kind == "endloop" and st:
            x = st.pop()
            x[3] = k
            out.append(x)
    return out


def total(i, r, t, ap, k0):
    """t is the total size of the records ap that were kept before event k0"""
    c, d = i.lin(t)
    for kb, lp, it, ke in loops(r, k0):
        post = (r.trace[ke].extra or {}) if ke is not None else {}
        for L, (entry, fresh) in (lp.extra or {}).items():
            last = post.get(L, fresh)      # the value when the loop ends
            if d.get(last) != 1:
                continue
            rest = i.add(t, last, -1)
            before = [V for k, _, V in ap if k < kb]
            inside = [V for k, _, V in ap if it and kb < k < it[0]]
            # parts read before the last, failing, test of the loop belong behind it
            after = [V for k, _, V in ap if ke is not None and k > (it[0] if it else kb) and V not in inside]
            if is_sum(i, entry, before) and is_sum(i, rest, after):
                if not it:
                    return True
                end = (it[1].extra or {}).get(L)
                if end is not None and is_sum(i, i.add(end, fresh, -1), inside):
                    return True
            # a second pass over all parts
            if entry == ("c", 0) and rest == ("c", 0) and not it and kb > max(k for k, _, _ in ap):
                return True     # judged where the loop's body is known to run
            if entry == ("c", 0) and rest == ("c", 0) and it:
                end = (it[1].extra or {}).get(L)
                if end is not None and names_in(i.add(end, fresh, -1), lambda s: s == "payload" or short(s) == "payload") and names_in(end, lambda s: s.startswith("iter")):
                    return True
    if not loops(r, k0):
        return is_sum(i, t, [V for k, _, V in ap if k < k0])
    # the loop was left without an iteration that is known
    return is_sum(i, t, [V for k, _, V in ap if k < k0])


def copies(ck, i, f, r, a, ap, k0):
    """all parts are copied, one behind the other"""
    blk = a.extra
    ls = [x for x in loops(r, len(r.trace)) if x[0] > k0]
    cp = [(k, e) for k, e in enumerate(r.trace) if k > k0 and e.kind == "call" and isinstance(e.name, str) and short(e.name) in ("copy", "copy_n", "memcpy", "memmove")]
    done = False
    for kb, lp, it, ke in ls:
        if not it:
            continue
        cs = [e for k, e in cp if kb < k < it[0]]
        if not cs:
            continue
        done = True
        src, dst, n = parts_of(i, cs[0])
        it_ok = len(cs) == 1 and names_in(src, lambda s: short(s) == "payload") and names_in(src, lambda s: s in ("beg_", "data_") or short(s) in ("begin", "data"))
        ck.ob("S5 every part is copied whole", f.name, it_ok and whole(i, src, n), "%s byte(s) are copied from %s" % (show(n)[:60], show(src)[:60]), where(cs[0]))
        ck.ob("S5 every part is copied whole", f.name + " (all)", all_of(i, r, kb, it[0], src), "not all parts are copied, or not in their order", where(cs[0]))
        # the destination is the running position
        pos = next(((L, en, fr) for L, (en, fr) in (lp.extra or {}).items() if contains(dst, fr)), None)
        ok = False
        if pos is not None:
            L, en, fr = pos
            end = (it[1].extra or {}).get(L)
            start = en == ("c", 0) or en[0] == "m" and short(en[1]) in ("data", "begin") and contains(en, blk)
            ok = start and end is not None and i.add(end, fr, -1) == n
            base = i.add(dst, fr, -1)
            ok = ok and (base == ("c", 0) or base[0] == "m" and contains(base, blk))
        ck.ob("S6 the parts lie side by side, in order", f.name, ok, "a part is copied to %s" % show(dst)[:80], where(cs[0]))
    return done


def all_of(i, r, kb, ki, src):
    """Does the loop go over all elements of a container in their order, with src in the current one?"""
    found = []

    def see(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] in ("elt", "e"):
                found.append((t[1], t[2]))
            for x in t:
                see(x)
    see(src)
    ex = r.trace[kb].extra or {}
    for base, k in found:
        if k[0] == "r" and k[1] == "iter":
            return not names_in(base, lambda s: "reverse" in s)
        for L, n, atom in trip_counts(i, r.trace, kb, ki):
            entry, fresh = ex[L]
            if fresh == k and entry == ("c", 0) and r.trace[ki].extra[L] == i.add(fresh, ("c", 1)) and names_in(n, lambda s: short(s) == "size"):
                return True
    # iterators
    for L, (entry, fresh) in ex.items():
        if contains(src, fresh):
            end = (r.trace[ki].extra or {}).get(L)
            return names_in(entry, lambda s: short(s) in ("begin", "cbegin")) and end == i.add(fresh, ("c", 1))
    return False


def parts_of(i, e):
    a = e.args
    s = short(e.name)
    if s == "copy":
        return a[0], a[2], i.add(a[1], a[0], -1)
    if s == "copy_n":
        return a[0], a[2], a[1]
    return a[1], a[0], a[2]


def whole(i, src, n):
    c, d = i.lin(n)
    if c:
        return False
    if len(d) == 2 and sorted(d.values()) == [-1, 1]:
        e, b = sorted(d, key=lambda x: -d[x])
        return names_in(e, lambda s: s == "end_" or short(s) == "end") and b == src
    return len(d) == 1 and list(d.values()) == [1] and names_in(next(iter(d)), lambda s: s == "size_" or short(s) == "size")
