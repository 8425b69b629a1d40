"""Data is decompressed and decoded as its store and reader say, from its first byte.

Paths of the functions that choose how a source is read - the compression that goes with a path, the stores' constructors and open_read(), the
stream that is put on top for a compression, the encoding a byte order mark stands for and the stream that converts to UTF-8 - are compared
with what each path found out about the name, the first bytes, the compression and the encoding."""
import re

from absint import Interp, show
from checks.c23 import enums
from model import walk, unwrap, calls, fn_nodes
from util import *

ASSUMPTIONS = ["the streams put on top of each other deliver the bytes of their source (C12), iconv and zlib do what they document",
               "an encoding name that is not one of mlio's own is the caller's to get right"]
SUFFIXES = {".gz": "gzip", ".bz2": "bzip2", ".zip": "zip"}
BOMS = [("utf32_be", b"\0\0\xfe\xff"), ("utf32_le", b"\xff\xfe\0\0"), ("utf8", b"\xef\xbb\xbf"), ("utf16_be", b"\xfe\xff"), ("utf16_le", b"\xff\xfe")]
STORE, STREAM, ENC, UTF8 = "mlio::Data_store", "mlio::Input_stream", "mlio::Text_encoding", "mlio::Utf8_input_stream"


def run(ck):
    m = ck.model("core")
    K = {v: k for k, v in enums(m, "mlio::Compression").items()}        # number -> name
    ck.need(set(K.values()) >= {"none", "infer", "gzip"}, "the kinds of compression")
    inferred = infer(ck, m, K)
    inflate = inflating(ck, m, K)
    stores(ck, m, K, inferred, inflate)
    names(ck, m)
    make = one(ck, [f for f in m.fns.values() if f.body is not None and f.cls is None and any("optional<" + ENC in str(p["t"]) for p in f.params) and
                    any(STREAM in str(p["t"]) for p in f.params)], "the function that makes a UTF-8 stream")
    size = buffer_size(ck, make)
    bom = marks(ck, m, size)
    fill = one(ck, [f for f in m.fns.values() if f.body is not None and f.cls is None and f.file == make.file and len(f.params) == 2 and STREAM in f.params[0]["t"] and
                    "span" in f.params[1]["t"]], "the function that fills a buffer from a stream")
    filling(ck, m, fill)
    pre = one(ck, [f for f in m.methods(UTF8) if f.body is not None and len(f.params) == 1 and "span<const std::byte>" in f.params[0]["t"] and not f.is_ctor],
              "the function that takes the bytes read beforehand")
    preamble(ck, m, pre)
    converter(ck, m, pre)
    make_stream(ck, m, make, bom, fill, pre)
    readers(ck, m, make)


def one(ck, fs, what):
    ck.need(len(fs) == 1, what)
    ck.saw(fs[0])
    return fs[0]


def enum_of(v, K):
    if isinstance(v, tuple) and v[0] == "enum":
        return K.get(v[2]) or str(v[1]).rsplit("::", 1)[-1]
    if isinstance(v, tuple) and v[0] == "c":
        return K.get(v[1])
    return None


# -- the compression that goes with a path

def infer(ck, m, K):
    f = one(ck, [f for f in m.fns.values() if f.body is not None and f.cls is None and len(f.params) == 1 and "string_view" in f.params[0]["t"] and
                 short(str(f.ret)) == "Compression"],
            "the function that infers the compression")
    i = Interp(m, peel=0)
    A = ("obj", "arg0")
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            ck.ob("C18.infer-throws", f.short, False, "an exception leaves it", f.where(0))
            continue
        got = enum_of(r.value, K)
        st = {s: suffix(i, r, s, A) for s in SUFFIXES}
        true = [s for s in st if st[s] is True]
        if got == "none":
            ok, why = all(v is False for v in st.values()), "a path that may end in %s is taken for one that is not compressed" % ", ".join(s for s in st if st[s] is not False)
        else:
            ok, why = got in SUFFIXES.values() and [SUFFIXES[s] for s in true] == [got], "a path is taken for %s although it is not known to end in %s" % (
                got, next((s for s in SUFFIXES if SUFFIXES[s] == got), "anything that says so"))
        ck.ob("C18.infer", str(got), ok, why, f.where(0))
    return f


def suffix(i, r, s, A):
    """Does the path end in s (and has more than that)? True, False or None if this path does not know."""
    n = len(s)
    size = size_of(r, A)
    yes, no = {}, {}
    for a, truth in facts(r.trace):
        if not mentions(a, lambda x: x == A):
            continue
        lits = []
        mentions(a, lambda x: lits.append(x[1]) and False if x[:1] == ("s",) and len(x) == 2 and isinstance(x[1], str) else False)
        if a[0] == "pos" and not truth and any(l in SUFFIXES and len(l) <= n for l in lits):
            return False            # not longer than the suffix
        dot = mentions(a, lambda x: x[:1] == ("m",) and short(str(x[1])) in ("rfind", "find_last_of") and len(x) > 3 and x[3][:1] in ((("c", 46),), (("s", "."),)))
        if dot and truth and (a[0] == "eq" and any(x[:1] == ("init",) and x[1][:1] == ("g",) and str(x[1][1]).endswith("::npos") for x in a[1:]) or a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1):
            return False            # there is no dot, or nothing before it
        # compared with a text as a whole
        for l in lits:
            if a[0] in ("has", "eq", "eq0"):
                if l in (s, s[1:]):
                    return bool(truth)
                if l in SUFFIXES and truth or "." + l in SUFFIXES and truth:
                    return False
        if a[0] == "eq0" and len(a[2]) == 1:
            (v, c) = a[2][0]
            k = place(i, v, A, size)
            if k is not None and abs(c) == 1:
                (yes if truth else no).setdefault(k, set()).add(chr((-a[1] * c) & 0xff))
    got = [s[n - k] in yes.get(k, ()) for k in range(1, n + 1)]
    for k in range(1, n + 1):
        if s[n - k] in no.get(k, ()) or k in yes and s[n - k] not in yes[k]:
            return False
    if all(got):
        return True
    if size is not None and (i.decide(r.state, ("pos", -n, ((size, 1),))) is False):
        return False
    return None


def size_of(r, A):
    for e in r.trace:
        if e.kind == "call" and str(e.name).rsplit("::", 1)[-1] in ("size", "length") and isinstance(e.extra, tuple) and mentions(e.extra, lambda x: x == A):
            return e.extra
    return None


def place(i, v, A, size):
    """v is the k-th character from the end of A: k."""
    t = v[1] if v[:1] == ("init",) else v
    if not (isinstance(t, tuple) and t[:1] in (("e",), ("elt",)) and len(t) > 2 and mentions(t[1], lambda x: x == A)):
        return None
    if t[2] == ("s", "back"):
        return 1
    if size is None:
        return None
    d = i.lin(i.add(t[2], size, -1))
    return -d[0] if d is not None and not d[1] else None


# -- stores

def inflating(ck, m, K):
    f = one(ck, [f for f in m.fns.values() if f.body is not None and f.cls is None and len(f.params) == 2 and STREAM in f.params[0]["t"] and
                 f.params[1]["t"].endswith("Compression")], "the function that puts the decompressing stream on top")
    i = Interp(m, peel=0, opaque=lambda fn, call: fn.is_ctor)
    S, C = ("init", ("obj", "arg0")), ("init", ("obj", "arg1"))
    seen = set()
    for r in ck.interp_done(i, i.run(f)):
        kinds = [K[k] for k in K if i.decide(r.state, ("eq0", -k, ((C, 1),))) is not False]
        known = [K[k] for k in K if i.decide(r.state, ("eq0", -k, ((C, 1),))) is True]
        kinds = known or kinds
        seen.update(kinds)
        v = r.value
        for k in kinds:
            if k == "infer":
                continue        # no store gets here with it
            if k == "none":
                ok, why = r.outcome == "return" and v == S, "a source that is not compressed is not handed out as it is"
            elif k == "gzip":
                ok = r.outcome == "return" and isinstance(v, tuple) and mentions(v, lambda x: x[:1] in (("new",), ("heap",)) and "Gzip" in str(x[1])) and mentions(v, lambda x: x == S)
                why = "a gzip compressed source is not decompressed"
            else:
                ok, why = r.outcome == "throw", "a %s compressed source is not refused although it cannot be decompressed" % k
            ck.ob("C18.inflate", k, ok, why, f.where(0))
    ck.need(seen >= set(K.values()) - {"infer"}, "what is done for each compression")
    return f


def stores(ck, m, K, inferred, inflate):
    INFER = next(k for k in K if K[k] == "infer")
    NONE = next(k for k in K if K[k] == "none")
    n = 0
    for c in sorted(m.subclasses(STORE)):
        fl = [x for _, x in m.fields(c) if str(x["t"]).endswith("mlio::Compression")]
        if not fl:
            continue
        ck.need(len(fl) == 1, "the compression of " + c)
        F = this_field(fl[0]["n"])
        for f in m.methods(c):
            if f.is_ctor and f.body is not None and any(str(p["t"]).endswith("mlio::Compression") for p in f.params):
                k = next(k for k, p in enumerate(f.params) if str(p["t"]).endswith("mlio::Compression"))
                C = ("init", ("obj", "arg%d" % k))
                ck.saw(f)
                n += 1
                i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id == inferred.id or "logger" in fn.name or fn.short in ("format", "allocate"))
                for r in ck.interp_done(i, i.run(f)):
                    if r.outcome != "return":
                        continue
                    v = i.read(r.state, F)
                    d = i.decide(r.state, ("eq0", -INFER, ((C, 1),)))
                    if isinstance(v, tuple) and v[:1] == ("r",) and str(v[1]) == inferred.name:
                        ev = next(e for e in r.trace if e.kind == "call" and e.extra == v)
                        src = ev.args and mentions(ev.args[0], lambda x: x[:1] == ("obj",) and str(x[1]).startswith("arg"))
                        ck.ob("C18.store-compression", c, d is True and src, "the compression asked for is not the one used" if d is not True else
                              "the compression is inferred from something else than the path", f.where(0))
                    else:
                        ck.ob("C18.store-compression", c, v == C and d is False, "a store may be left without knowing its compression" if v == C else
                              "the compression asked for is not the one used: %s" % show(v)[:60], f.where(0))
        for f in m.methods(c):
            if f.short != "open_read" or f.body is None:
                continue
            ck.saw(f)
            n += 1
            i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id == inflate.id or "logger" in fn.name or fn.is_ctor or fn.short.startswith("make_sagemaker"))
            C = ("init", F)
            for r in ck.interp_done(i, i.run(f)):
                if r.outcome != "return":
                    continue
                cs = [e for e in r.trace if e.kind == "call" and e.name == inflate.name]
                v = r.value
                if cs:
                    e = cs[-1]
                    ck.ob("C18.store-inflates", c, len(cs) == 1 and v == e.extra and len(e.args) == 2 and e.args[1] == C, "the source is not decompressed as the store says", where(e))
                    v = e.args[0]
                else:
                    ck.ob("C18.store-inflates", c, i.decide(r.state, ("eq0", -NONE, ((C, 1),))) is True, "a source that may be compressed is handed out as it is", f.where(0))
                ck.ob("C18.store-source", c, own(v) or
                      any(e.extra == v and any(own(a) for a in e.args) for e in r.trace if e.kind == "call") or mentions(v, lambda x: x[:1] == ("heap",) and any(own(w) for L, w in r.state.store.items() if contains(L, x))),
                      "what is opened is not the store's own source: %s" % show(v)[:60], f.where(0))
    ck.need(n >= 4, "stores that know a compression")


def own(v):
    return isinstance(v, tuple) and mentions(v, lambda x: x[:1] == ("f",) and x[1:2] == (("obj", "this"),))


# -- encodings

def names(ck, m):
    """mlio's own encodings have the names iconv knows them by."""
    n = 0
    for q, g in sorted(m.globals.items()):
        if not q.startswith(ENC + "::"):
            continue
        lits = [x.get("v") for x in walk(g.get("init")) if x.get("k") == "str"]
        if len(lits) != 1:
            continue
        n += 1
        norm = lambda s: re.sub("[^a-z0-9]", "", str(s).lower())
        want = norm(short(q))
        ok = norm(lits[0]) == want or want == "asciilatin1" and norm(lits[0]) in ("88591", "iso88591", "latin1", "cp819", "l1")
        ck.ob("C18.encoding-name", q, ok, "%s is the encoding iconv calls %s" % (q, lits[0]), "%s:%s" % (str(g.get("file", "")), g.get("l", 0)))
    ck.need(n >= 8, "the names of the encodings")


def buffer_size(ck, make):
    ns = {int(x) for t in fn_nodes(make) for x in re.findall(r"(?:array<std::byte, |std::byte ?\[)(\d+)", str(t.get("t", "")))}
    ck.need(len(ns) == 1, "the buffer for the first bytes of a stream")
    n = ns.pop()
    ck.ob("C18.mark-size", make.short, n >= 4, "%d bytes are read to find a byte order mark; some have 4" % n, make.where(0))
    return n


def marks(ck, m, size):
    f = one(ck, [f for f in m.fns.values() if f.body is not None and f.cls is None and len(f.params) == 1 and "span<const std::byte>" in f.params[0]["t"] and
                 any(x.get("qn", x.get("svar", "")).startswith(ENC + "::") for x in fn_nodes(f) if isinstance(x.get("qn", x.get("svar", "")), str))],
            "the function that recognises byte order marks")
    i = Interp(m, peel=0)
    SZ = ("init", ("f", ("obj", "arg0"), "size_"))
    seen = set()
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        yes, no = {}, {}
        for a, truth in facts(r.trace):
            if a[0] == "eq0" and len(a[2]) == 1:
                v, c = a[2][0]
                t = v[1] if v[:1] == ("init",) else v
                if t[:1] in (("e",), ("elt",)) and len(t) > 2 and t[2][:1] == ("c",) and mentions(t[1], lambda x: x == ("obj", "arg0")):
                    (yes if truth else no).setdefault(t[2][1], set()).add((-a[1] * c) & 0xff)

        def holds(b):
            for k, x in enumerate(b):
                if x in no.get(k, ()) or k in yes and x not in yes[k]:
                    return False
            long = i.decide(r.state, ("pos", -(len(b) - 1), ((SZ, 1),)))
            if long is False:
                return False
            if len(b) == size and i.decide(r.state, ("eq0", -size, ((SZ, 1),))) is False:
                return False        # there cannot be more than the buffer holds
            return True if long and all(k in yes for k in range(len(b))) else None
        v = r.value
        got = None
        if not (isinstance(v, tuple) and v[:1] in (("null",), ("none",), ("nullopt",)) or show(v) in ("nullopt", "{}")):
            g = []
            mentions(v, lambda x: g.append(short(x[1])) and False if x[:1] == ("g",) and str(x[1]).startswith(ENC + "::") else False)
            got = g[0] if len(g) == 1 else "?"
        want, maybe = None, None
        for n, b in BOMS:
            h = holds(b)
            if h is not False:
                want, maybe = n, h
                break
        seen.add(got)
        if got is None:
            ck.ob("C18.mark", "none", want is None, "no byte order mark is reported although there may be one of %s" % want, f.where(0))
        else:
            ck.ob("C18.mark", str(got), want == got and maybe is True, "first bytes that may not be (only) its mark are taken for %s" % got, f.where(0))
    ck.ob("C18.marks", f.short, seen >= {n for n, _ in BOMS}, "there is no way to recognise %s" % ", ".join(sorted({n for n, _ in BOMS} - {str(x) for x in seen})), f.where(0))
    return f


def filling(ck, m, f):
    i = Interp(m, peel=0)
    SZ = ("init", ("f", ("obj", "arg1"), "size_"))
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        left = i.add(SZ, r.value, -1)
        rd = [e for e in r.trace if e.kind == "call" and e.name == STREAM + "::read"]
        full = sure(i, r, i.cond_eq(left, ("c", 0)))
        lin = i.lin(left)
        full = full or lin is not None and i.decide(r.state, ("pos", lin[0], tuple(sorted(lin[1].items(), key=str)))) is False
        end = bool(rd) and i.decide(r.state, ("eq0", 0, ((rd[-1].extra, 1),))) is True
        ck.ob("C18.fill", f.short, full or end, "it may stop before the buffer is full and the stream at its end", f.where(0))


def preamble(ck, m, f):
    i = Interp(m, this_cls=UTF8, peel=0)
    D, S = ("init", ("f", ("obj", "arg0"), "data_")), ("init", ("f", ("obj", "arg0"), "size_"))
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        dest = None
        for e in r.trace:
            if e.kind != "call" or short(e.name) not in ("copy", "copy_n", "memcpy"):
                continue
            a = e.args
            s, n, d = (a[0], i.add(a[1], a[0], -1), a[2]) if short(e.name) == "copy" else (a[0], a[1], a[2]) if short(e.name) == "copy_n" else (a[1], a[2], a[0])
            if s == D and n == S:
                dest = d
        empty = sure(i, r, i.cond_eq(S, ("c", 0)))
        utf8 = i.decide(r.state, ("has", ("init", this_field("is_utf8_"))))
        what = "UTF-8" if utf8 else "another encoding"
        if dest is None:
            ck.ob("C18.preamble-kept", what, empty, "the bytes read beforehand are not copied as a whole", f.where(0))
            continue
        if utf8 is None:
            ck.ob("C18.preamble-kept", what, False, "the bytes read beforehand are treated the same whether they are to be converted or not", f.where(0))
        elif utf8:
            rem = this_field("remaining_bits_")
            v = i.read(r.state, rem)
            d, s = part(i, r, rem, v, "data_"), part(i, r, rem, v, "size_")
            ck.ob("C18.preamble-kept", what, d == dest and s == S, "the bytes read beforehand are not what is delivered first", f.where(0))
        else:
            beg = mentions(dest, lambda x: x[:1] == ("m",) and str(x[1]).endswith("::data") and mentions(x[2], lambda y: y == this_field("buffer_")))
            pos = i.read(r.state, this_field("buffer_pos_"))
            end = i.read(r.state, this_field("buffer_end_"))
            sf = i.read(r.state, this_field("should_fill_buffer_"))
            zero = i.cond_eq(S, ("c", 0))[0]
            fresh = sf == ("cond", zero, True) or sf in (("c", False), ("c", 0)) or sf in (("c", True), ("c", 1)) and empty
            ck.ob("C18.preamble-kept", what, beg and end == i.add(dest, S) and pos in (("init", this_field("buffer_pos_")), dest) and fresh,
                  "the bytes read beforehand are not what is converted first", f.where(0))


def sure(i, r, cond):
    return i.decide(r.state, cond[0]) is cond[1]


def part(i, r, L, v, name):
    if isinstance(v, tuple) and v[:1] == ("agg",):
        return dict(v[2]).get(name)
    return i.read(r.state, ("f", L, name))


def converter(ck, m, pre):
    c = UTF8
    fs = [f for f in m.methods(c) if f.is_ctor and f.body is not None and any(ENC in p["t"] for p in f.params)]
    f = one(ck, fs, "the constructor of the UTF-8 stream")
    k = next(k for k, p in enumerate(f.params) if ENC in p["t"])
    s = next(j for j, p in enumerate(f.params) if STREAM in p["t"])
    E = ("obj", "arg%d" % k)
    i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.short == "allocate" or fn.is_ctor and short(fn.cls or "") == "Iconv_desc")
    kinds = set()
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        utf8 = is_utf8(r, E)
        kinds.add(utf8)
        fl = i.read(r.state, this_field("is_utf8_"))
        atom = fl[1] if isinstance(fl, tuple) and fl[:1] == ("cond",) else None
        known = (i.decide(r.state, atom) == fl[2] if atom is not None and i.decide(r.state, atom) is not None else None) if atom is not None else {True: True, False: False, 1: True, 0: False}.get(
            fl[1]) if isinstance(fl, tuple) and fl[:1] == ("c",) else None
        ck.ob("C18.converter", "is_utf8_", utf8 is not None and known == utf8, "whether the source is UTF-8 is not what the encoding says", f.where(0))
        inner = i.read(r.state, this_field("inner_"))
        ck.ob("C18.converter", "inner_", mentions(inner, lambda x: x == ("obj", "arg%d" % s)), "the stream that is read is not the one given", f.where(0))
        if utf8 is False:
            v = i.read(r.state, this_field("converter_"))
            ck.ob("C18.converter", "converter_", isinstance(v, tuple) and mentions(v, lambda x: x[:1] == ("new",) and "Iconv_desc" in str(x[1])) and mentions(v, lambda x: x == E),
                  "the converter is not made for the encoding given", f.where(0))
            b, p = i.read(r.state, this_field("buffer_")), i.read(r.state, this_field("buffer_pos_"))
            ck.ob("C18.converter", "buffer_pos_", mentions(p, lambda x: x == b) and p[:1] == ("m",), "the buffer is not filled from its beginning", f.where(0))
            ck.ob("C18.converter", "should_fill_buffer_", i.read(r.state, this_field("should_fill_buffer_")) in (("c", True), ("c", 1)), "what is in the new buffer is converted", f.where(0))
    ck.need(kinds == {True, False}, "the two kinds of UTF-8 stream")
    conv = {g.id for g in m.methods(c) if g.body is not None and any(str(t.get("fn", "")).endswith("Iconv_desc::convert") for t in fn_nodes(g))}
    for g in m.methods(c):
        if g.short != "read" or g.body is None or not g.params or "span" not in g.params[0]["t"]:
            continue
        ck.saw(g)
        i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id in conv)
        for r in ck.interp_done(i, i.run(g)):
            u = i.decide(r.state, ("has", ("init", this_field("is_utf8_"))))
            for e in r.trace:
                if e.kind == "call" and e.name == STREAM + "::read":
                    ck.ob("C18.converts", "read", u is True, "the bytes of a source in another encoding are handed out as they are", where(e))
                elif e.kind == "call" and any(m.fns[x].name == e.name for x in conv if x in m.fns):
                    ck.ob("C18.converts", "read", u is False, "the bytes of a source that is UTF-8 are converted", where(e))
    for g in m.fns.values():
        if g.body is None or not any(t.get("k") == "call" and t.get("fn") == "iconv_open" for t in fn_nodes(g)):
            continue
        ck.saw(g)
        i = Interp(m, this_cls=g.cls, peel=0)
        for r in ck.interp_done(i, i.run(g)):
            for e in r.trace:
                if e.kind == "call" and e.name == "iconv_open":
                    to = mentions(e.args[0], lambda x: x == ("g", ENC + "::utf8") or x[:1] == ("s",) and str(x[1]).upper().replace("-", "") == "UTF8")
                    fr = mentions(e.args[1], lambda x: x[:1] == ("obj",) or x == this_field("encoding_")) and not mentions(e.args[1], lambda x: x[:1] == ("g",))
                    ck.ob("C18.iconv", g.short, to and fr, "the converter does not convert from the encoding to UTF-8", where(e))


def is_utf8(r, E):
    """Does the path know that encoding E is (not) UTF-8?"""
    for a, truth in facts(r.trace):
        if a[0] == "eq" and mentions(a, lambda x: x == ("g", ENC + "::utf8")) and mentions(a, lambda x: x == E):
            return bool(truth)
    return None


def make_stream(ck, m, f, bom, fill, pre):
    sk = next(k for k, p in enumerate(f.params) if STREAM in p["t"])
    ek = next(k for k, p in enumerate(f.params) if ENC in p["t"])
    S, E = ("obj", "arg%d" % sk), ("obj", "arg%d" % ek)
    i = Interp(m, peel=0, opaque=lambda fn, call: fn.id in (bom.id, fill.id, pre.id) or "logger" in fn.name or fn.short == "allocate" or
               fn.is_ctor and short(fn.cls or "") == "Iconv_desc")
    kinds = set()
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        if any(a[0] == "eq" and not t and all(mentions(x, lambda y: y == ("g", ENC + "::utf8")) for x in a[1:3]) for a, t in facts(r.trace)):
            continue        # UTF-8 is UTF-8
        v = r.value
        raw = v == ("init", S)
        reads = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and (e.name == fill.name and e.node and len(e.args) == 2 and mentions(e.args[0], lambda x: x == S)
                                                                               or e.name == STREAM + "::read")]
        seeks = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and e.name == STREAM + "::seek"]
        pres = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and e.name == pre.name]
        for k, e in seeks:
            can = any(t and a[0] == "has" and mentions(a, lambda x: x[:1] == ("m",) and str(x[1]).endswith("::seekable")) for a, t in facts(r.trace[:k]))
            ck.ob("C18.seek", f.short, can and e.args and e.args[0] == ("c", 0), "the stream is moved to another place than its beginning, or may not be able to", where(e))
        back = bool(seeks) and (not reads or seeks[-1][0] > reads[-1][0])
        full = False
        for k, e in pres:
            a = e.args[-1]
            d = dict(a[2]) if a[:1] == ("agg",) else {}
            if reads and len(reads) == 1 and reads[0][1].name == fill.name:
                b = reads[0][1].args[1]
                bd = dict(b[2]).get("data_") if b[:1] == ("agg",) else None
                full = d.get("size_") == reads[0][1].extra and same_place(d.get("data_"), bd)
            elif not reads:
                full = d.get("size_") == ("c", 0)
            ck.ob("C18.preamble", f.short, full, "what the stream is given to deliver first is not what was read from the source", where(e))
        if reads:
            nothing = all(e.extra is not None and i.decide(r.state, i.cond_eq(e.extra, ("c", 0))[0]) is True for k, e in reads)
            ck.ob("C18.first-byte", f.short, back and not pres or full and not back or nothing and not pres, "the bytes read to find a byte order mark are %s" % (
                "delivered twice" if back and pres else "lost"), where(reads[0][1]))
        else:
            ck.ob("C18.first-byte", f.short, not pres or full, "bytes are delivered that the source does not have", f.where(0))
        # the encoding the stream is read in
        given = i.decide(r.state, ("has", ("init", E)))
        marks = [e for e in r.trace if e.kind == "call" and e.name == bom.name]
        conv = [e.args[0] for e in r.trace if e.kind == "write" and isinstance(e.args[0], tuple) and e.args[0][:1] == ("new",) and "Iconv_desc" in str(e.args[0][1])]
        if given is None:
            ck.ob("C18.encoding", f.short, False, "it does not matter whether an encoding is given", f.where(0))
            continue
        if marks:
            e = marks[-1]
            a = e.args[0]
            d = dict(a[2]) if a[:1] == ("agg",) else {}
            ck.ob("C18.mark-bytes", f.short, bool(reads) and d.get("size_") == reads[0][1].extra, "the byte order mark is not looked for in the first bytes of the source", where(e))
        if given:
            src, why = E, "the encoding asked for"
            utf8 = is_utf8(r, E)
        else:
            ck.ob("C18.marked", f.short, len(marks) == 1, "no byte order mark is looked for although no encoding is given", f.where(0))
            if not marks:
                continue
            src, why = marks[-1].extra, "what the byte order mark says"
            has = i.decide(r.state, ("has", src))
            utf8 = True if has is False else is_utf8(r, src)
            if has and utf8 is None and raw:
                utf8 = None
        kinds.add((given, bool(conv)))
        if conv:
            ck.ob("C18.encoding", f.short, utf8 is not True and all(mentions(c, lambda x: x == src) for c in conv), "the source is converted from another encoding than %s" % why, f.where(0))
        else:
            ck.ob("C18.encoding", f.short, utf8 is True, "the source is read as if it were UTF-8 although %s may be something else" % why, f.where(0))
        if not raw:
            ck.ob("C18.wrapped", f.short, isinstance(v, tuple) and mentions(v, lambda x: x[:1] in (("heap",), ("new",)) and str(x[1]) == UTF8), "the stream returned is not the one made", f.where(0))
    ck.need(len(kinds) == 4, "the ways to make a UTF-8 stream (%s)" % sorted(kinds))


def same_place(a, b):
    return a is not None and a == b


def readers(ck, m, make):
    n = 0
    for f in list(m.fns.values()):
        if f.body is None or f.id == make.id or not any(t.get("k") == "call" and t.get("fn") == make.name for t in fn_nodes(f)):
            continue
        if not f.cls:
            continue
        ck.saw(f)
        i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.file != f.file or fn.is_ctor)
        opts = {x["n"] for _, x in m.fields(f.cls) for c in [m.classes.get(str(x["t"]).replace("const ", "").strip())] if c and any("optional<" + ENC in str(y["t"]) for y in c.get("fields", ()))} \
            if isinstance(m.classes, dict) else set()
        for r in ck.interp_done(i, i.run(f)):
            for e in r.trace:
                if e.kind != "call" or e.name != make.name:
                    continue
                n += 1
                src = e.args[0]
                ok = mentions(src, lambda x: str(x[1:2]).find("open_read") >= 0) and (any(q.kind == "call" and q.extra == src and q.obj is not None and mentions(q.obj, lambda x: x == ("obj", "arg0"))
                                                                                        for q in r.trace) or mentions(src, lambda x: x == ("obj", "arg0")))
                ck.ob("C18.reader-source", f.name, ok, "the stream that is converted is not the store's", where(e))
                if opts:
                    enc = e.args[1] if len(e.args) > 1 else None
                    ok = isinstance(enc, tuple) and mentions(enc, lambda x: x[:1] == ("f",) and len(x) > 2 and x[2] == "encoding")
                    ck.ob("C18.reader-encoding", f.name, ok, "the store is not read in the encoding the parameters of the reader say", where(e))
                if r.outcome == "return" and "Record_reader" in str(f.ret):
                    ck.ob("C18.reader-uses", f.name, isinstance(r.value, tuple) and mentions(r.value, lambda x: x == e.extra), "the records are not read from the stream that converts", where(e))
    ck.need(n >= 2, "readers of text")
