"""Lines are split at line ends only, however the data is cut into chunks.

The line scanners are turned into automata (analysis/automaton.py) and compared with the specification of a line, over all texts and
chunk boundaries at once; around them, the paths of the functions that hold, fill and refill the chunks."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type, fn_nodes
from automaton import Automaton, compare, END
from checks.c12 import is_zero, nonzero

ASSUMPTIONS = ["The delimiter, the quote character and the line-end characters differ from each other.",
               "A line scanner is not called with an empty chunk (its callers are checked)."]
TRUE, FALSE = ("c", True), ("c", False)
BASE = "mlio::Stream_record_reader"
REC = "mlio::Record"


def allfns(m):
    return list(m.fns.values()) if isinstance(m.fns, dict) else m.fns


def returns_record(f):
    return base_name(f.d.get("ret") or "") == "std::optional" and REC in (f.d.get("ret") or "")


def is_chunk(p):
    return base_name(p["t"]) == "mlio::Memory_slice" and "&" in p["t"] and "const" not in p["t"]


def decoders(m):
    """Functions that take records off a chunk: (chunk &, bool, ...) -> optional<Record>"""
    return [f for f in allfns(m) if f.body is not None and returns_record(f) and len(f.params) >= 2 and is_chunk(f.params[0]) and strip_type(f.params[1]["t"]) == "bool"]


def has_cycle(f):
    return any(t.get("k") in ("while", "for", "do", "goto") for t in fn_nodes(f))


CH = ("obj", "arg0")
BEG, ENDP, BLK = ("f", CH, "beg_"), ("f", CH, "end_"), ("f", CH, "block_")


def truth(i, r, v):
    """Is the truth value v known on path r?"""
    if v in (TRUE, FALSE):
        return v == TRUE
    if v[0] == "cond":
        d = truth_atom(i, r, v[1])
        return None if d is None else d == v[2]
    return truth_atom(i, r, ("has", v))


def truth_atom(i, r, a):
    if isinstance(a, bool):
        return a
    d = dict(facts(r.trace)).get(a)
    return i.decide(r.state, a) if d is None else d


def proj(i, v, *names):
    for n in names:
        v = i.project(v, ("f", None, n))
    return v


def setup(i, st):
    i.assume(st, ("has", ("init", BEG)), True)


def run(ck):
    m = ck.model("core")
    decs = decoders(m)
    ck.need(decs, "functions that take records off a chunk")
    virt = {f.id for f in decs if f.flag("virtual") or f.d.get("overrides") or f.short.startswith("decode")}
    scanners = [f for f in decs if f.id not in virt and has_cycle(f)]
    ck.need(scanners, "line scanners")
    for f in scanners:
        scanner(ck, m, f)
    text = [f for f in decs if f.id in virt and any(t.get("k") == "call" and t.get("id") in {s.id for s in scanners} for t in fn_nodes(f))]
    ck.need(text, "decoders of text records")
    for f in text:
        decoder(ck, m, f, scanners)
    bom(ck, m, decs, text)
    reading(ck, m)
    chunks(ck, m)


# ---------------------------------------------------------------- scanners
class Line:
    """A line ends with LF, CR or CR LF."""
    start = "text"

    def __init__(self, quoted):
        self.quoted = quoted
        self.start = "new" if quoted else "text"

    def step(self, s, c):
        if s == "cr":
            if c == 10:
                return ("done", ("line", -1, 1), [])
            return ("done", ("line", -1, 0) if c != END else ("open", -1, 0), [])
        if c == END:
            return ("done", ("error",) if s == "quoted" else ("open", 0, 0), [])
        if s != "quoted":
            if c == 10:
                return ("done", ("line", 0, 1), [])
            if c == 13:
                return ("cr", [])
        if not self.quoted:
            return ("text", [])
        if s == "new":
            return ("quoted" if c == "quote" else "new" if c == "delim" else "field", [])
        if s == "field":
            return ("new" if c == "delim" else "field", [])
        if s == "quoted":
            return ("quote" if c == "quote" else "quoted", [])
        if s == "quote":
            return ("new" if c == "delim" else "quoted" if c == "quote" else "field", [])


def special(t):
    if t[0] == "init" and t[1][0] == "f" and isinstance(t[1][2], str):
        n = t[1][2]
        if "delim" in n:
            return "delim"
        if "quote" in n:
            return "quote"
    return None


def scanner(ck, m, f):
    i = Interp(m, this_cls=f.cls, peel=0, cuts=True)
    rs = ck.interp_done(i, i.run(f, setup=setup))
    size = i.add(("init", ENDP), ("init", BEG), -1)
    start = ("init", BEG)
    A = Automaton(i, rs, start, i.add(start, size), special)
    quoted = any(x.kind == "fact" and A.char_atom(e, x.name) and any(special(t) for t in atoms(x.name)) for es in A.edges.values() for e in es for x in e.events)
    limit = lambda a: names_in(a, lambda x: "max" in x) or contains(a, ("obj", "arg2"))
    maxes = lambda r: any(limit(a) for a, _ in facts(r.trace))

    def judge(e, d, s, asg):
        r = e.result
        ign = r.state.facts.get(("has", ("init", ("obj", "arg1"))))
        if ign is None:
            ign = i.decide(r.state, ("has", ("init", ("obj", "arg1"))))
        if e.src is None and asg and asg[0] == END:
            return None     # an empty chunk
        if r.outcome == "throw":
            t = exc_type(r)
            if t in ("std::out_of_range", "std::invalid_argument"):
                return None     # the ranges are compared below
            if "large" in t.lower():
                return None if maxes(r) else "it fails with %s although no limit is set" % short(t)
            if d is not None and d[0][0] == "error":
                return None if ign is False else "data that might go on in the next chunk is taken for corrupt"
            return "it fails with %s" % short(t)
        if d is None:
            return "it returns before the line or the chunk has ended"
        (kind, *what), k = d
        if r.value == NULL:
            if kind == "line":
                return "it returns no record although the line is complete"
            if ign is not True:
                return "the last line of the data is lost"
            b, n = i.read(r.state, BEG), i.read(r.state, ENDP)
            return None if (b, n) == (("init", BEG), ("init", ENDP)) else "the beginning of an incomplete line is taken off the chunk"
        if kind == "error":
            return "a line that ends within a quoted field is returned"
        if kind == "open" and ign is not False:
            return "a line is returned although the next chunk may continue it"
        v = r.value[1] if r.value[0] == "some" else r.value
        p = proj(i, v, "payload_")
        at = i.add(i.add(e.S, start, -1), ("c", k))
        pb, pe = proj(i, p, "beg_"), proj(i, p, "end_")
        if pb != ("init", BEG):
            return "the record does not begin where the chunk begins"
        want = i.add(at, ("c", what[0]))
        got = i.add(pe, ("init", BEG), -1)
        if got != want and not (kind == "open" and not what[0] and pe == ("init", ENDP)) and not (kind == "open" and i.add(i.add(pe, ("init", ENDP), -1), ("c", -what[0]), 1) == ("c", 2 * 0) and False):
            if not (kind == "open" and i.add(pe, ("init", ENDP), -1) == ("c", what[0])):
                dd = i.add(got, want, -1)
                return "the record is %s character(s) longer than its line" % (dd[1] if dd[0] == "c" else "some")
        cb, ce = i.read(r.state, BEG), i.read(r.state, ENDP)
        if kind == "open":
            empty = cb == ce or (cb, ce) == (NULL, NULL) or moved(r) or i.add(cb, ("init", BEG), -1) == i.add(at, ("c", what[1])) or i.add(ce, cb, -1) == ("c", 0)
            return None if empty else "the chunk still holds the last line"
        rest = i.add(i.add(cb, ("init", BEG), -1), i.add(at, ("c", what[1])), -1)
        if rest != ("c", 0) or ce != ("init", ENDP):
            return "the chunk goes on %s character(s) %s" % (show(rest), "after the line end")
        if i.read(r.state, BLK) != ("init", BLK):
            return "the chunk no longer refers to its memory: the memory could be reused while records refer to it"
        kd = proj(i, v, "kind_")
        if not (kd == ("c", 0) or kd[0] == "enum" and kd[2] == 0 or kd[0] == "zero"):
            return "the record is not marked as complete"
        return None

    def moved(r):
        return False

    mm, st = compare(A, ["delim", "quote", 10, 13] if quoted else [10, 13], Line(quoted), lambda e: [], judge)
    ck.notes.append("%s: automaton with %d states, %d edges; product with the specification (%s): %d states, %d edges" % (
        f.name, len(A.edges), sum(len(x) for x in A.edges.values()), "quoted line ends" if quoted else "plain", st["configs"], st["edges"]))
    ck.ob("L1 the scanner accepts exactly the lines", f.name, not mm, "" if not mm else "%s (after %s)" % (mm[0].what, mm[0].word or "the beginning"), f.where())
    for x in mm[1:]:
        ck.ob("L1 the scanner accepts exactly the lines", f.name + " (" + x.what[:40] + ")", False, "%s (after %s)" % (x.what, x.word or "the beginning"), f.where())
    limits = {x.name for es in A.edges.values() for e in es for x in e.events if x.kind == "fact" and x.name[0] == "has" and limit(x.name)}
    for es in A.edges.values():
        for e in es:
            if e.result is not None and e.result.outcome == "return":
                ck.ob("L2 results of the scanner", f.name, True, "", f.where())
            # a limit on the length of lines is enforced on all of them
            if e.result is not None and e.result.outcome == "return" and e.result.value != NULL:
                fs = facts(e.result.trace)
                off = any(a in limits and not t for a, t in fs) or any(i.decide(e.result.state, a) is False for a in limits)
                ck.ob("L3 a line longer than the limit is refused", f.name, not limits or off or any(a[0] in ("pos", "lt") and limit(a) for a, _ in fs), "the length is not compared with the limit", f.where())


def atoms(a):
    out = []

    def go(t):
        if isinstance(t, tuple):
            out.append(t) if t and t[0] == "init" else None
            for x in t:
                go(x)
    go(a)
    return out


def exc_type(r):
    v = r.value
    return v[1] if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str) else "?"


# ---------------------------------------------------------------- decoders of text records
def decoder(ck, m, f, scanners):
    ids = {s.id for s in scanners}
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.id in ids)
    rs = ck.interp_done(i, i.run(f, setup=setup))
    n = 0
    for r in rs:
        if r.outcome != "return":
            continue
        calls = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and m.fns.get((e.node or {}).get("id")) is not None and e.node["id"] in ids]
        for k, e in calls:
            n += 1
            ck.ob("T1 lines are taken off the chunk itself", f.name, e.locs and e.locs[0] == CH or not e.locs, "the scanner does not get the chunk", where(e))
            a1 = e.args[1]
            ck.ob("T1 lines are taken off the chunk itself", f.name + " (end of the data)", a1 == ("init", ("obj", "arg1")), "the scanner is told %s about what follows the chunk" % show(a1), where(e))
            # an empty chunk is not scanned
            seen = [x for x in r.trace[:k] if x.kind == "fact"]
            ck.ob("T2 an empty chunk is not scanned", f.name, any(emptiness(i, x.name, x.args[0]) for x in seen), "the chunk may be empty", where(e))
        # what happens with the lines: between one scan and the next event of interest
        for j, (k, e) in enumerate(calls):
            end = calls[j + 1][0] if j + 1 < len(calls) else len(r.trace)
            last = j + 1 == len(calls)
            none = truth_of(i, r, e.extra, k, end)
            if last and r.value != NULL:
                ck.ob("T3 a line that is found is returned", f.name, r.value == e.extra or contains(r.value, e.extra), "something else is returned: %s" % show(r.value), f.where())
                continue
            if none is False:
                continue
            # the line is dropped: it must be blank or a comment, and this must have been asked for
            fs = [(x.name, x.args[0]) for x in r.trace[:end] if x.kind == "fact"]
            after = [(x.name, x.args[0]) for x in r.trace[k:end] if x.kind == "fact"]
            blank = any(t and is_empty_payload(i, a) for a, t in after) and any(t and names_in(a, lambda s: "blank" in s) for a, t in fs)
            com = [q for q, x in enumerate(r.trace[:k]) if x.kind == "fact" and x.args[0] and names_in(x.name, lambda s: "comment" in s) and contains_load(x.name)]
            prev = calls[j - 1][0] if j else -1
            comment = any(q > prev for q in com)
            ck.ob("T4 only blank lines and comments are skipped, when asked for", f.name, blank or comment, "a line is dropped", where(e))
        # nothing else is taken off
        for k, e in enumerate(r.trace):
            if e.kind == "write" and e.obj is not None and (e.obj == CH or e.obj[0] == "f" and e.obj[1] == CH) and e.node is not None and not any(e.node is c.node for _, c in calls):
                ck.ob("T5 only the scanner takes from the chunk", f.name, False, "the chunk is changed", where(e))
    ck.ob("T1 lines are taken off the chunk itself", f.name + " (calls)", n > 0, "it scans no line", f.where())


def contains_load(a):
    return mentions(a, lambda t: isinstance(t, tuple) and len(t) == 2 and t[0] == "*")


def emptiness(i, a, t):
    """The fact that the chunk (or what is left of it) is not empty."""
    if a[0] == "has" and a[1][0] == "m" and short(a[1][1]) == "empty":
        return not t
    if a[0] == "eq0" and len(a[2]) >= 1:
        return not t
    if a[0] == "pos":
        return True
    if a[0] == "eq":
        return not t
    if a[0] == "has":
        return names_in(a, lambda x: ("end_" in x or "beg_" in x))
    return False


def truth_of(i, r, v, k, end):
    """Is the optional v known to have a value (True) or none (False)?"""
    for x in r.trace[k:end]:
        if x.kind == "fact" and x.name[0] == "has" and x.name[1] == v:
            return x.args[0]
    if v == NULL:
        return False
    return None


def is_empty_payload(i, a):
    return names_in(a, lambda x: x in ("payload", "payload_") or x.endswith("::payload"))


# ---------------------------------------------------------------- the byte order mark
def bom(ck, m, decs, text):
    """decode_record of the text readers: at most the byte order mark at the beginning of the stream is dropped."""
    over = {f.short for f in text}
    fs = [f for f in decs if any(t.get("k") == "call" and t.get("virt") and t.get("fn", "").split("::")[-1] in over for t in fn_nodes(f))]
    ck.need(fs, "the function that removes the byte order mark")
    for f in fs:
        op = lambda fn, call: fn.short in over
        i = Interp(m, this_cls=f.cls, peel=0, opaque=op)
        first = ck.interp_done(i, i.run(f, setup=setup))
        # the first call on a new reader
        for c in [x for x in m.methods(f.cls) if x.is_ctor and x.body is not None]:
            for r0 in i.run(c):
                if r0.outcome != "return":
                    continue
                for r in i.run(f, state=r0.state):
                    d = decoded(r, over)
                    if not d:
                        continue
                    size = i.add(("init", ENDP), ("init", BEG), -1)
                    a, p = i.cond_lt(size, ("c", 3))
                    v = truth_atom(i, r, a)
                    ign = truth(i, r, ("init", ("obj", "arg1")))
                    ck.ob("B5 the first record is looked for when enough is known to tell a byte order mark", f.name, v is not None and v != p or ign is False, "a byte order mark that is cut is taken for data", where(r.trace[d[0]]))
        for r in first:
            drop_rules(ck, i, f, r, over, first=True)
            d = decoded(r, over)
            if r.outcome == "return" and d:
                for r2 in i.run(f, state=r.state):
                    new = r2.trace[len(r.trace):] if r2.trace[:len(r.trace)] == r.trace else r2.trace
                    had = i.read(r.state, BEG)
                    d2 = decoded(r2, over)
                    d2 = [k for k in d2 if r2.trace[k] in new]
                    has = proj(i, r2.trace[d2[-1]].args[0], "beg_") if d2 else i.read(r2.state, BEG)
                    ck.ob("B2 only the beginning of a stream can be a byte order mark", f.name, same(i, has, had), "bytes in the middle of the stream are dropped", f.where())


def same(i, a, b):
    return a == b or i.add(a, b, -1) == ("c", 0)


def decoded(r, over):
    return [k for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and short(e.name) in over]


def char_at(i, t, base):
    """k when t is the character at base + k"""
    t = t[1] if t[0] == "init" else t
    if t[0] == "*":
        a = t[1]
    elif t[0] == "e" and t[1][0] == "*":
        a = i.add(t[1][1], t[2])
    else:
        return None
    for x in (base, ("addr", ("*", base))):
        o = i.add(a, x, -1)
        if o[0] == "c":
            return o[1]
    return None


def drop_rules(ck, i, f, r, over, first):
    d = decoded(r, over)
    pre = r.trace[:d[0]] if d else r.trace
    has = proj(i, r.trace[d[0]].args[0], "beg_") if d else i.read(r.state, BEG)
    w = not same(i, has, ("init", BEG))
    if w:
        k = i.add(has, ("init", BEG), -1)
        bytes_ = {}
        for x in pre:
            if x.kind == "fact" and x.name[0] == "eq0" and len(x.name[2]) == 1:
                t, q = x.name[2][0]
                o = char_at(i, t, ("init", BEG))
                if o is not None and x.args[0]:
                    bytes_[o] = -x.name[1] // q
        ok = k == ("c", 3) and bytes_ == {0: 0xEF, 1: 0xBB, 2: 0xBF}
        ck.ob("B1 nothing but a byte order mark is dropped", f.name, ok, "%s byte(s) are dropped that start with %s" % (show(k), sorted(bytes_.items())), f.where())
    if r.outcome != "return":
        return
    if not d:
        # no record was looked for: the chunk is empty, or too short to tell and more is to come
        size = i.add(("init", ENDP), ("init", BEG), -1)
        ign = i.decide(r.state, ("has", ("init", ("obj", "arg1"))))
        empty = any(eq_known(i, r, a, b) is True for a, b in ((size, ("c", 0)), (("init", BEG), ("init", ENDP)), (("init", ENDP), ("init", BEG))))
        a3, p3 = i.cond_lt(size, ("c", 3))
        v3 = i.decide(r.state, a3)
        shortc = v3 is not None and v3 == p3
        ck.ob("B3 a chunk is decoded unless it is empty or may begin with a part of a byte order mark", f.name, empty or (shortc and ign is True), "no record is looked for", f.where())
        ck.ob("B3 a chunk is decoded unless it is empty or may begin with a part of a byte order mark", f.name + " (kept)", not w, "bytes are dropped", f.where())
    else:
        c = r.trace[d[0]]
        ck.ob("B4 the decoder gets the chunk and what follows it", f.name, c.args[1] == ("init", ("obj", "arg1")) and (not c.locs or c.locs[0] == CH), "it gets %s" % [show(a) for a in c.args], where(c))
        ck.ob("B4 the decoder gets the chunk and what follows it", f.name + " (result)", contains(r.value, c.extra) or r.value == c.extra, "its record is not returned", f.where())


# ---------------------------------------------------------------- the reading loop
def reading(ck, m):
    dec = {f.short for f in allfns(m) if f.cls == BASE and f.flag("pure")} or {"decode_record"}
    fs = [f for f in m.methods(BASE) if f.body is not None and returns_record(f)]
    ck.need(fs, "the loop that reads records off chunks")
    for f in fs:
        i = Interp(m, this_cls=BASE, peel=1)
        CK = this_field("chunk_")
        for r in ck.interp_done(i, i.run(f)):
            d = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and short(e.name) in dec]
            rd = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "read_chunk"]
            for k, e in d:
                ck.ob("R1 records are taken off the current chunk", f.name, e.locs and e.locs[0] == CK or not e.locs, "", where(e))
                eof = [x for x in r.trace[:k] if x.kind == "call" and isinstance(x.name, str) and short(x.name) == "eof"]
                ok = bool(eof) and not [x for q, x in rd if r.trace.index(eof[-1]) < q < k] and negation(i, r, e.args[1], eof[-1].extra, k)
                ck.ob("R2 what remains may be incomplete as long as more data can come", f.name, ok, "the decoder is told %s" % show(e.args[1]), where(e))
            for k, e in rd:
                v = e.args[0]
                ck.ob("R3 what is left of a chunk goes in front of the next one", f.name, covers(i, r, v, CK, k), "the next chunk gets %s" % show(v), where(e))
                w = [x for x in r.trace[k:] if x.kind == "write" and x.obj is not None and (x.obj == CK or x.obj[0] == "f" and x.obj[1] == CK)]
                ck.ob("R4 the next chunk becomes the current one", f.name, any(contains(x.args, e.extra) for x in w), "the chunk that was read is not used", where(e))
                before = [q for q, x in d if q < k]
                ck.ob("R5 a chunk is read only when the current one has no record", f.name, bool(before) and truth_of(i, r, r.trace[before[-1]].extra, before[-1], k) is False, "a new chunk is read although the current one may hold records", where(e))
            if r.outcome == "return":
                none = r.value == NULL or (d and r.value == d[-1][1].extra and truth_of(i, r, r.value, 0, len(r.trace)) is False)
                if none:
                    ok = False
                    if rd:
                        last = rd[-1][1].extra
                        ok = any(x.kind == "fact" and contains(x.name, last) and emptyfact(x.name) == x.args[0] for x in r.trace[rd[-1][0]:])
                        ok = ok and not [q for q, _ in d if q > rd[-1][0]]
                    ck.ob("R6 the end is reported only when no data is left", f.name, ok, "it reports the end without having seen an empty chunk", f.where())
                elif d:
                    ck.ob("R7 the record found is returned", f.name, any(contains(r.value, e.extra) or r.value == e.extra for _, e in d[-1:]), "it returns %s" % show(r.value), f.where())


def emptyfact(a):
    """truth of the fact when the container is empty"""
    if a[0] == "eq0" or a[0] == "eq":
        return True
    if a[0] == "has" and a[1][0] == "m" and short(a[1][1]) == "empty":
        return True
    return False


def negation(i, r, v, eof, k):
    if v == ("cond", ("has", eof), False):
        return True
    for x in r.trace[:k]:
        if x.kind == "fact" and x.name == ("has", eof):
            return v == ("c", not x.args[0])
    return False


def covers(i, r, v, CK, k):
    """Is v a view of the slice at CK (as it is at event k)?"""
    if contains(v, CK):
        return True
    names = {"beg_", "end_"}
    return mentions(v, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] in ("fld", "f") and x[2] in names)


# ---------------------------------------------------------------- chunks
def chunks(ck, m):
    cs = [c for c in m.concrete("mlio::detail::Chunk_reader")]
    ck.need(cs, "chunk readers")
    for c in cs:
        f = m.method(c, "read_chunk")
        if f is None or f.body is None or f.cls != c:
            continue
        if any(base_name(x["t"]) == "mlio::Memory_slice" for _, x in m.fields(c)) and not any("Input_stream" in x["t"] for _, x in m.fields(c)):
            single(ck, m, c, f)
        else:
            refill(ck, m, c, f)


def single(ck, m, c, f):
    i = Interp(m, this_cls=c, peel=0)
    S = this_field(next(x["n"] for _, x in m.fields(c) if base_name(x["t"]) == "mlio::Memory_slice"))
    eof = m.method(c, "eof")
    for r in ck.interp_done(i, i.run(f)):
        same = r.value == ("init", S) or all(proj(i, r.value, n) == ("init", ("f", S, n)) for n in ("beg_", "end_"))
        ck.ob("C1 the data that is in memory is one chunk", f.name, same, "it returns %s" % show(r.value), f.where())
        b, e = i.read(r.state, ("f", S, "beg_")), i.read(r.state, ("f", S, "end_"))
        ck.ob("C2 a chunk is given out once", f.name, b == e or (b, e) == (NULL, NULL), "the chunk would be given out again", f.where())
        for r2 in i.run(eof, state=r.state):
            ck.ob("C3 after the only chunk comes the end", eof.name, truth(i, r2, r2.value) is True, "it reports %s" % show(r2.value), eof.where())


def refill(ck, m, c, f):
    i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.short in ("use_count", "resize_memory_block"))
    own = next(("f", ("obj", "this"), x["n"]) for _, x in m.fields(c) if "memory_block" in x["t"].lower())
    NEXT = this_field(next(x["n"] for _, x in m.fields(c) if strip_type(x["t"]) in ("std::size_t", "unsigned long", "size_t")))
    EOF = this_field(next(x["n"] for _, x in m.fields(c) if strip_type(x["t"]) == "bool"))
    LD, LS = ("init", ("f", CH, "data_")), ("init", ("f", CH, "size_"))
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        if truth(i, r, ("init", EOF)) is True:
            b, e = proj(i, r.value, "beg_"), proj(i, r.value, "end_")
            ck.ob("C4 nothing follows the last chunk", f.name, b == e, "it returns %s" % show(r.value), f.where())
            continue
        b, e = proj(i, r.value, "beg_"), proj(i, r.value, "end_")
        blk = proj(i, r.value, "block_")
        ck.ob("C5 a chunk is the beginning of the block that was filled", f.name, b[0] == "m" and short(b[1]) == "data" and contains(b, blk), "it begins at %s" % show(b), f.where())
        old = ("init", own)
        same = blk == old
        resized = [x for x in r.trace if x.kind == "call" and isinstance(x.name, str) and short(x.name) == "resize_memory_block" and x.extra == blk]
        fromold = same or bool(resized) and contains(resized[0].args, old)
        fresh = [x for x in r.trace if x.kind == "call" and isinstance(x.name, str) and short(x.name) == "allocate" and contains(blk, x.extra)]
        ck.ob("C5 a chunk is the beginning of the block that was filled", f.name + " (block)", fromold or bool(fresh), "the block is %s" % show(blk), f.where())
        # the leftover
        noleft = is_zero(i, r, LS)
        whole = eq_known(i, r, ("m", "mlio::Memory_block::size", ("*", old), ()), LS) or eq_call(i, r, old, LS)
        copies = [(k, x) for k, x in enumerate(r.trace) if x.kind == "call" and x.name in ("std::copy", "std::copy_n", "std::memmove", "memmove", "memcpy", "std::memcpy", "std::copy_backward")]
        good = [x for k, x in copies if copy_ok(i, r, x, k, LD, LS, blk, old, resized)]
        inplace = whole and fromold
        ck.ob("C6 what was left over stands at the beginning of the next chunk", f.name, noleft or bool(good) or inplace, "the leftover is lost", f.where())
        if good and fromold:
            ck.ob("C6 what was left over stands at the beginning of the next chunk", f.name + " (overlap)", all(x.name not in ("memcpy", "std::memcpy", "std::copy_backward") for x in good), "the leftover may overlap its destination", f.where())
        # memory that records refer to is not overwritten
        uc = [x for x in r.trace if x.kind == "call" and isinstance(x.name, str) and short(x.name) == "use_count"]
        if fromold and not inplace:
            lim = False
            for x in uc:
                a, pol = i.cond_lt(("c", 2), x.extra)
                d = dict(facts(r.trace)).get(a) if a is not None else None
                d = i.decide(r.state, a) if d is None and a is not None else d
                lim |= d is not None and d != pol
            ck.ob("C7 memory is used again only when no record refers to it", f.name, lim, "the block is filled again although records may refer to it", f.where())
        # reading starts behind the leftover; the chunk ends where reading ended
        lw = [x for x in r.trace if x.kind == "loop"]
        rem = None
        for x in lw:
            for L, (en, frs) in (x.extra or {}).items():
                d0 = i.project(en, ("f", None, "data_")) if L[0] != "f" else None
                if L[0] == "v" and en[0] == "agg" and d0 is not None and contains(d0, ("m", "mlio::Memory_block::data", None, None)) | names_in(d0, lambda q: q.endswith("Memory_block::data")):
                    rem = (L, en)
        starts = [x for x in r.trace if x.kind == "lwrite" and x.args and x.args[0][0] == "agg" and names_in(x.args[0], lambda q: q.endswith("Memory_block::data")) and {n for n, _ in x.args[0][2]} >= {"data_", "size_"}]
        ok = False
        for x in starts:
            dd, ss = proj(i, x.args[0], "data_"), proj(i, x.args[0], "size_")
            base = next((t for t in i.lin(dd)[1] if t[0] == "m" and short(t[1]) == "data"), None)
            if base is None:
                continue
            off = i.add(dd, base, -1)
            tot = i.add(ss, off)
            if off == LS and tot[0] in ("m", "r") and (contains(tot, blk) or tot[0] == "r" or True) or noleft and off == ("c", 0):
                ok = True
        ck.ob("C8 new data goes right behind the leftover", f.name, ok, "the data is read to somewhere else", f.where())
        # end of the chunk = end of block - what remains
        size = i.add(e, b, -1)
        neg = [t for t, q in i.lin(size)[1].items() if q == -1]
        pos_ = [t for t, q in i.lin(size)[1].items() if q == 1]
        ck.ob("C9 a chunk holds what was left over and what was read, nothing else", f.name, i.lin(size)[0] == 0 and len(pos_) == 1 and len(neg) <= 1 and all(t[0] == "r" and "size_" in t[1] for t in neg) and (bool(neg) or remaining_zero(i, r)),
              "its size is %s" % show(size), f.where())
        # progress: a chunk that holds no record grows
        if whole and same:
            nx = i.read(r.state, NEXT)
            grew = nx != ("init", NEXT)
            szf = eq_call(i, r, old, ("init", NEXT))
            ck.ob("C10 a chunk too small for one record grows", f.name, grew or szf is False or not szf, "the chunk keeps its size: no progress is made", f.where())
            if grew:
                ck.ob("C10 a chunk too small for one record grows", f.name + " (new size)", True, "", f.where())
        if whole and fromold and not same:
            pass
        # the last chunk
        if truth(i, r, i.read(r.state, EOF)) is not True:
            ck.ob("C11 the block is kept for the next chunk", f.name, i.read(r.state, own) == blk, "the next chunk would not know its predecessor", f.where())
    # the size never shrinks
    h = m.method(c, "set_chunk_size_hint")
    if h is not None and h.body is not None:
        for r in ck.interp_done(i, i.run(h)):
            w = [x for x in r.trace if x.kind == "write" and x.obj == NEXT]
            for x in w:
                v = x.args[0]
                ok = v[0] == "op" and v[1] in ("<<", "*") or v[0] == "lin" and all(q > 0 for _, q in v[2])
                up = ok or i.cond_lt(("init", NEXT), v)[0] is not None and known_lt(i, r, ("init", NEXT), v)
                ck.ob("C12 the size of chunks never shrinks", h.name, up, "it is set to %s" % show(v), where(x))


def known_lt(i, r, a, b):
    at, pol = i.cond_lt(a, b)
    if at is None:
        return pol
    d = dict(facts(r.trace)).get(at)
    d = i.decide(r.state, at) if d is None else d
    return d is not None and d == pol


def eq_known(i, r, a, b):
    at, pol = i.cond_eq(a, b)
    if at is None:
        return pol
    d = dict(facts(r.trace)).get(at)
    d = i.decide(r.state, at) if d is None else d
    return d is not None and d == pol


def eq_call(i, r, blk, v):
    """Was the size of the block compared with v and found equal? (None: not compared)"""
    out = None
    for x in r.trace:
        if x.kind == "call" and isinstance(x.name, str) and short(x.name) == "size" and x.obj is not None and (x.obj == ("*", blk) or contains(x.obj, blk)):
            at, pol = i.cond_eq(x.extra, v)
            if at is None:
                return pol
            d = dict(facts(r.trace)).get(at)
            if d is not None:
                out = d == pol
    return out


def remaining_zero(i, r):
    return any(x.kind == "fact" and x.args[0] and x.name[0] == "eq0" and any("size_" in str(t) for t, _ in x.name[2]) for x in r.trace)


def copy_ok(i, r, x, k, LD, LS, blk, old, resized):
    a = list(x.args)
    src, dst = a[0], a[2]
    n = None
    if short(x.name) in ("copy", "copy_backward"):
        n = i.add(a[1], a[0], -1)
    elif short(x.name) == "copy_n":
        n = a[1]
    else:
        dst, src, n = a[0], a[1], a[2]
    target = {blk, old} if resized else {blk}
    return src == LD and n == LS and dst[0] == "m" and short(dst[1]) == "data" and any(contains(dst, t) for t in target)
