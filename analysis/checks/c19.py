"""CSV fields are taken apart as RFC 4180 says, and handed out whole and once.

The scanner of fields is turned into an automaton (analysis/automaton.py) and compared with the specification of a field over all texts at
once, what it appends to the field included; around it, the paths that start a text, report its end and cut long fields."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type
from automaton import Automaton, compare, END

ASSUMPTIONS = ["The delimiter, the quote character and the line-end characters differ from each other.",
               "A field is scanned within one record; where records end is the subject of C20."]
TRUE, FALSE = ("c", True), ("c", False)


class Field:
    start = "new"

    @staticmethod
    def step(s, c):
        if c == END:
            return ("done", "error" if s == "quoted" else "last", [])
        if s != "quoted" and c == "delim":
            return ("done", "field", [])
        if s == "new":
            return ("quoted", []) if c == "quote" else ("field", ["push"])
        if s == "field":
            return ("field", ["push"])
        if s == "quoted":
            return ("quote", []) if c == "quote" else ("quoted", ["push"])
        return ("quoted", ["push"]) if c == "quote" else ("field", ["push"])


def classes(m):
    out = []
    for c in m.classes:
        fs = [x for _, x in m.fields(c)]
        n = m.method(c, "next")
        if n is None or n.body is None or n.cls != c:
            continue
        if sum(strip_type(x["t"]) == "char" for x in fs) >= 2 and any("span" in x["t"] or "Memory_slice" in x["t"] for x in fs):
            out.append(c)
    return out


def returned(ck, m, c, name):
    f = m.method(c, name)
    ck.need([f] if f is not None and f.body is not None else [], "the result '%s' of the scanner of fields" % name)
    i = Interp(m, this_cls=c, peel=0)
    for r in i.run(f):
        v = r.value
        if v[0] == "init" and v[1][0] == "f":
            return v[1]
        if v[0] in ("ref", "addr"):
            return v[1]
        if v[0] == "f":
            return v
    return None


def run(ck):
    m = ck.model("core")
    cs = classes(m)
    ck.need(cs, "the scanner of CSV fields")
    for c in cs:
        scan(ck, m, c)


def setting(t):
    if t[0] == "init" and t[1][0] == "f" and isinstance(t[1][2], str):
        n = t[1][2]
        return "delim" if "delim" in n else "quote" if "quote" in n else None
    return None


def scan(ck, m, c):
    f = m.method(c, "next")
    T = this_field
    fs = [x for _, x in m.fields(c)]
    text = T(next(x["n"] for x in fs if "span" in x["t"] and "iterator" not in x["t"]))
    TRUNC, EOF, VALUE = returned(ck, m, c, "truncated"), returned(ck, m, c, "eof"), T(next(x["n"] for x in fs if "string" in x["t"] and "view" not in x["t"]))
    ck.need([x for x in (TRUNC, EOF) if x is not None], "the flags of the scanner of fields")
    settings(ck, m, c, f)
    i = Interp(m, this_cls=c, peel=0, cuts=True)
    rs = ck.interp_done(i, i.run(f))
    end = i.add(("init", ("f", text, "data_")), ("init", ("f", text, "size_")))
    pos = next((T(x["n"]) for x in fs if "iterator" in x["t"] or x["t"].replace(" ", "") == "constchar*"), None)
    ck.need([pos] if pos else [], "the position of the scanner of fields")
    # where the text is known to be over: a flag of the scanner other than the one that reports it
    flags = [T(x["n"]) for x in fs if strip_type(x["t"]) == "bool" and T(x["n"]) not in (TRUNC, EOF)]
    A = Automaton(i, rs, ("init", pos), end, setting)
    ck.need([e for es in A.edges.values() for e in es] if A.pos != ("none",) else [], "the states of the scanner of fields")

    limit = lambda a: names_in(a, lambda x: "max" in x)

    def outputs(e):
        out = []
        for x in e.events:
            if x.kind == "call" and isinstance(x.name, str) and short(x.name) in ("push_back", "append", "operator+=") and x.obj is not None and x.obj == VALUE:
                ch = x.args[-1]
                out.append((A.offset(e, ch) if isinstance(ch, tuple) else None, "push"))
            if x.kind == "write" and x.obj == TRUNC and x.args[0] == TRUE:
                k = [k for k in (A.offset(e, t) for t in loads(e)) if k is not None and k >= 0]
                out.append((max(k) if k else 0, "push"))
        return out

    def done_before(r):
        return any(t and a == ("has", ("init", g)) for a, t in facts(r.trace) for g in flags + [EOF])

    def judge(e, d, s, asg):
        r = e.result
        if done_before(r):
            return None
        if d is None:
            return "it returns before the field has ended"
        kind, k = d
        if r.outcome == "throw":
            return None if kind == "error" else "it fails although the field is complete"
        if kind == "error":
            return "a field whose quote is not closed is returned"
        if truth(i, r, r.value) is not True:
            return "a field is not reported"
        last = any(truth(i, r, i.read(r.state, g)) is True for g in flags)
        at = i.add(i.add(i.read(r.state, pos), e.S, -1), ("c", k), -1)
        if kind == "field" and at != ("c", 1):
            return "the next field is not looked for right behind the delimiter"
        if flags and last != (kind == "last"):
            return "the last field of the record is not known as such" if kind == "last" else "the record is over before its last field"
        return None

    mm, st = compare(A, ["delim", "quote"], Field, outputs, judge)
    ck.notes.append("%s: automaton with %d states, %d edges; product with the specification: %d states, %d edges" % (f.name, len(A.edges), sum(len(x) for x in A.edges.values()), st["configs"], st["edges"]))
    seen = set()
    ck.ob("F1 fields are those of RFC 4180", f.name, not mm, "" if not mm else "%s (after %s)" % (mm[0].what, mm[0].word or "the beginning"), f.where())
    for x in mm[1:]:
        if x.what not in seen:
            seen.add(x.what)
            ck.ob("F1 fields are those of RFC 4180", f.name + " (" + x.what[:40] + ")", False, "%s (after %s)" % (x.what, x.word or "the beginning"), f.where())
    # every character within the limit is kept
    for r in rs:
        has = eq = None
        for x in r.trace:
            if x.kind == "fact" and limit(x.name):
                if x.name[0] == "has":
                    has = x.args[0]
                else:
                    eq = reached(i, (x.name, x.args[0]))
            elif x.kind == "write" and x.obj == TRUNC and x.args[0] == TRUE:
                ck.ob("F2 a field is cut only at the limit", f.name, has is True and eq is True, "a field is cut although it is not as long as the limit", where(x))
            elif x.kind == "call" and isinstance(x.name, str) and x.obj == VALUE and short(x.name) in ("push_back", "append", "operator+="):
                ck.ob("F3 a field does not grow beyond the limit", f.name, has is False or eq is False, "a character is appended without comparing the length with the limit", where(x))
                eq = None
            elif x.kind == "call" and isinstance(x.name, str) and x.obj == VALUE and short(x.name) == "clear":
                eq = None
    # the end of a record
    i2 = Interp(m, this_cls=c, peel=0, cuts=True)
    over = 0
    for r in ck.interp_done(i2, i2.run(f)):
        k0 = next((k for k, e in enumerate(r.trace) if e.kind == "cut"), len(r.trace))
        if r.outcome == "return" and truth(i2, r, r.value) is False:
            over += 1
            ck.ob("F4 after the last field the end is reported", f.name, truth(i2, r, i2.read(r.state, EOF)) is True, "no field is returned but the end is not reported", f.where())
            ck.ob("F4 after the last field the end is reported", f.name + " (only then)", done_before(r), "no field is returned although fields remain", f.where())
        elif r.outcome == "return":
            ck.ob("F5 a field starts empty", f.name, cleared(i2, r, VALUE, TRUNC), "the field still holds what was read before", f.where())
            v = i2.read(r.state, EOF)
            ck.ob("F4 after the last field the end is reported", f.name + " (not before)", v in (FALSE, ("init", EOF)), "the end is reported with a field", f.where())
    ck.ob("F4 after the last field the end is reported", f.name + " (paths)", over > 0, "the end of a record is never reported", f.where())
    starts(ck, m, c, f, text, pos, flags, EOF)


def truth(i, r, v):
    if v in (TRUE, FALSE):
        return v == TRUE
    if v[0] == "cond":
        d = i.decide(r.state, v[1])
        return None if d is None else d == v[2]
    d = dict(facts(r.trace)).get(("has", v))
    return i.decide(r.state, ("has", v)) if d is None else d


def loads(e):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "*":
                out.append(t)
            for x in t:
                go(x)
    for x in e.events:
        for a in x.args:
            go(a)
        if x.kind == "fact":
            go(x.name)
    return out


def reached(i, fact):
    """Does the fact say that the size has reached the limit (True), has not (False), or something else (None)?"""
    a, t = fact
    mx = lambda x: names_in(x, lambda s: "max" in s)
    if a[0] == "eq":
        return t
    if a[0] == "lt":
        return (not t) if mx(a[2]) else None
    if a[0] in ("eq0", "pos") and len(a[2]) == 2 and sorted(q for _, q in a[2]) == [-1, 1]:
        k = a[1]
        q = next((q for x, q in a[2] if mx(x)), 0)
        if a[0] == "eq0":
            return t if k == 0 else None
        if q == 1:      # k + max - size > 0
            return (False if t else True) if k == 0 else None
        if q == -1:     # k + size - max > 0
            return (True if t else False) if k == 1 else None
    return None


def cleared(i, r, VALUE, TRUNC):
    """the value is emptied, and not marked as cut, before anything is appended to it"""
    val = tr = False
    for e in r.trace:
        if e.kind == "cut":
            break
        if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "clear" and e.obj == VALUE:
            val = True
        if e.kind == "write" and e.obj == VALUE:
            val = True
        if e.kind == "write" and e.obj == TRUNC and e.args[0] == FALSE:
            tr = True
        if e.kind == "call" and isinstance(e.name, str) and short(e.name) == "push_back" and e.obj == VALUE:
            break
    return val and tr


def settings(ck, m, c, f):
    """The delimiter, the quote and the limit are those of the parameters."""
    for g in [x for x in m.methods(c) if x.is_ctor and x.body is not None and x.params and not x.flag("deleted")]:
        if not any("Csv_params" in p["t"] for p in g.params):
            continue
        i = Interp(m, this_cls=c, peel=0)
        for r in ck.interp_done(i, i.run(g)):
            if r.outcome != "return":
                continue
            for _, x in m.fields(c):
                for key in ("delim", "quote", "max_field"):
                    if key in x["n"]:
                        v = i.read(r.state, this_field(x["n"]))
                        ck.ob("F6 the delimiter, quote and limit are those that were asked for", "%s (%s)" % (g.name, x["n"]), names_in(v, lambda s: key in s) and names_in(v, lambda s: s.startswith("arg")), "it is %s" % show(v), g.where())


def starts(ck, m, c, f, text, pos, flags, EOF):
    """A new text is scanned from its beginning."""
    gs = [g for g in m.methods(c) if g.body is not None and not g.flag("deleted") and any("span" in p["t"] or "slice" in p["t"] for p in g.params)]
    ck.need(gs, "functions that give the scanner a text")
    for g in gs:
        i = Interp(m, this_cls=c, peel=0)
        k = next(n for n, p in enumerate(g.params) if "span" in p["t"] or "slice" in p["t"])
        for r in ck.interp_done(i, i.run(g)):
            if r.outcome != "return":
                continue
            d, n = i.read(r.state, ("f", text, "data_")), i.read(r.state, ("f", text, "size_"))
            p = i.read(r.state, pos)
            ck.ob("F7 a text is scanned from its beginning", g.name, p == d or i.add(p, d, -1) == ("c", 0), "the scan starts at %s" % show(p), g.where())
            ck.ob("F7 a text is scanned from its beginning", g.name + " (text)", d[0] == "null" or contains(d, ("obj", "arg%d" % k)) and contains(n, ("obj", "arg%d" % k)), "the text is %s" % show(d), g.where())
            for q in flags + [EOF]:
                ck.ob("F8 a new text is not over before it was scanned", "%s (%s)" % (g.name, q[2]), i.read(r.state, q) == FALSE or i.read(r.state, q)[0] == "zero", "it is %s" % show(i.read(r.state, q)), g.where())
