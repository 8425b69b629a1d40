"""Text becomes exactly the number it denotes, or is refused.

Every parser make_parser() hands out is followed over one field, with everything it calls up to the number parsing functions of the libraries
(std::from_chars, absl::SimpleAtof and SimpleAtod), and so are the public functions; each path is compared with what it found out about the
text: what is said to be parsed was parsed as a whole, in the type of the column, in the base asked for, and stored where asked; what is
refused leaves the destination alone and was refused for the reason given. The type inferred for a text is compared with what the parsers
said about it."""
from absint import Interp, show
from checks.c23 import enums
from model import walk, unwrap, calls
from util import *

ASSUMPTIONS = ["std::from_chars, absl::SimpleAtof and absl::SimpleAtod parse as documented, mlio::trim removes exactly the white space around a text",
               "how a Data_type selects an element type of the destination is decided by C17"]
INTS = {"int8": "signed char", "int16": "short", "int32": "int", "int64": "long", "uint8": "unsigned char", "uint16": "unsigned short",
        "uint32": "unsigned int", "uint64": "unsigned long", "size": "unsigned long"}
FLOATS = {"float32": ("float", "absl::SimpleAtof"), "float64": ("double", "absl::SimpleAtod")}
BITS = {"signed char": (8, True), "short": (16, True), "int": (32, True), "long": (64, True), "long long": (64, True), "unsigned char": (8, False),
        "unsigned short": (16, False), "unsigned int": (32, False), "unsigned long": (64, False), "unsigned long long": (64, False)}
OK, FAILED, OVER = "ok", "failed", "overflowed"
INVALID, RANGE = 22, 34


def run(ck):
    m = ck.model("core")
    P = {v: k for k, v in enums(m, "mlio::Parse_result").items()}
    D = {v: k for k, v in enums(m, "mlio::Data_type").items()}
    ck.need(set(P.values()) == {OK, FAILED, OVER}, "the results of a parse")
    parsers(ck, m, P, D)
    public(ck, m, P)
    infer(ck, m, P, D)


def result_of(r, P):
    v = r.value
    if isinstance(v, tuple) and v[0] == "enum":
        return P.get(v[2]) or str(v[1]).rsplit("::", 1)[-1]
    if isinstance(v, tuple) and v[0] == "c":
        return P.get(v[1])
    return None


def lib(fn, call):
    return fn.short == "trim"


def parsers(ck, m, P, D):
    fs = [f for f in m.by_name.get("mlio::make_parser") or () if f.body is not None]
    ck.need(fs, "make_parser")
    f = fs[0]
    ck.saw(f)
    i = Interp(m, peel=0, opaque=lambda fn, call: fn.short.startswith("try_parse"))
    seen = set()
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        v = r.value
        while isinstance(v, tuple) and v[0] == "new" and len(v) > 3:
            v = v[3]
        if not (isinstance(v, tuple) and v[0] == "lambda"):
            continue
        dt = [D.get(k) for k in D if i.decide(r.state, ("eq0", -k, ((("init", ("obj", "arg0")), 1),))) is True]
        if len(dt) != 1:
            # the last one is what is left
            left = [D[k] for k in D if i.decide(r.state, ("eq0", -k, ((("init", ("obj", "arg0")), 1),))) is not False]
            dt = left if len(left) == 1 else []
        if not dt:
            continue
        seen.add(dt[0])
        node = v[3].node
        li = Interp(m, peel=0, opaque=lib)
        rs = ck.interp_done(li, li.run_lambda(node, f))
        opt = captures(node)
        J = Judge(ck, m, P, li, rs, f, "a %s field" % dt[0], ("obj", "arg0"), slot, opt)
        if dt[0] in INTS:
            J.integer(INTS[dt[0]])
        elif dt[0] in FLOATS:
            J.floating(*FLOATS[dt[0]])
        elif dt[0] == "string":
            J.string()
        else:
            J.none()
    for k in D.values():
        ck.ob("C36.parser", k, k in seen, "make_parser() has no parser for %s" % k, f.where(0))


def slot(L):
    """The element of the array at the index asked for."""
    return isinstance(L, tuple) and L[0] == "e" and len(L) > 2 and L[2] == ("init", ("obj", "arg2"))


def captures(node):
    """Terms that stand for the parser options or a part of them: name of capture -> field it holds (None: all of it)."""
    out = {}
    for c in node.get("caps", ()):
        fields = [x["f"] for x in walk(c.get("init")) if x.get("k") == "mem" and x.get("f") in ("base", "nan_values")]
        out["cap:" + str(c.get("n"))] = fields[0] if fields else None
    return out


def public(ck, m, P):
    for nm_, kind in (("mlio::try_parse_int", "int"), ("mlio::try_parse_float", "float"), ("mlio::try_parse_size_t", "int")):
        for f in m.by_name.get(nm_) or ():
            if f.body is None or len(f.params) < 2:
                continue
            t = str(f.params[1]["t"]).replace("&", "").strip()
            ck.saw(f)
            i = Interp(m, peel=0, opaque=lib)
            rs = ck.interp_done(i, i.run(f))
            J = Judge(ck, m, P, i, rs, f, "%s(%s)" % (short(nm_), t), ("obj", "arg0"), lambda L: L == ("obj", "arg1"), {"arg2": None})
            if kind == "int" and t in BITS:
                J.integer(t)
            elif t in ("float", "double"):
                J.floating(t, {"float": "absl::SimpleAtof", "double": "absl::SimpleAtod"}[t])


class Judge:
    def __init__(self, ck, m, P, i, rs, f, what, text, target, opts):
        self.ck, self.m, self.P, self.i, self.rs, self.f = ck, m, P, i, rs, f
        self.what, self.text, self.target, self.opts = what, text, target, opts

    def ob(self, rule, ok, msg, ev=None):
        self.ck.ob("C36." + rule, self.what, bool(ok), "%s: %s" % (self.what, msg), where(ev) if ev is not None else self.f.where(0))

    def option(self, v, field):
        """Is v what the options say?"""
        def ofs(t):
            if t[:1] == ("f",) and len(t) == 3 and t[2] == field:
                return any(mentions(t, lambda x, n=n: x == ("obj", n)) for n, fl in self.opts.items() if fl in (None, field))
            return t[:1] == ("obj",) and len(t) == 2 and self.opts.get(t[1]) == field
        return isinstance(v, tuple) and (mentions(v, ofs))

    def split(self, r):
        self.ws = [e for e in r.trace if e.kind == "write" and self.target(e.obj)]
        return result_of(r, self.P)

    def quiet(self):
        """The writes of what is only taken back later do not count: none are expected."""
        return not self.ws

    # -- integers
    def integer(self, T):
        plus = False
        n = 0
        for r in self.rs:
            res = self.split(r)
            if r.outcome == "throw":
                self.ob("no-throw", False, "an exception leaves the parser")
                continue
            if res is None:
                self.ob("result", False, "what is returned does not follow from what the text is: %s" % show(r.value)[:80])
                continue
            p = None
            for e in r.trace:
                if e.kind == "call" and str(e.name).endswith("from_chars"):
                    p = e
            if p is None:
                ok = res == FAILED and self.quiet() and self.unparsable(r)
                self.ob("refused-unread", ok, "the text is said to be %s although it was not parsed and nothing is wrong with it or its base" % res)
                continue
            n += 1
            d = lambda a: self.i.decide(r.state, a)
            base = p.args[3] if len(p.args) > 3 else ("c", 10)
            self.ob("base", self.option(base, "base") or (base == ("c", 10) and self.default_base()), "the number is parsed in base %s, not in the one asked for" % show(base), p)
            if base[0] != "c":
                lo, hi = self.bound(r, base, 2, True), self.bound(r, base, 36, False)
                self.ob("base-valid", lo and hi, "std::from_chars() may be called with a base it does not support", p)
            whole, stripped, why = self.whole(r, p)
            plus = plus or stripped
            self.ob("whole-text", whole, why, p)
            rv = p.extra
            inval, rng, none = (next((v for v in (d(("eq0", -c, ((("fld", rv, n), 1),))) for n in ("ec", "#1")) if v is not None), None)
                                for c in (INVALID, RANGE, 0))
            good = none is True or inval is False and rng is False
            end = self.at_end(r, p, rv)
            t = self.ctype(p)
            if res == OK:
                self.ob("parsed", good and end is True, "the text is said to be a number although %s" % ("the parser refused it" if not good else
                                                                                                     "something is left behind the number"), p)
                out = ("r", "out:" + str(p.name))
                val = self.ws[-1].args[0] if self.ws else None
                same = isinstance(val, tuple) and mentions(val, lambda x: x[:2] == out) and len(self.ws) == 1
                self.ob("stored", same, "the number stored is not the one parsed: %s" % (show(val)[:60] if val else "nothing is stored"), p)
                if t != T and same:
                    self.ob("range", self.fits(r, val, t, T), "a %s is stored as %s without knowing that it fits" % (t, T), p)
                else:
                    self.ob("range", t == T, "a %s is parsed as %s" % (T, t), p)
            else:
                self.ob("refused-untouched", self.quiet(), "the destination is changed although the text is refused", p)
                if res == FAILED:
                    self.ob("refused-reason", inval is True or end is False or self.unparsable(r) or (none is False and rng is False), "a text that is a number is refused", p)
                else:
                    wide = good and end is True and (t != T or self.beyond(r, p, T))
                    self.ob("overflow-reason", (rng is True and end is True) or wide, "a text is said to be out of range although %s" % (
                        "it is not a number" if rng is True else "it is in range or not a number"), p)
        self.ob("parses", n, "the text is never parsed")
        self.ob("plus", plus, "a number with a plus sign is refused")

    def default_base(self):
        return len(self.f.params) < 3 and self.f.short != "make_parser"

    def ctype(self, p):
        a = (p.node.get("args") or [None, None, {}])
        return str((a[2] or {}).get("t", "")).replace("const ", "").replace("&", "").strip() if len(a) > 2 else ""

    def bound(self, r, v, k, low):
        a = ("pos", -(k - 1), ((v, 1),)) if low else ("pos", -k, ((v, 1),))
        return self.i.decide(r.state, a) is low

    def fits(self, r, val, t, T):
        bits, signed = BITS.get(T, (64, True))
        hi = 2 ** (bits - 1) - 1 if signed else 2 ** bits - 1
        lo = -(2 ** (bits - 1)) if signed else 0
        c, items = self.i.lin(val) or (0, {})
        if len(items) != 1:
            return False
        v = next(iter(items))
        up = self.i.decide(r.state, ("pos", -hi, ((v, 1),))) is False
        down = self.i.decide(r.state, ("pos", lo, ((v, -1),))) is False
        return up and (down or not BITS.get(t, (0, True))[1])

    def beyond(self, r, p, T):
        """Is the number parsed known to be outside of the type?"""
        bits, signed = BITS.get(T, (64, True))
        hi = 2 ** (bits - 1) - 1 if signed else 2 ** bits - 1
        lo = -(2 ** (bits - 1)) if signed else 0
        for a, truth in facts(r.trace):
            if a[0] == "pos" and len(a[2]) == 1 and a[2][0][0][:2] == ("r", "out:" + str(p.name)):
                v = a[2][0][0]
                if self.i.decide(r.state, ("pos", -hi, ((v, 1),))) is True or self.i.decide(r.state, ("pos", lo, ((v, -1),))) is True:
                    return True
        return False

    def unparsable(self, r):
        """Was something found wrong that no number has: no text, or a base there is not?"""
        for e in facts(r.trace):
            a, truth = e
            if a[0] == "pos" and len(a[2]) == 1 and self.option(a[2][0][0], "base"):
                v, k = a[2][0]
                lo = self.i.decide(r.state, ("pos", -1, ((v, 1),)))
                hi = self.i.decide(r.state, ("pos", -36, ((v, 1),)))
                if lo is False or hi is True:
                    return True
            if truth and a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1 and mentions(a[2][0][0], lambda x: x[:1] == ("m",) and len(x) > 1 and str(x[1]).endswith("::size")):
                return True
            if truth and a[0] == "eq0" and a[1] == -45 and len(a[2]) == 1 and a[2][0][0][0] == "elt":
                return True         # a minus behind a plus
            if truth and a[0] == "eq0" and a[1] == -43 and len(a[2]) == 1 and a[2][0][0][0] == "elt" and contains(a[2][0][0], ("c", 1)):
                return True
        return False

    def origin(self, v):
        return [e for e in v if e]

    def whole(self, r, p):
        """(is it the whole trimmed text, was a plus sign taken off, why not)"""
        beg, end = p.args[0], p.args[1]
        size = None
        src = None
        def find(x):
            nonlocal src
            if x[:1] == ("m",) and len(x) > 2 and str(x[1]).endswith(("::data", "::begin", "::cbegin")):
                src = x[2]
            return False
        mentions(beg, find)
        if src is None:
            return False, False, "the text that is parsed is not the field"
        cb, ib = self.i.lin(beg) or (None, {})
        d = self.i.add(end, beg, -1)
        li = self.i.lin(d)
        sized = li is not None and li[0] == -(cb or 0) * 0 - (cb or 0) and len(li[1]) == 1 and str(next(iter(li[1]))[1]).endswith("::size")
        skip = cb or 0
        stripped = False
        cur = src
        for e in reversed(r.trace):
            if e.kind == "call" and str(e.name).endswith("remove_prefix") and isinstance(cur, tuple) and cur[:2] == ("mut", "remove_prefix"):
                skip += e.args[0][1] if e.args[0][0] == "c" else 99
                cur = None
        if isinstance(cur, tuple) and cur[0] == "m" and str(cur[1]).endswith("::substr"):
            a = cur[3] if len(cur) > 3 else ()
            skip += a[0][1] if a and a[0][0] == "c" else 99
            cur = cur[2]
        trims = [e for e in r.trace if e.kind == "call" and str(e.name) == "mlio::trim"]
        if not trims or not mentions(trims[-1].args[0], lambda x: x == self.text):
            return False, False, "white space around the number is not taken off"
        if cur is not None and cur != trims[-1].extra:
            return False, False, "what is parsed is not the trimmed text"
        if not sized and not self.ends(end, src):
            return False, False, "what is parsed does not reach to the end of the text"
        if skip == 1:
            first = self.char(r, trims[-1].extra, 0, 43)
            second = self.char(r, trims[-1].extra, 1, 45)
            if first is not True:
                return False, False, "the first character is left out although it is not known to be a plus sign"
            if second is not False and BITS.get(self.ctype(p), (0, True))[1]:
                return False, False, "a plus sign followed by a minus sign is taken for a minus sign"
            stripped = True
        elif skip:
            return False, False, "more than a plus sign is left out"
        return True, stripped, ""

    def ends(self, end, src):
        return mentions(end, lambda x: x[:1] == ("m",) and len(x) > 2 and str(x[1]).endswith(("::size", "::end", "::cend", "::length")) and x[2] == src)

    def char(self, r, text, k, c):
        for e in facts(r.trace):
            a, truth = e
            if a[0] == "eq0" and a[1] == -c and len(a[2]) == 1:
                v = a[2][0][0]
                if mentions(v, lambda x: x == text) and (v[0] == "elt" and (v[2] == ("c", k) or k == 0 and v[2] == ("s", "front")) or k == 0 and v[0] in ("m", "r") and str(v[1]).endswith("::front")):
                    return bool(truth)
        if k == 1:      # a text of one character has no second one
            for e in facts(r.trace):
                a, truth = e
                if a[0] == "pos" and a[1] == -1 and truth is False and mentions(a, lambda x: x == text):
                    return False
        return None

    def at_end(self, r, p, rv):
        for e in facts(r.trace):
            a, truth = e
            ptr = next((q for q in (("fld", rv, "ptr"), ("fld", rv, "#0")) if mentions(a, lambda x: x == q)), None)
            if ptr is not None:
                d = self.i.add(ptr, p.args[1], -1)
                li = self.i.lin(d)
                if a[0] == "eq0":
                    mine = dict(a[2])
                    want = li[1] if li else None
                    if want is not None and (mine == want and a[1] == li[0] or mine == {k: -v for k, v in want.items()} and a[1] == -li[0]):
                        return bool(truth)
                if a[0] == "eq" and p.args[1] in a[1:] and ptr in a[1:]:
                    return bool(truth)
        return None

    # -- floating point
    def floating(self, T, fn):
        n = 0
        for r in self.rs:
            res = self.split(r)
            if r.outcome == "throw":
                continue        # the copy of the text may not fit in memory
            if res is None:
                self.ob("result", False, "what is returned does not follow from what the text is: %s" % show(r.value)[:80])
                continue
            ps = [e for e in r.trace if e.kind == "call" and str(e.name) in ("absl::SimpleAtof", "absl::SimpleAtod")]
            if not ps:
                self.ob("refused-unread", res == FAILED and self.quiet() and self.unparsable(r) or self.is_nan(r, res),
                        "the text is said to be %s although it was not parsed" % res)
                continue
            n += 1
            p = ps[-1]
            self.ob("float-type", str(p.name) == fn, "a %s is parsed by %s" % (T, p.name), p)
            self.ob("whole-text", mentions(p.args[0], lambda x: x == self.text) and not mentions(p.args[0], lambda x: x[:1] == ("mut",) or "substr" in str(x[1:2])),
                    "what is parsed is not the field", p)
            good = self.i.decide(r.state, ("has", p.extra))
            inf = self.infinite(r)
            out = ("r", "out:" + str(p.name))
            if res == OK and good is True:
                self.ob("finite", inf is False, "an infinite value is accepted although the number is out of range", p)
                val = self.ws[-1].args[0] if len(self.ws) == 1 else None
                self.ob("stored", isinstance(val, tuple) and val[:2] == out, "the number stored is not the one parsed: %s" % (show(val)[:60] if val else "nothing, or several things"), p)
            elif res == OK:
                self.ob("nan", good is False and self.is_nan(r, res), "a text that is neither a number nor one of the NaN values is accepted", p)
            elif res == FAILED:
                self.ob("refused-untouched", self.quiet(), "the destination is changed although the text is refused", p)
                self.ob("refused-reason", good is False and self.not_nan(r), "a text that is a number or one of the NaN values is refused", p)
            else:
                self.ob("refused-untouched", self.quiet(), "the destination is changed although the text is refused", p)
                self.ob("overflow-reason", good is True and inf is True, "a text is said to be out of range although it is not", p)
        self.ob("parses", n, "the text is never parsed")

    def infinite(self, r):
        res = None
        for e in facts(r.trace):
            a, truth = e
            if a[0] == "has" and isinstance(a[1], tuple) and a[1][0] in ("r", "m"):
                s = str(a[1][1]).rsplit("::", 1)[-1]
                ev = [q for q in r.trace if q.kind == "call" and q.extra == a[1]]
                if s in ("isinf", "isfinite") and not (ev and ev[-1].args and mentions(ev[-1].args[0], lambda x: x[:1] == ("r",) and str(x[1]).startswith("out:absl::SimpleAto"))):
                    continue
                if s == "isinf":
                    res = bool(truth)
                elif s == "isfinite" and truth:
                    res = False
                elif s == "isfinite" and res is None:
                    res = True
        return res

    def lookup(self, r):
        """Was the text found among the NaN values? None: not looked up."""
        for e in facts(r.trace):
            a, truth = e
            fs = []
            mentions(a, lambda x: fs.append(x) and False if x[:1] in (("m",), ("r",)) and str(x[1]).rsplit("::", 1)[-1] in ("find", "count", "contains") else False)
            for x in fs:
                ev = [q for q in r.trace if q.kind == "call" and (q.extra == x or x[0] == "m" and str(q.name) == x[1])]
                if ev and self.nan_set(ev[-1].obj, r) and self.nan_key(ev[-1], r):
                    if a[0] in ("eq", "eq0") and str(x[1]).endswith("find"):
                        return not truth
                    if str(x[1]).endswith(("count", "contains")):
                        return bool(truth) if a[0] in ("has", "pos") else not truth
        return None

    def nan_set(self, L, r):
        return isinstance(L, tuple) and (self.option(L, "nan_values") or mentions(L, lambda x: x == "nan_values" or x[:1] == ("f",) and len(x) > 2 and x[2] == "nan_values")) \
            or isinstance(L, tuple) and any(self.option(v, "nan_values") for v in r.state.store.values() if isinstance(v, tuple) and contains(L, v))

    def nan_key(self, ev, r):
        trims = [e for e in r.trace if e.kind == "call" and str(e.name) == "mlio::trim" and mentions(e.args[0], lambda x: x == self.text)]
        return bool(ev.args) and any(mentions(ev.args[0], lambda x, t=t: x == t.extra) for t in trims)

    def is_nan(self, r, res):
        val = self.ws[-1].args[0] if len(self.ws) == 1 else None
        return res == OK and self.lookup(r) is True and isinstance(val, tuple) and mentions(val, lambda x: x[:1] in (("r",), ("m",)) and str(x[1]).endswith(("quiet_NaN", "nan", "nanf")))

    def not_nan(self, r):
        if self.lookup(r) is False:
            return True
        for e in facts(r.trace):
            a, truth = e
            if a[0] == "has" and not truth and self.option(a[1], "nan_values"):
                return True
            if a[0] == "has" and not truth and isinstance(a[1], tuple) and mentions(a[1], lambda x: x[:1] == ("f",) and len(x) > 2 and x[2] == "nan_values"):
                return True
            if truth and a[0] == "eq0" and mentions(a, lambda x: x[:1] == ("m",) and str(x[1]).endswith("::size") and "set" in str(x[1])):
                return True
        return False

    # -- strings and what cannot be parsed
    def string(self):
        for r in self.rs:
            res = self.split(r)
            if r.outcome == "throw":
                continue
            val = self.ws[-1].args[0] if len(self.ws) == 1 else None
            self.ob("string", res == OK and isinstance(val, tuple) and mentions(val, lambda x: x == self.text) and
                    not mentions(val, lambda x: x[:1] in (("mut",),) or x[:1] in (("m",), ("r",)) and str(x[1]).rsplit("::", 1)[-1] in ("trim", "substr")),
                    "the text stored is not the field")

    def none(self):
        for r in self.rs:
            res = self.split(r)
            self.ob("unsupported", res == FAILED and self.quiet(), "a type that cannot be parsed is not refused")


# -- inference

def infer(ck, m, P, D):
    fs = [f for f in m.by_name.get("mlio::infer_data_type") or () if f.body is not None]
    ck.need(fs, "infer_data_type")
    f = fs[0]
    ck.saw(f)
    i = Interp(m, peel=0, opaque=lambda fn, call: fn.short.startswith("try_parse") or fn.short == "trim")
    code = {v: k for k, v in P.items()}
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        v = r.value
        got = D.get(v[2]) if isinstance(v, tuple) and v[0] == "enum" else None

        def said(ev, what):
            return i.decide(r.state, ("eq0", -code[what], ((ev.extra, 1),)))
        st = {}
        for e in r.trace:
            if e.kind != "call" or not str(e.name).startswith("mlio::try_parse"):
                continue
            t = (e.node.get("ta") or ["?"])[0]
            k = {"long": "int64", "unsigned long": "uint64", "double": "float64"}.get(t, t)
            whole = mentions(e.args[0], lambda x: x == ("obj", "arg0")) and not mentions(e.args[0], lambda x: x[:1] == ("mut",))
            opt = e.args[2] if len(e.args) > 2 else None
            dflt = opt is None or mentions(opt, lambda x: x == ("c", 10)) or mentions(opt, lambda x: x == ("null",))
            ck.ob("C36.infer-text", k, whole and dflt, "the type is inferred from something else than the text, read as parsers read it by default", where(e))
            ok = said(e, OK)
            st[k] = (ok, said(e, OVER), said(e, FAILED))

        def isnt(k):
            if k not in st:
                return k == "uint64" and "int64" in st and (st["int64"][2] is True or st["int64"][1] is False)
            return st[k][0] is False or st[k][1] is True or st[k][2] is True
        empty = any(t and a[0] == "eq0" and mentions(a, lambda x: x[:1] == ("m",) and str(x[1]).endswith("::size")) for a, t in facts(r.trace))
        want = "string" if empty and not st else None
        if want is None:
            if st.get("int64", (None,))[0] is True:
                want = "int64"
            elif isnt("int64") and st.get("uint64", (None,))[0] is True:
                want = "uint64"
            elif isnt("int64") and isnt("uint64") and st.get("float64", (None,))[0] is True:
                want = "float64"
            elif isnt("int64") and isnt("uint64") and isnt("float64"):
                want = "string"
        ck.ob("C36.infer", "infer_data_type", got is not None and got == want, "a text is taken for %s; what the parsers say about it makes it %s" % (got, want or "undecided"), f.where(0))
