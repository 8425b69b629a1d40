"""What the data insights report about a column is what its cells say, whatever the batches.

Column_analyzer::analyze is followed over one column and, separately, over one cell (every path of one iteration of the loop over the
cells, with the column's statistics and the accumulators of the batch in any state); each path is classified by what it found out about the
cell (empty, only whitespace, null-like, a number, NaN, finite) and has to change every statistic as that class asks. What is done with the
accumulators after the loop has to turn the running averages into the averages over everything seen."""
import random
from fractions import Fraction
from util import *
from absint import Interp, show
from model import calls, walk, unwrap, base_name

ASSUMPTIONS = ["std::isnan, std::isinf and std::isfinite, the containers and std::min, std::max behave as the standard says",
               "mlio::is_whitespace_only and mlio::try_parse_float are what tells whitespace and numbers; how they decide is not judged here",
               "arithmetic on doubles is taken as exact"]
CLS = "pymlio::Column_analyzer"
COUNTS = ("rows_seen", "str_empty_count", "str_only_whitespace_count", "str_null_like_count", "numeric_nan_count", "numeric_count",
          "numeric_finite_count", "numeric_int_count")


def run(ck):
    m = ck.model("core", "py", "insights")
    f = m.by_name.get(CLS + "::analyze") or []
    f = [x for x in f if x.body is not None]
    ck.need(f, "Column_analyzer::analyze")
    f = f[0]
    ck.saw(f)
    Analyze(ck, m, f).run()
    dataset(ck, m)
    module(ck, m)
    median(ck, m)
    hll(ck, m)
    nulllike(ck, m)


def insights(fn):
    return "/contrib/insights/" in fn.file


def opaque(fn, call):
    return not insights(fn) or fn.name.startswith("hll::") or fn.short == "match_nan_values" or "xxh" in fn.file


def norm(t, memo):
    """The term with every state a loop may start from written as ('old', name)."""
    if not isinstance(t, tuple):
        return t
    k = id(t)
    r = memo.get(k)
    if r is not None and r[0] is t:
        return r[1]
    if len(t) == 3 and t[0] == "fld" and isinstance(t[1], tuple) and t[1][:1] == ("r",) and str(t[1][1]).startswith("loop:"):
        n = ("old", t[2])
    elif len(t) == 3 and t[0] == "r" and isinstance(t[1], str) and t[1].startswith("loop:"):
        n = ("old", t[1][5:])
    else:
        n = tuple(norm(x, memo) for x in t)
    memo[k] = (t, n)
    return n


def delta(v, name):
    """k when v is the old value of name plus the constant k."""
    o = ("old", name)
    if v == o:
        return 0
    if v[0] == "lin" and tuple(v[2]) == ((o, 1),):
        return v[1]
    return None


def added(v, name):
    """The term x when v is the old value of name plus x."""
    o = ("old", name)
    if v[0] == "op" and v[1] == "+":
        if v[2] == o:
            return v[3]
        if v[3] == o:
            return v[2]
    if v[0] == "lin":
        d = dict(v[2])
        if d.get(o) == 1:
            rest = tuple(x for x in v[2] if x[0] != o)
            if v[1] == 0 and len(rest) == 1 and rest[0][1] == 1:
                return rest[0][0]
            return ("lin", v[1], rest) if rest else ("c", v[1])
    return None


class Path:
    """One iteration over one cell."""

    def __init__(self, an, seg, st, kind):
        self.an, self.kind, self.dead = an, kind, False
        memo = {}
        self.ev = [(e, norm(e.name, memo) if isinstance(e.name, tuple) else e.name,
                    tuple(norm(a, memo) if isinstance(a, tuple) else a for a in (e.args or ())),
                    norm(e.extra, memo) if isinstance(e.extra, tuple) else e.extra, norm(e.obj, memo) if isinstance(e.obj, tuple) else e.obj)
                   for e in seg if e.kind in ("fact", "call", "write", "lwrite")]
        self.facts = [(n, a[0]) for e, n, a, x, o in self.ev if e.kind == "fact"]
        self.line = seg[-1].line if seg else None
        self.empty = self.flag(self.is_empty)
        self.ws = self.result("is_whitespace_only")
        self.null = self.result("match_nan_values")
        self.x, self.parsed = None, None
        for e, n, a, ex, o in self.ev:
            if e.kind == "call" and short(base_name(str(n))) == "try_parse_float":
                for n2, t in self.facts:
                    if n2[0] == "eq0" and len(n2) == 3 and tuple(n2[2]) and n2[2][0][0] == ex or n2[0] == "eq0" and mentions(n2, lambda y: y[:2] == ("r", e.name)):
                        if n2[1] == 0 and t:
                            self.parsed = True
                        elif n2[1] == 0:
                            self.parsed = False
                        elif t:
                            self.parsed = False
        for e, n, a, ex, o in self.ev:
            if e.kind == "lwrite" and a and a[0][:1] == ("r",) and str(a[0][1]).startswith("out:") and "try_parse_float" in str(a[0][1]):
                self.x = a[0]
        nan = self.result("isnan", self.x) if self.x else None
        inf = self.result("isinf", self.x) if self.x else None
        fin = self.result("isfinite", self.x) if self.x else None
        if fin or inf:
            nan = False
        if fin:
            inf = False
        if fin is False and nan is False:
            inf = True
        if fin is False and inf is False:
            nan = True
        self.number = None
        if self.parsed is False or self.parsed and nan:
            self.number = False
        elif self.parsed and nan is False:
            self.number = True
        self.finite = False if self.number is False or inf else True if self.number and (fin or inf is False) else None

    def is_empty(self, n):
        if n[0] == "eq0" and n[1] == 0 and len(n[2]) == 1 and self.an.is_size(n[2][0][0]):
            return True
        if n[0] == "pos" and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] > 0 and self.an.is_size(n[2][0][0]):
            return False
        return None

    def flag(self, pred):
        for n, t in self.facts:
            r = pred(n)
            if r is not None:
                return t if r else not t
        return None

    def result(self, fn, arg=None):
        """What the path found out about the result of a call of fn."""
        out = None
        for e, n, a, ex, o in self.ev:
            if e.kind == "call" and short(base_name(str(n))) == fn and (arg is None or a and a[0] == arg):
                for n2, t in self.facts:
                    if n2 == ("has", ex) or n2[0] == "eq0" and n2[1] == 0 and len(n2[2]) == 1 and n2[2][0][0] == ex:
                        v = t if n2[0] == "has" else not t
                        if out is not None and out != v:
                            self.dead = True         # a pure question answered in two ways
                            continue
                        out = v
        return out

    def last(self, field):
        """The value the path leaves in a statistic; None when it does not write it."""
        v = None
        for e, n, a, ex, o in self.ev:
            if e.kind in ("write", "lwrite") and n == field:
                v = a[0]
        return v

    def writes(self, field):
        return [a[0] for e, n, a, ex, o in self.ev if e.kind in ("write", "lwrite") and n == field]

    def count(self, field):
        """By how much the path raises a counter (None: not by a constant)."""
        last = {}
        for e, n, a, ex, o in self.ev:
            if e.kind in ("write", "lwrite") and n == field:
                d = delta(a[0], field)
                if d is None:
                    return None
                # a loop within the cell starts the counter from a new symbol
                start = [x for x in subs(e.args[0]) if norm(x, {}) == ("old", field)]
                last[start[0] if start else None] = d
        return sum(last.values())

    def says(self):
        w = []
        for what, v in (("empty", self.empty), ("whitespace", self.ws), ("null-like", self.null), ("a number", self.number), ("finite", self.finite)):
            if v is not None:
                w.append(what if v else "not " + what)
        return "a cell that is " + (", ".join(w) or "anything")


class Analyze:
    def __init__(self, ck, m, f):
        self.ck, self.m, self.f = ck, m, f

    def is_size(self, t):
        return isinstance(t, tuple) and t[:1] == ("m",) and t[1] in ("std::basic_string::size", "std::basic_string::length",
                                                                      "std::basic_string_view::size", "std::basic_string_view::length") and self.is_cell(t[2])

    def is_cell(self, t):
        """An element of the strings of a feature, or a view or copy of it."""
        while isinstance(t, tuple) and t:
            if t[0] == "m" and "operator basic_string_view" in str(t[1]):
                t = t[2]
            elif t[0] in ("new", "agg") and "basic_string" in str(t[1]) and len(t) >= 4:
                t = t[3]
            else:
                break
        return isinstance(t, tuple) and t[:1] in (("elt",), ("e",)) and mentions(t[1], lambda x: x[:1] == ("m",) and short(str(x[1])) == "features")

    def ob(self, rule, ok, msg, line=None):
        self.ck.ob(rule, self.f.name, ok, msg, self.f.where(line) if line else self.f.where())

    def run(self):
        ck, m, f = self.ck, self.m, self.f
        i = Interp(m, each=True, this_cls=f.cls, peel=0, max_paths=60000, steps=90000000, opaque=opaque)
        rs = list(ck.interp_done(i, i.run(f)))
        self.i = i
        cell, outer, other = None, None, []
        for n, seg, st, fr, kind in i.each:
            w = {e.name for e in seg if e.kind in ("write", "lwrite")}
            if "str_empty_count" in w or "str_max_length" in w or "numeric_count" in w:
                cell = n if cell is None or cell is n else cell
        ck.need(cell is not None, "the loop over the cells of a column")
        self.cell = cell
        inner = [x for x in i.each if x[0] is not cell and inside(cell, x[0])]
        outs = [x for x in i.each if x[0] is not cell and inside(x[0], cell)]
        ck.need(outs, "the loop over the features of an example")
        self.cells([x for x in i.each if x[0] is cell])
        self.words([x for x in i.each if x[0] is cell], inner)
        self.column(outs, [x for x in i.each if x[0] is cell])
        self.layout(rs, outs)

    # one cell
    def cells(self, its):
        self.paths = []
        seen = set()
        for n, seg, st, fr, kind in its:
            p = Path(self, seg, st, kind)
            key = (tuple(p.facts), tuple((e.name, a) for e, nn, a, ex, o in p.ev if e.kind in ("write", "lwrite")), kind)
            if key in seen:
                continue
            seen.add(key)
            if not p.dead:
                self.paths.append(p)
        for p in self.paths:
            self.ob("every cell is looked at", p.kind in ("normal", "continue") or p.kind == "throw", "the loop over the cells ends at a cell (%s)" % p.says(), p.line)
        self.sums = self.accumulators()
        done = [p for p in self.paths if p.kind != "throw"]
        for p in done:
            self.counts(p)
            self.lengths(p)
            self.numbers(p)
            self.capture(p)

    def accumulators(self):
        """{statistic: [names of locals added to it after the cells]}"""
        out = {}
        for n, seg, st, fr, kind in self.i.each:
            memo = {}
            for e in seg:
                if e.kind == "write" and e.name in COUNTS and e.args:
                    v = norm(e.args[0], memo)
                    x = added(v, e.name)
                    if x is not None and x[0] == "old":
                        out.setdefault(e.name, set()).add(x[1])
                    elif x is not None and x[0] == "m" and short(str(x[1])) == "size" and e.name == "rows_seen":
                        out.setdefault(e.name, set()).add("#size")
        return out

    def counted(self, p, field):
        k = p.count(field)
        if k is None:
            return None
        for a in self.sums.get(field, ()):
            d = 1 if a == "#size" else p.count(a)
            if d is None:
                return None
            k += d
        return k

    def counts(self, p):
        plain = p.empty is False and p.ws is False
        want = {"rows_seen": 1,
                "str_empty_count": None if p.empty is None else int(p.empty),
                "str_only_whitespace_count": 0 if p.empty else None if p.ws is None else int(p.ws),
                "str_null_like_count": int(p.null) if p.null is not None else 0 if p.empty or p.ws else None,
                "numeric_nan_count": int(not p.number) if p.number is not None else 0 if p.empty or p.ws else None,
                "numeric_count": int(p.number) if p.number is not None else 0 if p.empty or p.ws else None,
                "numeric_finite_count": int(p.finite) if p.finite is not None else 0 if p.empty or p.ws else None}
        for c, w in want.items():
            got = self.counted(p, c)
            self.ob("cells are counted as what they are", w is not None and got == w,
                    "%s changes %s by %s, not %s" % (p.says(), c, "an unknown amount" if got is None else got,
                                                     "what it is (it was not asked)" if w is None else w), p.line)
        got = self.counted(p, "numeric_int_count")
        if p.finite is not True:
            self.ob("cells are counted as what they are", got == 0, "%s is counted as an integer" % p.says(), p.line)
        else:
            w = None
            for n, t in p.facts:
                if n[0] in ("le", "lt") and len(n) == 3 and isinstance(n[1], tuple):
                    lo, hi = n[1], n[2]
                    if names_in(lo, lambda s: s in ("round", "std::round", "trunc", "std::trunc", "floor", "std::floor", "rint", "std::rint", "nearbyint", "std::nearbyint")) and isinstance(hi, tuple) and hi[0] == "c":
                        w = t
                    elif names_in(hi, lambda s: s in ("round", "std::round", "trunc", "std::trunc", "floor", "std::floor", "rint", "std::rint", "nearbyint", "std::nearbyint")) and isinstance(lo, tuple) and lo[0] == "c":
                        w = not t
                elif n[0] == "eq" and names_in(n, lambda s: short(s) in ("round", "trunc", "floor", "rint", "nearbyint", "modf", "fmod")):
                    w = t
            if w is not None:
                self.ob("cells are counted as what they are", got == int(w), "%s that is %s integer changes numeric_int_count by %s" % (p.says(), "an" if w else "no", got), p.line)
            else:
                self.ob("cells are counted as what they are", got in (0, 1), "%s changes numeric_int_count by %s" % (p.says(), got), p.line)
        # the first cell
        first = None
        for n, t in p.facts:
            if n[0] == "eq0" and n[1] == 0 and len(n[2]) == 1 and n[2][0][0] == ("old", "rows_seen"):
                first = t
            elif n[0] == "pos" and n[1] == 0 and n[2] == ((("old", "rows_seen"), 1),):
                first = not t
        ex = p.last("example_value")
        if ex is not None:
            self.ob("the example value is a cell of the column", self.is_cell(ex), "example_value is not given a cell: %s" % show(ex), p.line)
        elif first:
            self.ob("the example value is a cell of the column", False, "the first cell of a column is not kept as its example", p.line)

    def lengths(self, p):
        def ends(field, fns, upper):
            v = p.last(field)
            o = ("old", field)
            if v is None:
                v = o
            return self.extreme(p, v, o, fns, upper)
        if p.empty is None:
            return
        v = p.last("str_min_length")
        if p.empty:
            ok = v is not None and (v == ("c", 0) or self.extreme(p, v, ("old", "str_min_length"), ("min",), False))
            ok = ok or v is None and self.is_zero(p, "str_min_length")
            self.ob("lengths", ok, "an empty cell does not make 0 the shortest length", p.line)
            v = p.last("str_min_length_not_empty")
            self.ob("lengths", v is None or v == ("old", "str_min_length_not_empty"), "an empty cell changes the shortest length of the cells that are not", p.line)
            v = p.last("str_max_length")
            self.ob("lengths", v is None or self.extreme(p, v, ("old", "str_max_length"), ("max",), True), "an empty cell changes the greatest length", p.line)
            return
        self.ob("lengths", ends("str_min_length", ("min",), False), "%s: str_min_length is not the smaller of itself and the cell's length" % p.says(), p.line)
        self.ob("lengths", ends("str_min_length_not_empty", ("min",), False), "%s: str_min_length_not_empty is not the smaller of itself and the cell's length" % p.says(), p.line)
        self.ob("lengths", ends("str_max_length", ("max",), True), "%s: str_max_length is not the greater of itself and the cell's length" % p.says(), p.line)

    def is_zero(self, p, field):
        return any(n[0] == "eq0" and n[1] == 0 and len(n[2]) == 1 and n[2][0][0] == ("old", field) and t for n, t in p.facts)

    def extreme(self, p, v, old, fns, upper):
        """Is v, on this path, the smaller (greater) of old and the length of the cell?"""
        if v[0] == "m" and short(str(v[1])) in fns and len(v[3]) == 2:
            a, b = v[3]
            return a == old and self.is_size(b) or b == old and self.is_size(a)
        size = next((x for n, t in p.facts if n[0] == "pos" for x, k in n[2] if self.is_size(x)), None)
        if size is None:
            return False
        hi, lo = (size, old) if upper else (old, size)
        if v == old:
            return at_least(p.facts, lo, hi)
        return self.is_size(v) and at_least(p.facts, hi, lo)

    def numbers(self, p):
        push = [(e, a) for e, n, a, ex, o in p.ev if e.kind == "call" and short(str(n)) in ("push_back", "emplace_back") and isinstance(o, tuple) and o[:1] == ("f",) and o[2] == "numeric_column_sample_"]
        if p.finite:
            full = any(len(d) == 1 and k > 0 and c < 0 and names_in(x, lambda s: s == "numeric_column_sample_") for c, d in nonneg(p.facts) for x, k in d.items()) or \
                any(len(d) == 2 and any(k > 0 and names_in(x, lambda s: s == "numeric_column_sample_") for x, k in d.items()) for c, d in nonneg(p.facts)) or \
                any(n[0] == "eq0" and names_in(n, lambda s: s == "numeric_column_sample_") and t for n, t in p.facts)
            self.ob("the sample", len(push) == 1 and push[0][1] == (p.x,) or not push and full, "a finite number is not taken once into the sample while there is room", p.line)
        else:
            self.ob("the sample", not push, "%s is taken into the sample of finite numbers" % p.says(), p.line)
        for field, lo in (("numeric_finite_min", True), ("numeric_finite_max", False)):
            v, o = p.last(field), ("old", field)
            if not p.finite:
                self.ob("least and greatest number", v is None or v == o, "%s changes %s" % (p.says(), field), p.line)
                continue
            nan, beyond = None, None
            nan = p.result("isnan", o)
            for n, t in p.facts:
                if n[0] in ("lt", "le") and len(n) == 3:
                    a, b = (n[1], n[2]) if lo else (n[2], n[1])
                    if a == p.x and b == o:
                        beyond = t if n[0] == "lt" or t else False
                    elif a == o and b == p.x:
                        # old < x (old > x): x is not beyond; not (old <= x): x is beyond
                        beyond = False if t else (True if n[0] == "le" else None) if beyond is None else beyond
            if v is not None and v[0] in ("m", "r") and short(str(v[1])) in (("fmin",) if lo else ("fmax",)):
                ok = True
            elif v is None or v == o:
                ok = nan is False and beyond is False
            elif v == p.x:
                ok = nan is True or beyond is True
            elif v[0] == "m" and short(str(v[1])) in (("min",) if lo else ("max",)):
                ok = nan is False and set(v[3]) == {o, p.x}
            else:
                ok = False
            self.ob("least and greatest number", ok, "%s is not the %s of itself and a finite number (none seen: %s, number beyond it: %s)" % (
                field, "lesser" if lo else "greater", tri(nan), tri(beyond)), p.line)

    def capture(self, p):
        cap, F = "str_captured_unique_values", "str_captured_unique_values_overflowed"
        eff = []
        asked = None          # is the column to be captured?
        found, room = None, None
        for n, t in p.facts:
            if n[0] == "eq" and names_in(n, lambda s: s == "capture_columns_") and names_in(n, lambda s: short(s) in ("end", "cend")):
                asked = not t
                self.key(n, p)
            elif n[0] in ("eq0", "pos", "has") and names_in(n, lambda s: s == "capture_columns_") and names_in(n, lambda s: short(s) in ("count", "contains")):
                asked = t if n[0] != "eq0" else not t
                self.key(n, p)
            elif n[0] == "eq" and names_in(n, lambda s: s == cap) and names_in(n, lambda s: short(s) in ("end", "cend")):
                found = not t
            elif n[0] in ("eq0", "pos", "has") and names_in(n, lambda s: s == cap) and names_in(n, lambda s: short(s) in ("count", "contains")):
                found = t if n[0] != "eq0" else not t
            elif n[0] == "pos" and names_in(n, lambda s: s == cap) and names_in(n, lambda s: short(s) == "size"):
                sz = next(x for x, k in n[2] if names_in(x, lambda s: s == cap))
                mx = next((x for x, k in n[2] if names_in(x, lambda s: s == "max_capture_count_")), None)
                if mx is not None and len(n[2]) == 2:
                    if at_least([(n, t)], sz, mx):
                        room = False
                    elif any(c == -1 and d == {mx: 1, sz: -1} for c, d in nonneg([(n, t)])):
                        room = True
        over = None
        for e, n, a, ex, o in p.ev:
            if e.kind in ("write", "lwrite") and n == F:
                over = a[0]
            elif e.kind == "call" and isinstance(o, tuple) and o[:1] == ("f",) and o[2] == cap:
                s = short(str(n))
                if s in ("emplace", "try_emplace", "insert", "insert_or_assign"):
                    v = a[1] if len(a) > 1 else None
                    one = v == ("c", 1) or mentions(a, lambda y: y == ("c", 1))
                    eff.append("new" if one and any(self.is_cell(y) or mentions(y, self.is_cell) for y in a) else "?")
                elif s == "operator[]":
                    eff.append("at")
                elif s in ("erase", "clear", "swap", "extract"):
                    eff.append("?")
            elif e.kind in ("write", "lwrite") and e.args and isinstance(o, tuple) and names_in(o, lambda s: s == cap) and n != cap and n != F:
                v = a[0]
                up = v[0] == "lin" and v[1] == 1 and len(v[2]) == 1 and v[2][0][1] == 1
                eff.append("up" if up else "one" if v == ("c", 1) else "?")
        if "at" in eff and "up" in eff:
            eff = [x for x in eff if x not in ("at", "up")] + ["add"]
        elif eff == ["at", "one"]:
            eff = ["new"]
        elif eff == ["at"]:
            eff = ["add"] if any(e.kind in ("write", "lwrite") and isinstance(o, tuple) and names_in(o, lambda s: s == cap) for e, n, a, ex, o in p.ev) else []
        if p.empty or p.ws or asked is False:
            self.ob("captured values", not eff and over is None, "%s of a column that is %s changes the captured values" % (p.says(), "not to be captured" if asked is False else "captured"), p.line)
            return
        self.ob("captured values", asked is not None, "whether the values of a column are captured does not depend on the columns asked for", p.line)
        what = "a value that is %s captured, with %s for more" % ({True: "already", False: "not yet", None: "maybe"}[found], {True: "room", False: "no room", None: "maybe room"}[room])
        if found:
            ok = eff in (["up"], ["add"]) and over is None
        elif room:
            ok = (eff == ["add"] or found is False and eff == ["new"]) and over is None
        elif found is False and room is False:
            ok = not eff and over == ("c", True)
        else:
            ok = False
        self.ob("captured values", ok, "%s: %s" % (what, "the captured values do not change as they have to (%s%s)" % (", ".join(eff) or "no change", ", overflow set" if over is not None else "")), p.line)

    def key(self, n, p):
        fs = [x for x in subs(n) if x[:1] == ("m",) and short(str(x[1])) in ("find", "count", "contains")]
        self.ob("captured values", all(x[3] and self.index(x[3][0]) for x in fs), "the column to capture is not looked up by its own index", p.line)

    def index(self, t):
        return t[:1] == ("old",) and t[1] in self.indices() or t[:2] == ("r", "iter") or t[0] == "lin" and False

    def indices(self):
        """Names of the locals that run over the features with the loop."""
        if not hasattr(self, "_idx"):
            self._idx = set()
            for n, seg, st, fr, kind in self.i.each:
                for e in seg:
                    for t in [e.obj] + list(e.args or ()):
                        for x in subs(t):
                            if x[:1] in (("e",), ("elt",)) and isinstance(x[2], tuple) and x[2][:1] == ("r",) and str(x[2][1]).startswith("loop:") and mentions_any(x[1], ("columns_",)):
                                self._idx.add(x[2][1][5:])
        return self._idx

    # the words of a cell
    def words(self, its, inner):
        adds = {"str_cardinality_estimator_": 0}
        for p in self.paths:
            if p.kind == "throw":
                continue
            got = [a for e, n, a, ex, o in p.ev if e.kind == "call" and str(n).startswith("hll::") and short(str(n)) == "add" and isinstance(o, tuple) and o[:1] == ("f",) and o[2] == "str_cardinality_estimator_"]
            if p.empty is False:
                self.ob("estimators", len(got) == 1 and self.is_cell(got[0][0]), "%s is taken into the estimate of distinct values %d times" % (p.says(), len(got)), p.line)
            elif p.empty:
                self.ob("estimators", not got, "an empty cell is taken into the estimate of distinct values", p.line)
        n_in = 0
        for n, seg, st, fr, kind in inner:
            memo = {}
            adds = [norm(e.args[0], memo) if e.args else None for e in seg if e.kind == "call" and str(e.name).startswith("hll::") and short(str(e.name)) == "add"
                    and isinstance(e.obj, tuple) and e.obj[:1] == ("f",) and e.obj[2] == "str_vocab_cardinality_estimator_"]
            wr = [norm(e.args[0], memo) for e in seg if e.kind in ("write", "lwrite") and e.name == "str_num_words"]
            if not adds and not wr:
                continue
            n_in += 1
            ok = len(adds) == 1 and len(wr) == 1 and delta(wr[0], "str_num_words") == 1
            self.ob("estimators", ok, "a word of a cell is taken into the estimate of distinct words %d times and counted %s" % (len(adds), [show(x) for x in wr]), seg[-1].line)
        for n, seg, st, fr, kind in inner:
            others = {e.name for e in seg if e.kind == "write"} & set(COUNTS)
            self.ob("estimators", not others, "a loop within a cell changes the count of cells (%s)" % ", ".join(sorted(others)), seg[-1].line if seg else None)
        if not n_in:
            direct = any("str_num_words" in {e.name for e in seg if e.kind in ("write", "lwrite")} for n, seg, st, fr, kind in its)
            self.ob("estimators", direct, "the words of a cell are not counted")

    # a column of an example
    def column(self, outs, its):
        roles = self.roles()
        local = {x for v in self.sums.values() for x in v} | {nm for nm, r in roles.items() if r}
        for n, seg, st, fr, kind in outs:
            memo = {}
            for e in seg:
                if e.kind != "loop" or e.node is not self.cell:
                    continue
                for L, (v, T) in (e.extra or {}).items():
                    if isinstance(T, tuple) and T[:1] == ("r",) and str(T[1])[5:] in local:
                        z = isinstance(v, tuple) and v[:1] == ("c",) and v[1] == 0
                        self.ob("averages", z, "%s still holds what an earlier feature added to it" % str(T[1])[5:], e.line)
            for e in seg:
                if e.kind == "write" and isinstance(e.obj, tuple) and e.obj[:1] == ("f",) and mentions_any(e.obj, ("columns_",)):
                    ok = self.own(e.obj[1])
                    self.ob("a feature is counted in its own column", ok, "%s of a column other than the feature's own is changed" % e.name, e.line)
            self.average(seg, roles, "numeric_finite_mean", "numeric_finite_count", "x", memo)
            self.average(seg, roles, "str_avg_length", "rows_seen", "len", memo)
        for n, seg, st, fr, kind in its:
            for e in seg:
                if e.kind == "write" and isinstance(e.obj, tuple) and e.obj[:1] == ("f",) and mentions_any(e.obj, ("columns_",)):
                    self.ob("a feature is counted in its own column", self.own(e.obj[1]), "%s of a column other than the feature's own is changed" % e.name, e.line)
        idx = self.indices()
        for n, seg, st, fr, kind in outs:
            if kind not in ("normal", "continue"):
                continue
            for L, T in fr.items():
                if isinstance(T, tuple) and T[:1] == ("r",) and str(T[1])[5:] in idx:
                    v = self.i.read(st, L)
                    ok = v == ("lin", 1, ((T, 1),)) or v == ("lin", 1, [(T, 1)])
                    self.ob("a feature is counted in its own column", ok, "the index of the column does not go to the next one with the features", seg[-1].line if seg else None)

    def own(self, t):
        return t[:1] in (("e",), ("elt",)) and (t[2][:1] == ("r",) and (str(t[2][1])[5:] in self.indices() or t[2][1] == "iter"))

    def roles(self):
        """{local: 'x' | 'n' | 'len' | 'rows'} by what the paths of a cell add to it."""
        names = {}
        for p in self.paths:
            for e, n, a, ex, o in p.ev:
                if e.kind == "lwrite" and isinstance(n, str):
                    names.setdefault(n, None)
        out = {}
        done = [p for p in self.paths if p.kind != "throw"]
        for nm in names:
            kinds = {"x", "n", "len", "rows"}
            for p in done:
                w = p.writes(nm)
                v = w[-1] if w else ("old", nm)
                ok = set()
                x = added(v, nm)
                if v == ("old", nm):
                    if not p.finite:
                        ok |= {"x", "n"}
                    if p.empty:
                        ok |= {"len"}
                if delta(v, nm) == 1:
                    ok |= {"rows"}
                    if p.finite:
                        ok |= {"n"}
                if x is not None and x == p.x and p.finite:
                    ok |= {"x"}
                if x is not None and self.is_size(x):
                    ok |= {"len"}
                kinds &= ok
            if len(kinds) == 1:
                out[nm] = kinds.pop()
        return out

    def average(self, seg, roles, field, total, what, memo):
        """After the cells of a batch, the average is that over everything seen."""
        if kind_of(seg) == "throw":
            return
        w = [(e, norm(e.args[0], memo)) for e in seg if e.kind in ("write", "lwrite") and e.name == field]
        facts = [(norm(e.name, memo), e.args[0]) for e in seg if e.kind == "fact"]
        cnt = "n" if what == "x" else "rows"
        incell = [p for p in self.paths if p.writes(field)]
        if incell:
            for p in self.paths:
                v = p.last(field)
                use = p.finite if what == "x" else True
                if not use:
                    self.ob("averages", v is None, "%s changes %s" % (p.says(), field), p.line)
                    continue
                ok = v is not None and identity(lambda env: ev(v, env), lambda env: (env[field] * (env[total] - 1) + env["#"]) / env[total],
                                                lambda rnd: cellenv(rnd, field, total, p, self))
                self.ob("averages", ok, "%s of %s does not become the average with the cell" % (field, p.says()), p.line)
            return
        none = False           # is it known that no cell of the batch counts?
        some = False
        for n, t in facts:
            if n[0] in ("pos", "eq0", "has") and (n[0] == "has" and n[1][:1] == ("old",) or n[0] != "has" and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] > 0):
                nm = n[1][1] if n[0] == "has" else n[2][0][0][1] if n[2][0][0][:1] == ("old",) else None
                if nm is None:
                    continue
                if roles.get(nm) == cnt or nm == total:
                    yes = t if n[0] != "eq0" else not t
                    some, none = some or yes, none or not yes
            elif n[0] == "more" and not t and False:
                pass
        line = w[-1][0].line if w else (seg[-1].line if seg else None)
        if not w:
            self.ob("averages", none, "%s is not brought up to date with the cells of a batch" % field, line)
            return
        v = w[-1][1]
        bad = [d for d in divisors(v) if not (some and self.positive(d, roles, cnt, total))]
        self.ob("averages", not bad, "%s is divided by what may be zero (%s)" % (field, ", ".join(show(d) for d in bad)), line)
        ok = identity(lambda env: ev(v, env), lambda env: (env[("old", field)] * (env[("old", total)] - env["n"]) + env["s"]) / env[("old", total)],
                      lambda rnd: batchenv(rnd, v, field, total, roles, what, cnt))
        self.ob("averages", ok, "%s does not become the average over everything seen: %s" % (field, show(v)), line)

    def positive(self, d, roles, cnt, total):
        return d == ("old", total) or d[:1] == ("old",) and roles.get(d[1]) == cnt

    def layout(self, rs, outs):
        """Only what has the layout of the columns is analyzed."""
        ok, n = True, 0
        for _, seg, st, fr, kind in outs:
            if kind not in ("normal", "continue"):
                continue
            n += 1
            dense = any(x.kind == "fact" and x.args[0] and x.name[0] == "has" and mentions(x.name, lambda y: y[:1] == ("dyn",) and "Dense_tensor" in str(y[1])) for x in seg) or \
                not any(mentions(a, lambda y: y[:1] == ("cast",)) for x in seg for a in (x.args or ()))
            typed = any(x.kind == "fact" and x.args[0] and x.name[0] == "eq0" and names_in(x.name, lambda s: s == "mlio::Tensor::data_type") for x in seg)
            dyn = any(mentions(a, lambda y: y[:1] == ("dyn",)) for x in seg for a in list(x.args or ()) + [x.name])
            self.ob("only dense string tensors that fit the columns are analyzed", dense and dyn and typed, "a feature is read as strings without having been found to be a dense tensor of strings", seg[0].line if seg else None)
        for r in rs:
            if r.outcome != "return":
                continue
            fit = any(e.kind == "fact" and e.args[0] and e.name[0] in ("eq", "eq0") and names_in(e.name, lambda s: s == "columns_") and names_in(e.name, lambda s: short(s) == "size") and names_in(e.name, lambda s: short(s) == "features") for e in r.trace)
            fit = fit or any(e.kind == "fact" and e.name[0] == "pos" and names_in(e.name, lambda s: s == "columns_") and names_in(e.name, lambda s: short(s) == "features") for e in r.trace)
            self.ob("only dense string tensors that fit the columns are analyzed", fit, "an example is analyzed whose number of features was not compared with the number of columns")


def nonneg(known):
    """(constant, {atom: coefficient}) of the sums known not to be negative."""
    for n, t in known:
        if n[0] == "pos" and len(n) == 3:
            yield (n[1] - 1, dict(n[2])) if t else (-n[1], {x: -k for x, k in n[2]})


def at_least(known, a, b):
    """Is it known that a >= b?"""
    return any(c <= 0 and d == {a: 1, b: -1} for c, d in nonneg(known))


def kind_of(seg):
    return "throw" if any(e.kind == "throw" for e in seg) else "normal"


def tri(x):
    return {True: "yes", False: "no", None: "not asked"}[x]


def mentions_any(t, names):
    return names_in(t, lambda s: s in names or s.startswith("loop:") and s[5:] in names)


def subs(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subs(x)


def inside(a, b):
    """Is the node b within the node a?"""
    return any(x is b for x in walk(a)) and a is not b


def divisors(t):
    for x in subs(t):
        if x[:2] == ("op", "/"):
            yield x[3]


class NotArith(Exception):
    pass


def ev(t, env):
    if t in env:
        return env[t]
    if t[0] == "c" and isinstance(t[1], (int, float)):
        return Fraction(t[1])
    if t[0] == "op" and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        if t[1] == "+":
            return a + b
        if t[1] == "-":
            return a - b
        if t[1] == "*":
            return a * b
        if t[1] == "/" and b != 0:
            return a / b
        raise NotArith(str(t)[:60])
    if t[0] == "op" and len(t) == 3 and t[1] == "-":
        return -ev(t[2], env)
    if t[0] == "lin":
        return Fraction(t[1]) + sum(k * ev(x, env) for x, k in t[2])
    if t[0] == "cast" and len(t) >= 3:
        return ev(t[-1], env)
    raise NotArith(str(t)[:60])


def identity(got, want, mk):
    """Do the two agree? Both are fractions of polynomials of small degree; agreement at many random points decides."""
    rnd = random.Random(7)
    for _ in range(24):
        env = mk(rnd)
        try:
            if got(env) != want(env):
                return False
        except (NotArith, KeyError):
            return False
    return True


def batchenv(rnd, v, field, total, roles, what, cnt):
    n = rnd.randint(1, 50)
    N = n + rnd.randint(0, 50)
    s = Fraction(rnd.randint(-1000, 1000), rnd.randint(1, 20))
    env = {("old", field): Fraction(rnd.randint(-1000, 1000), 7), ("old", total): Fraction(N), "n": Fraction(n), "s": s}
    if N == n:
        env[("old", field)] = Fraction(0)
    for nm, r in roles.items():
        if r == cnt:
            env[("old", nm)] = Fraction(n)
        elif r == what:
            env[("old", nm)] = s
    return env


def cellenv(rnd, field, total, p, an):
    N = rnd.randint(1, 50)
    old = Fraction(rnd.randint(-1000, 1000), 7)
    x = Fraction(rnd.randint(-1000, 1000), 3)
    env = {field: old, total: Fraction(N), "#": x, ("old", field): old, ("old", total): Fraction(N - 1)}
    if p.x is not None and total == "numeric_finite_count":
        env[p.x] = x
    else:
        for e, n, a, ex, o in p.ev:
            for t in list(a) + [ex]:
                for y in subs(t):
                    if an.is_size(y):
                        env[y] = x
    return env


# the whole dataset
def dataset(ck, m):
    for f in m.fns.values():
        if f.body is None or not insights(f) or f.short != "analyze_dataset":
            continue
        ck.saw(f)
        i = Interp(m, each=True, this_cls=f.cls, peel=0, max_paths=20000, steps=20000000, opaque=lambda fn, call: opaque(fn, call) or fn.name == CLS + "::analyze")
        rs = list(ck.interp_done(i, i.run(f)))

        def ob(rule, ok, msg, line=None):
            ck.ob(rule, f.name, ok, msg, f.where(line) if line else f.where())
        cols, reads, cleans = 0, 0, 0
        for n, seg, st, fr, kind in i.each:
            ems = [e for e in seg if e.kind == "call" and short(str(e.name)) in ("emplace_back", "push_back") and mentions(e.args, lambda y: y[:1] == ("m",) and short(str(y[1])) == "name")]
            rd = [e for e in seg if e.kind == "call" and short(str(e.name)) == "read_example"]
            sm = {e.name for e in seg if e.kind in ("write", "lwrite", "fact") for e in [e]}
            if any(names_in(e.name, lambda s: short(s) == "sparse") for e in seg if e.kind == "fact") or ems:
                if kind in ("normal", "continue"):
                    cols += 1
                    dense = any(e.kind == "fact" and not e.args[0] and names_in(e.name, lambda s: short(s) == "sparse") for e in seg)
                    typed = any(e.kind == "fact" and e.args[0] and e.name[0] == "eq0" and names_in(e.name, lambda s: short(s) == "data_type") for e in seg)
                    ob("a column for every attribute", len(ems) == 1 and dense and typed,
                       "an attribute %s" % ("gets %d columns" % len(ems) if len(ems) != 1 else "becomes a column without having been found dense and of strings"), seg[-1].line)
                elif kind != "throw":
                    ob("a column for every attribute", False, "the loop over the attributes ends at one of them", seg[-1].line)
            elif rd:
                if kind in ("normal", "continue"):
                    reads += 1
                if kind != "throw":
                    ob("every example is analyzed once", once(seg), "what is read and what is analyzed in one turn are not the same examples", seg[-1].line)
            else:
                for field in ("str_min_length", "str_min_length_not_empty"):
                    at = [e.args[0] for e in seg if e.kind == "fact" and e.name[0] in ("eq", "eq0") and mentions(e.name, lambda y: y[:1] == ("fld",) and y[2] == field)]
                    w = [e.args[0] for e in seg if e.kind in ("write", "lwrite") and e.name == field]
                    if not at and not w:
                        continue
                    cleans += 1
                    ob("no column keeps a placeholder", bool(at) and (w == [("c", 0)] if at[0] else not w), "%s is %s" % (field, "left at its placeholder" if not w else "overwritten although it is a length"), seg[-1].line)
                fin = [e for e in seg if e.kind in ("fact",) and mentions(e.name, lambda y: y[:1] == ("fld",) and y[2] == "numeric_finite_count")]
                w = [e.args[0] for e in seg if e.kind in ("write", "lwrite") and e.name == "numeric_finite_mean"]
                if fin or w:
                    cleans += 1
                    z = [e.args[0] if e.name[0] == "eq0" else not e.args[0] for e in fin]
                    nan = bool(w) and names_in(w[-1], lambda s: "quiet_NaN" in s or "nan" in s.lower())
                    ob("no column keeps a placeholder", bool(z) and (nan if z[0] else not w), "the mean of %s" % ("no numbers is given as a number" if z and z[0] else "the numbers seen is overwritten"), seg[-1].line)
                elif any(e.kind in ("write", "lwrite") and e.name in ("str_min_length", "str_min_length_not_empty") for e in seg):
                    ob("no column keeps a placeholder", False, "the mean of no numbers is given as a number", seg[-1].line)
        ob("a column for every attribute", cols > 0, "the attributes of the schema are not gone through")
        ob("every example is analyzed once", reads > 0, "the examples are not read and analyzed in a loop")
        ob("no column keeps a placeholder", cleans > 0, "the placeholders of what was never seen are not replaced")
        for r in rs:
            rd = [e for e in r.trace if e.kind == "call" and short(str(e.name)) == "read_example"]
            if r.outcome == "return":
                end = bool(rd) and null(r.trace, rd[-1]) is True
                ob("every example is analyzed once", end, "the result is given before the reader said that there is nothing more")
                ob("every example is analyzed once", once(r.trace), "what is read and what is analyzed are not the same examples")


def null(tr, e):
    """Is it known whether the call e gave nothing?"""
    for x in tr:
        if x.kind == "fact" and x.name == ("has", e.extra):
            return not x.args[0]
    return None


def once(tr):
    """Is every example that is read there analyzed, once, and no other?"""
    rd = [e for e in tr if e.kind == "call" and short(str(e.name)) == "read_example"]
    an = [e for e in tr if e.kind == "call" and str(e.name) == CLS + "::analyze"]
    want = [e for e in rd if null(tr, e) is not True]
    return len(an) == len(want) and all(null(tr, e) is False and sum(contains(a.args, e.extra) for a in an) == 1 for e in want)


# the names Python sees
def module(ck, m):
    pairs = 0
    for f in m.fns.values():
        if f.body is None or not insights(f):
            continue
        for n in walk(f.body):
            kids = [unwrap(x) for x in (n.get("args") or []) if isinstance(x, dict)]
            found = []
            for a, b in zip(kids, kids[1:]):
                if a.get("k") == "str" and b.get("k") == "un" and b.get("op") == "&" and "Column_analysis::" in str(b.get("t")) + str(b["a"].get("id", "")):
                    found.append((a.get("v"), b["a"].get("f") or b["a"].get("n"), n))
                elif a.get("k") == "str" and b.get("k") == "un" and b.get("op") == "&" and b["a"].get("dk") == "fieldref":
                    found.append((a.get("v"), b["a"].get("f"), n))
            if short(str(n.get("fn", ""))) == "operator=" or n.get("k") == "bin" and n.get("op") == "=":
                ab = kids if len(kids) == 2 else [n.get("obj"), kids[0]] if len(kids) == 1 and n.get("obj") else [n.get("a"), n.get("b")] if n.get("k") == "bin" else []
                if len(ab) == 2 and all(isinstance(x, dict) for x in ab):
                    lits = [x["v"] for x in walk(ab[0]) if x.get("k") == "str"]
                    mems = [x.get("f") or short(str(x.get("fn"))) for x in walk(ab[1]) if base_name(str(x.get("cls"))) == "pymlio::Column_analysis" and x.get("k") in ("mem", "mcall", "call")]
                    if len(lits) == 1 and len(mems) == 1:
                        found.append((lits[0], mems[0], n))
            for nm, fld, at in found:
                pairs += 1
                ck.saw(f)
                a, b = plain(nm), plain(fld)
                ck.ob("what Python sees under a name is the statistic of that name", "insights." + nm, a == b or a.endswith("_" + b),
                      "%s is the statistic %s" % (nm, fld), f.where(at.get("l")))
    ck.need(pairs > 5, "the names the insights module registers")


def plain(nm):
    nm = nm[9:] if nm.startswith("estimate_") else nm
    return "str_" + nm[7:] if nm.startswith("string_") else nm


def median(ck, m):
    for f in m.methods("pymlio::Column_analysis"):
        if f.body is None:
            continue
        i = Interp(m, this_cls=f.cls, peel=0, opaque=opaque)
        for r in ck.interp_done(i, i.run(f)):
            ck.saw(f)
            if f.short == "estimate_median_approx":
                empty = None
                for n, t in facts(r.trace):
                    if n[0] == "eq0" and n[1] == 0 and names_in(n, lambda s: s == "numeric_column_sample_") and names_in(n, lambda s: s == "std::vector::size"):
                        empty = t
                    elif n[0] == "pos" and n[1] == 0 and names_in(n, lambda s: s == "numeric_column_sample_") and names_in(n, lambda s: s == "std::vector::size"):
                        empty = not t
                reads = mentions(r.value, lambda y: y[:1] in (("elt",), ("e",))) or any(e.kind == "call" and short(str(e.name)) == "nth_element" for e in r.trace)
                ck.ob("the median is taken of a sample that is not empty", f.name, not reads or empty is False, "an element of an empty sample is read", f.where())
            elif f.short in ("estimate_string_cardinality", "estimate_string_vocab_cardinality"):
                own = "str_cardinality_estimator_" if f.short == "estimate_string_cardinality" else "str_vocab_cardinality_estimator_"
                got = [e for e in r.trace if e.kind == "call" and str(e.name).startswith("hll::") and short(str(e.name)) == "estimate"]
                ck.ob("estimators", f.name, len(got) == 1 and isinstance(got[0].obj, tuple) and got[0].obj[:1] == ("f",) and got[0].obj[2] == own,
                      "the estimate is not that of %s" % own, f.where())


def hll(ck, m):
    for f in m.methods("hll::HyperLogLog"):
        if f.body is None:
            continue
        i = Interp(m, each=True, this_cls=f.cls, peel=0, opaque=lambda fn, call: not fn.name.startswith("hll::"))
        rs = list(ck.interp_done(i, i.run(f)))
        segs = [r.trace for r in rs] + [x[1] for x in i.each]
        ck.saw(f)
        for tr in segs:
            known = []
            for e in tr:
                if e.kind == "fact":
                    known.append((e.name, e.args[0]))
                if e.kind == "call" and short(str(e.name)) in ("__builtin_clz", "__builtin_clzl", "__builtin_clzll", "__builtin_ctz"):
                    x = e.args[0]
                    nz = any(n[0] == "eq0" and n[1] == 0 and len(n[2]) == 1 and n[2][0][0] == x and not t or n == ("has", x) and t or
                             n[0] == "pos" and n[1] == 0 and len(n[2]) == 1 and n[2][0][0] == x and t or n[0] == "eq" and x in n[1:] and ("c", 0) in n[1:] and not t for n, t in known)
                    ck.ob("the zeros of a hash are counted where there is a one", f.name, nz, "__builtin_clz is called with what may be 0", f.where(e.line))
                # a register only ever grows
                if f.short in ("add", "merge") and e.kind in ("write", "lwrite") and isinstance(e.obj, tuple) and e.obj[:1] in (("e",), ("elt",)) and names_in(e.obj, lambda s: s == "M_"):
                    v = e.args[0]
                    ok = False
                    for c, d in nonneg(known):
                        l = i.lin(i.add(("lin", c, tuple(d.items())), v, -1))
                        if l is not None and l[0] <= 0 and len(l[1]) == 1:
                            (x, k), = l[1].items()
                            ok = ok or k == -1 and mentions_any(x, ("M_",)) and own_register(x)
                    ok = ok or v[0] == "m" and short(str(v[1])) == "max"
                    ck.ob("a register keeps the greatest rank", f.name, ok, "a register is given %s without that being greater than it" % show(v), f.where(e.line))


def own_register(x):
    return not mentions(x, lambda y: y == ("obj", "arg0"))


CTYPE = {"tolower", "toupper", "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isprint", "ispunct", "isxdigit"}


def nulllike(ck, m):
    """A cell is null-like when, without the blanks around it, it is one of the values whatever the case."""
    for f in m.fns.values():
        if f.body is None or "xxh" in f.file or "/src/" not in "/" + f.file:
            continue
        for n in walk(f.body):
            if n.get("k") == "call" and short(str(n.get("fn"))) in CTYPE and n.get("args"):
                a = unwrap(n["args"][0])
                t = str(a.get("t", ""))
                # an int is fine when it was an unsigned character or one of the results of these functions
                ok = "unsigned char" in t or "uint8_t" in t or a.get("k") in ("int", "chr", "char") or a.get("k") == "call" and short(str(a.get("fn"))) in CTYPE
                ck.ob("characters are classified as unsigned ones", f.name, ok, "%s is called with a %s, which may be negative" % (n["fn"], t), f.where(n.get("l")))
        if f.short != "match_nan_values" or not insights(f):
            continue
        ck.saw(f)
        i = Interp(m, each=True, this_cls=f.cls, peel=0, opaque=opaque)
        rs = list(ck.interp_done(i, i.run(f)))
        tr = [r.trace for r in rs] + [x[1] for x in i.each]
        if not any(e.kind == "call" and e.name == "std::equal" for t in tr for e in t):
            continue

        def ob(ok, msg, line=None):
            ck.ob("null-like values", f.name, ok, msg, f.where(line) if line else f.where())

        def whole(e):
            a = e.args
            if len(a) < 4:
                return False
            b = [x[2] if isinstance(x, tuple) and x[:1] == ("m",) and short(str(x[1])).lstrip("c") == w else None for x, w in zip(a, ("begin", "end", "begin", "end"))]
            if None in b or b[0] != b[1] or b[2] != b[3] or b[0] == b[2]:
                return False
            t = [names_in(x, lambda s: short(s) == "trim") or mentions_any(x, ("s",)) for x in (b[0], b[2])]
            v = [contains(x, ("obj", "arg1")) for x in (b[0], b[2])]
            return t[0] != t[1] and v[0] != v[1] and t[0] != v[0]
        def matched(t):
            r = None
            for e in t:
                if e.kind == "call" and e.name == "std::equal":
                    ob(whole(e), "a value is not compared with all of the trimmed cell", e.line)
                    for x in t:
                        if x.kind == "fact" and x.name == ("has", e.extra):
                            r = x.args[0]
            return r
        for r in rs:
            if r.outcome != "return":
                continue
            if r.value == ("c", True):
                ob(matched(r.trace) is True, "a cell is called null-like without being one of the values")
            elif r.value == ("c", False):
                ob(r.trace and any(e.kind == "endloop" for e in r.trace) and matched(r.trace) is None, "a cell is called not null-like before all values were looked at")
        for n, seg, st, fr, kind in i.each:
            if kind in ("normal", "continue"):
                ob(matched(seg) is False, "a value the cell is equal to is passed over", seg[-1].line)
