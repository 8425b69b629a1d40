"""Path-sensitive abstract interpreter over the resolved syntax tree.

Domain: Herbrand terms (symbolic expressions over the initial memory) with a
linear normal form for integers, intervals for the linear forms and truth values
for the other conditions; no solver.  Unknown conditions split the path.  Callees
with bodies in the repository are interpreted inline (the client can keep any of
them opaque), loops are peeled a configurable number of times and then run once
from a state in which everything that the body can modify is unknown, so the
paths over-approximate the program's.  RAII scope exits, exceptions, lambdas and
smart pointers/optionals are modelled.

Every path carries a trace: conditions assumed, opaque calls, writes to memory
that outlives the call, throws, scope-exit destructors.
"""
import itertools

from model import (AnalysisError, FLOATS, SIGNED, UNSIGNED, base_name, is_ptr, is_ref, strip_type, targs, walk,
                   unwrap)

NULL = ("null",)
# functions whose unsigned result is -1 on failure
ERROR_SIZES = {"iconv", "mbrtowc", "wcrtomb", "mbstowcs", "wcstombs"}
SMART = {"std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "mlio::Intrusive_ptr", "std::optional", "mlio::detail::Intrusive_ptr"}


SYNC = ("std::mutex::", "std::condition_variable::", "std::unique_lock::", "std::lock_guard::", "std::scoped_lock::",
        "std::recursive_mutex::", "std::condition_variable_any::", "std::shared_mutex::", "tbb::")


class Budget(AnalysisError):
    pass


class Ev:
    """Trace event."""
    __slots__ = ("kind", "name", "args", "obj", "line", "fn", "node", "extra", "locs")

    def __init__(self, kind, name=None, args=(), obj=None, line=0, fn=None, node=None, extra=None, locs=()):
        self.locs = locs
        self.kind, self.name, self.args, self.obj = kind, name, args, obj
        self.line, self.fn, self.node, self.extra = line, fn, node, extra

    def __repr__(self):
        return "%s %s%s%s@%s:%s" % (self.kind, self.name, "" if self.obj is None else " on " + show(self.obj),
                                    "" if not self.args else "(" + ", ".join(show(a) for a in self.args) + ")",
                                    self.fn.short if self.fn else "?", self.line)


def show(t, d=0):
    try:
        return show_(t, d)
    except (IndexError, TypeError, AttributeError):
        return str(t)


def show_(t, d=0):
    if t is None:
        return "-"
    if not isinstance(t, tuple):
        return str(t)
    if d > 6:
        return "..."
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == "c":
        return repr(t[1])
    if k == "s":
        return repr(t[1])
    if k == "enum":
        return t[1].rsplit("::", 1)[-1]
    if k == "init":
        return s(t[1])
    if k == "v":
        return t[3] if len(t) > 3 else "v%s" % (t[2],)
    if k == "f":
        return s(t[1]) + "." + t[2]
    if k == "*":
        return "*" + s(t[1])
    if k == "addr":
        return "&" + s(t[1])
    if k == "obj":
        return t[1]
    if k == "lin":
        return " + ".join(([str(t[1])] if t[1] else []) + ["%s%s" % ("" if c == 1 else str(c) + "*", s(x)) for x, c in t[2]]) or "0"
    if k == "m":
        return "%s.%s(%s)" % (s(t[2]), t[1].rsplit("::", 1)[-1], ", ".join(s(x) for x in t[3]))
    if k == "r":
        return "%s#%s" % (t[1].rsplit("::", 1)[-1], t[2])
    if k in ("pos", "eq0", "has", "not"):
        return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:]))
    return "%s(%s)" % (k, ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


class State:
    __slots__ = ("store", "facts", "iv", "trace", "scopes", "frame", "exc", "ret")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.iv = {}
        self.trace = []
        self.scopes = []
        self.frame = None
        self.exc = None
        self.ret = None

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.iv = dict(self.iv)
        s.trace = list(self.trace)
        s.scopes = [list(x) for x in self.scopes]
        s.frame = self.frame
        s.exc = self.exc
        s.ret = self.ret
        return s


class Frame:
    __slots__ = ("id", "fn", "this", "parent", "cls", "caps")

    def __init__(self, id, fn, this, parent=None, cls=None):
        self.id, self.fn, self.this, self.parent, self.cls = id, fn, this, parent, cls
        self.caps = {}


class Result:
    """One path through the entry function."""
    __slots__ = ("outcome", "value", "state", "trace")

    def __init__(self, outcome, value, state):
        self.outcome, self.value, self.state = outcome, value, state
        self.trace = state.trace


def READS_ARGS(fn):
    """Functions that only read what they are given (although they take forwarding references)."""
    return fn in ("fmt::format", "fmt::make_format_args", "fmt::print") or fn.startswith("mlio::logger::")


class Interp:
    def __init__(self, model, opaque=None, peel=1, max_paths=4000, this_cls=None, max_depth=40,
                 on_call=None, may_throw=None, virt=None, steps=2000000, keep_asserts=False, opaque_lambda_calls=False, log_reads=False, cuts=False, each=False):
        self.log_reads = log_reads
        self.each = [] if each else None   # (loop, events, state at the end, {location: symbol at the start}) of every iteration, judged on its own
        self.cuts = {} if cuts else None   # (context, label/loop) -> {widened locations, values seen, nodes}
        self.edges = []                    # (source node, target node, events, {generalised location: (value, symbol)})
        self.cut_stores = {}
        self.m = model
        self.opaque = opaque or (lambda f, call: False)
        self.peel = peel
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.on_call = on_call            # (interp, st, call node, fname, obj L, obj value, args, lvals) -> None | list of (st, value) | 'throw'
        self.may_throw = may_throw or (lambda call: False)
        self.virt = virt                  # (interp, st, call, obj term) -> class name | None
        self.this_cls = this_cls
        self.serial = itertools.count(1)
        self.tmpsrc = {}
        self.tmpval = {}
        self.unsigned = set()
        self.ttype = {}
        self.throws = [[]]
        self.depth = 0
        self.steps = steps
        self.truncated = 0
        self.analysed = set()
        self.inline_stack = []
        self.lam_args = opaque_lambda_calls

    # ------------------------------------------------------------ terms
    def fresh(self, what, t=None):
        r = ("r", what, next(self.serial))
        if t is not None:
            self.note_type(r, t)
        return r

    def note_type(self, term, t):
        t = strip_type(t) if t else t
        if t:
            self.ttype.setdefault(term, t)
            if t in UNSIGNED or t == "size_t":
                self.unsigned.add(term)

    @staticmethod
    def const(v):
        return ("c", v)

    def lin(self, t):
        """(constant, {atom: coefficient}) of an integer term, or None."""
        if t[0] == "c":
            if isinstance(t[1], bool):
                return (int(t[1]), {})
            if isinstance(t[1], int):
                return (t[1], {})
            return None
        if t[0] == "enum":
            return (t[2], {})
        if t[0] == "lin":
            return (t[1], dict(t[2]))
        if t[0] == "m" and t[1] in ("std::basic_string_view::size", "std::basic_string_view::length") and t[2][:1] == ("s",) and len(t[2]) == 2 and isinstance(t[2][1], str):
            return (len(t[2][1]), {})       # of a literal
        return (0, {t: 1})

    def mk_lin(self, c, d):
        d = {k: v for k, v in d.items() if v != 0}
        if not d:
            return ("c", c)
        if c == 0 and len(d) == 1:
            (k, v), = d.items()
            if v == 1:
                return k
        return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))

    def add(self, a, b, sb=1):
        x, y = self.lin(a), self.lin(b)
        if x is None or y is None:
            return ("op", "+" if sb == 1 else "-", a, b)
        d = dict(x[1])
        for k, v in y[1].items():
            d[k] = d.get(k, 0) + sb * v
        return self.mk_lin(x[0] + sb * y[0], d)

    def mul(self, a, b):
        if a[0] in ("c", "enum") and b[0] in ("c", "enum"):
            return ("c", a[-1] * b[-1]) if a[0] == "c" and b[0] == "c" else ("op", "*", a, b)
        for p, q in ((a, b), (b, a)):
            if p[0] == "c" and isinstance(p[1], int):
                x = self.lin(q)
                if x is not None:
                    return self.mk_lin(p[1] * x[0], {k: p[1] * v for k, v in x[1].items()})
        a, b = sorted((a, b), key=repr)
        return ("op", "*", a, b)

    # a condition is represented as (atom, polarity); atoms are hashable
    def cond_lt(self, a, b, isfloat=False):
        """atom/polarity of a < b"""
        if isfloat:
            return (("lt", a, b), True)
        if a[0] == "addr" or b[0] == "addr" or self.lin(a) is None or self.lin(b) is None:
            return (("lt", a, b), True)
        d = self.lin(self.add(b, a, -1))
        return self._pos(d[0], d[1])

    def _pos(self, c, d):
        """c + sum(d) > 0 in canonical sign"""
        d = {k: v for k, v in d.items() if v != 0}
        if not d:
            return (None, c > 0)
        items = sorted(d.items(), key=lambda kv: repr(kv[0]))
        if items[0][1] < 0:
            return (("pos", 1 - c, tuple((k, -v) for k, v in items)), False)
        return (("pos", c, tuple(items)), True)

    def cond_eq(self, a, b):
        if a == b:
            return (None, True)
        if a == NULL or b == NULL:
            return self.cond_has(b if a == NULL else a, neg=True)
        if a[0] == "s" and b[0] == "s":
            return (None, a[1] == b[1])
        for p, q in ((a, b), (b, a)):   # a flag that is compared with true or with false
            if p[0] == "c" and isinstance(p[1], bool) and q[0] in ("m", "r", "t", "init", "e", "fld"):
                at, pol = self.cond_has(q)
                return (at, pol == p[1]) if at is not None else (None, pol == p[1])
        x, y = self.lin(a), self.lin(b)
        num = lambda t: t[0] in ("lin",) or (t[0] == "c" and not isinstance(t[1], float)) or t[0] == "enum"
        if x is not None and y is not None and (num(a) or num(b)):
            d = self.lin(self.add(a, b, -1))
            c, dd = d
            if not dd:
                return (None, c == 0)
            items = sorted(dd.items(), key=lambda kv: repr(kv[0]))
            if items[0][1] < 0:
                c, items = -c, [(k, -v) for k, v in items]
            return (("eq0", c, tuple(items)), True)
        p, q = sorted((a, b), key=repr)
        return (("eq", p, q), True)

    def cond_has(self, v, neg=False):
        k = v[0]
        if v == NULL:
            return (None, neg)
        if k in ("some", "new", "addr", "lambda", "fnref", "s"):
            return (None, not neg)
        if k == "c":
            return (None, bool(v[1]) != neg)
        return (("has", v), not neg)

    # -- intervals on linear forms
    def _bounds(self, st, items):
        """(lo, hi) of sum(items)"""
        iv = st.iv.get(items)
        lo, hi = (iv[0], iv[1]) if iv else (None, None)
        inv = st.iv.get(tuple((k, -v) for k, v in items))
        if inv:
            l, h = (-inv[1] if inv[1] is not None else None), (-inv[0] if inv[0] is not None else None)
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
        # from single atoms
        tl, th = 0, 0
        for k, v in items:
            a = st.iv.get(((k, 1),))
            al, ah = (a[0], a[1]) if a else (None, None)
            if al is None and k in self.unsigned:
                al = 0
            l, h = (al, ah) if v > 0 else (ah, al)
            tl = None if tl is None or l is None else tl + v * l
            th = None if th is None or h is None else th + v * h
        if tl is not None and (lo is None or tl > lo):
            lo = tl
        if th is not None and (hi is None or th < hi):
            hi = th
        if iv and iv[2]:
            while lo is not None and lo in iv[2]:
                lo += 1
            while hi is not None and hi in iv[2]:
                hi -= 1
        return lo, hi

    def decide(self, st, atom):
        """True / False / None"""
        if atom in st.facts:
            return st.facts[atom]
        k = atom[0]
        if k == "pos":
            lo, hi = self._bounds(st, atom[2])
            if lo is not None and lo + atom[1] > 0:
                return True
            if hi is not None and hi + atom[1] <= 0:
                return False
        elif k == "eq0":
            lo, hi = self._bounds(st, atom[2])
            v = -atom[1]
            if lo is not None and v < lo:
                return False
            if hi is not None and v > hi:
                return False
            if lo is not None and lo == hi == v:
                return True
            iv = st.iv.get(atom[2])
            if iv and v in iv[2]:
                return False
        elif k == "lt":
            if (("lt", atom[2], atom[1])) in st.facts and st.facts[("lt", atom[2], atom[1])]:
                return False
        return None

    def assume(self, st, atom, val):
        st.facts[atom] = val
        k = atom[0]
        if k == "pos":
            lo, hi, ne = st.iv.get(atom[2], (None, None, frozenset()))
            if val:
                b = 1 - atom[1]
                if lo is None or b > lo:
                    lo = b
            else:
                b = -atom[1]
                if hi is None or b < hi:
                    hi = b
            st.iv[atom[2]] = (lo, hi, ne)
            self._tighten(st, atom[2])
        elif k == "eq0":
            lo, hi, ne = st.iv.get(atom[2], (None, None, frozenset()))
            v = -atom[1]
            if val:
                lo = hi = v
            else:
                ne = ne | {v}
            st.iv[atom[2]] = (lo, hi, ne)
            self._tighten(st, atom[2])

    def _tighten(self, st, items):
        lo, hi, ne = st.iv[items]
        if len(items) == 1 and lo is None and items[0][0] in self.unsigned and items[0][1] == 1:
            lo = 0
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        st.iv[items] = (lo, hi, ne)

    def feasible(self, st, atom, val):
        d = self.decide(st, atom)
        return d is None or d == val

    def branch(self, st, cond, ev=None):
        """[(state, bool)] for a condition (atom, polarity)."""
        atom, pol = cond
        if atom is None:
            return [(st, pol)]
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d == pol)]
        s2 = st.fork()
        out = []
        for s, v in ((st, True), (s2, False)):
            self.assume(s, atom, v)
            s.trace.append(Ev("fact", atom, (v,), line=ev.get("l", 0) if ev else 0, fn=s.frame.fn if s.frame else None))
            out.append((s, v == pol))
        return out

    # ------------------------------------------------------------ memory
    def read(self, st, L, t=None):
        if L in st.store:
            v = st.store[L]
            if v[0] in ("init", "new", "r", "fld", "elt"):
                names = self._subs(st, L)
                if names:
                    base = v[1] if v[0] == "init" else ("*", v)
                    return ("agg", base, tuple((q, self.read(st, ("f", L, q))) for q in names))
            return v
        # enclosing object assigned as a whole?
        path = []
        P = L
        while P[0] in ("f", "e"):
            path.append(P)
            P = P[1]
            if P in st.store:
                v = st.store[P]
                for q in reversed(path):
                    v = self.project(v, q)
                if t:
                    self.note_type(v, t)
                return v
        # sub-locations assigned individually -> aggregate
        if t is None or strip_type(t) not in UNSIGNED:
            names = self._subs(st, L)
            if names:
                return ("agg", L, tuple((q, self.read(st, ("f", L, q))) for q in names))
        v = ("init", L)
        if t:
            self.note_type(v, t)
        return v

    @staticmethod
    def _subs(st, L):
        """Names of the fields of L that have been assigned individually."""
        out = set()
        for k in st.store:
            while k[0] in ("f", "e"):
                if k[0] == "f" and k[1] == L:
                    if isinstance(k[2], str) and k[2] != "*":
                        out.add(k[2])
                    break
                k = k[1]
        return sorted(out)

    def project(self, v, q):
        if q[0] == "f":
            if v[0] == "init":
                return ("init", ("f", v[1], q[2]))
            if v[0] == "agg":
                for k, x in v[2]:
                    if k == q[2]:
                        return x
                if v[1][0] == "*" and v[1][1][0] in ("r", "fld", "elt"):
                    return ("fld", v[1][1], q[2])
                return ("init", ("f", v[1], q[2]))
            return ("fld", v, q[2])
        if v[0] == "init":
            return ("init", ("e", v[1], q[2]))
        return ("elt", v, q[2])

    def write(self, st, L, v, node=None, quiet=False):
        # drop sub-locations
        dead = [k for k in st.store if self._below(k, L)]
        for k in dead:
            del st.store[k]
        if v[0] == "agg":
            base = ("init", v[1]) if v[1] != L else None
            if base:
                st.store[L] = base
            for k, x in v[2]:
                st.store[("f", L, k)] = x
        else:
            st.store[L] = v
        if L[0] == "e" or self._root(L)[0] == "*":
            # weak aliasing: element writes invalidate other elements
            if L[0] == "e":
                for k in [k for k in st.store if k[0] == "e" and k[1] == L[1] and k != L and not (k[2][0] == "c" and L[2][0] == "c")]:
                    st.store[k] = self.fresh("elt")
        if not quiet and not self._local(L):
            st.trace.append(Ev("write", self._fname(L), (v,), L, node.get("l", 0) if node else 0, st.frame.fn, node))
        elif not quiet:
            st.trace.append(Ev("lwrite", self._fname(L), (v,), L, node.get("l", 0) if node else 0, st.frame.fn, node))

    @staticmethod
    def _root(L):
        while L[0] in ("f", "e"):
            L = L[1]
        return L

    def _local(self, L):
        return self._root(L)[0] in ("v", "t")

    @staticmethod
    def _fname(L):
        if L[0] == "f":
            return L[2]
        if L[0] == "v":
            return L[3]
        if L[0] == "g":
            return L[1]
        return L[0]

    @staticmethod
    def _below(k, L):
        while k[0] in ("f", "e"):
            k = k[1]
            if k == L:
                return True
        return False

    def deref(self, v):
        """Lvalue that pointer/reference value v designates."""
        if v[0] == "addr":
            return v[1]
        return ("*", v)

    # ------------------------------------------------------------ variables
    def var_loc(self, st, n):
        d = n["d"]
        fr = st.frame
        while fr is not None:
            if d in fr.caps:
                return fr.caps[d]
            L = ("v", fr.id, d, n.get("n", "?"))
            if L in st.store or fr.parent is None:
                return L
            # declared in this frame?
            fr2 = fr.parent
            if any(k[0] == "v" and k[1] == fr.id and k[2] == d for k in st.store):
                return L
            fr = fr2
        return ("v", st.frame.id, d, n.get("n", "?"))

    # ------------------------------------------------------------ lvalues
    def lv(self, e, st):
        """Yields (state, location)."""
        k = e.get("k")
        if k in ("move", "fwd", "icast"):
            yield from self.lv(e["e"], st)
            return
        if k == "cast":
            ck = e.get("castkind")
            if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "ConstructorConversion"):
                yield from self.lv(e["e"], st)
                return
        if k == "defarg" or k == "definit":
            yield from self.lv(e["e"], st)
            return
        if k == "ref":
            dk = e["dk"]
            if dk in ("var", "parm", "slocal"):
                L = self.var_loc(st, e)
                v = st.store.get(L)
                if v is not None and v[0] == "ref":
                    yield st, v[1]
                else:
                    yield st, L
                return
            if dk == "global":
                yield st, ("g", e["qn"])
                return
        if k == "mem":
            if "svar" in e:
                yield st, ("g", e["svar"])
                return
            if "fn" not in e:
                if e.get("arrow"):
                    for s, p in self.ev(e["b"], st):
                        L = ("f", self.deref(p), e["f"])
                        yield s, self._refield(s, L, e)
                else:
                    for s, b in self.lv(e["b"], st):
                        L = ("f", b, e["f"])
                        yield s, self._refield(s, L, e)
                return
        if k == "un" and e["op"] == "*":
            for s, p in self.ev(e["a"], st):
                yield s, self.deref(p)
            return
        if k == "un" and e["op"] in ("++", "--"):
            for s, L in self.incdec(e, st):
                yield s, L
            return
        if k == "this":
            yield st, ("t", 0)
            return
        if k == "index":
            for s, b in self.ev(e["a"], st):
                for s2, i in self.ev(e["i"], s):
                    yield s2, ("e", self.deref(b), i)
            return
        if k == "bin" and e["op"] == "=" or k == "bin" and e["op"] in ("+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%="):
            for s, v, L in self.assign(e, st):
                yield s, L
            return
        if k == "cond":
            for s, b in self.test(e["c"], st):
                yield from self.lv(e["a"] if b else e["b"], s)
            return
        if k == "call":
            for s, v, L in self.call(e, st):
                if L is None:
                    L = self.temp(s, v)
                    self.tmpval[L] = v
                    if v[0] == "fld":
                        self.tmpsrc[L] = v
                yield s, L
            return
        # rvalue: materialise
        for s, v in self.ev(e, st):
            if v[0] == "objat":
                yield s, v[1]
            else:
                yield s, self.temp(s, v)

    def _refield(self, st, L, e):
        """Location of a field, looking through reference-typed fields."""
        v = st.store.get(L)
        if v is not None and v[0] == "ref":
            return v[1]
        return L

    def temp(self, st, v):
        L = ("t", next(self.serial))
        self.write(st, L, v, quiet=True)
        return L

    # ------------------------------------------------------------ rvalues
    def ev(self, e, st):
        """Yields (state, value)."""
        self.steps -= 1
        if self.steps < 0:
            raise Budget("step budget exhausted in %s" % (st.frame.fn.name if st.frame else "?"))
        if e is None:
            yield st, ("void",)
            return
        k = e.get("k")
        f = getattr(self, "ev_" + k, None)
        if f is None:
            yield st, self.fresh(k, e.get("t"))
            return
        yield from f(e, st)

    def ev_int(self, e, st):
        v = e.get("v")
        if v is None:
            v = int(e["vs"]) if "vs" in e else 0
        yield st, ("c", v)

    def ev_bool(self, e, st):
        yield st, ("c", bool(e["v"]))

    def ev_char(self, e, st):
        yield st, ("c", e["v"])

    def ev_float(self, e, st):
        v = e["v"]
        yield st, ("c", float(v))

    def ev_str(self, e, st):
        yield st, ("s", e["v"])

    def ev_null(self, e, st):
        yield st, NULL

    def ev_zero(self, e, st):
        t = e.get("t", "")
        if is_ptr(t):
            yield st, NULL
        elif strip_type(t) in FLOATS:
            yield st, ("c", 0.0)
        elif strip_type(t) in UNSIGNED | SIGNED or t in self.m.enums or e.get("en"):
            yield st, ("c", 0)
        else:
            yield st, ("zero", strip_type(t))

    def ev_this(self, e, st):
        yield st, ("addr", st.frame.this)

    def ev_ref(self, e, st):
        dk = e["dk"]
        if dk == "enumc":
            yield st, ("enum", e["qn"], e.get("v", 0))
            return
        if dk == "func":
            yield st, ("fnref", e["fn"], e["id"])
            return
        if "v" in e and dk in ("global", "slocal", "var"):
            # constant
            L = None
            if dk == "var":
                yield st, ("c", e["v"])
                return
            yield st, ("c", e["v"])
            return
        if dk == "global" and e.get("qn") in ("std::nullopt",):
            yield st, NULL
            return
        for s, L in self.lv(e, st):
            self.note_read(s, L, e)
            yield s, self.read(s, L, e.get("t"))

    def note_read(self, s, L, e):
        if self.log_reads and not self._local(L):
            s.trace.append(Ev("read", self._fname(L), (), L, e.get("l", 0), s.frame.fn, e))

    def ev_mem(self, e, st):
        if "fn" in e:
            yield st, ("fnref", e["fn"], e["id"])
            return
        for s, L in self.lv(e, st):
            self.note_read(s, L, e)
            yield s, self.read(s, L, e.get("t"))

    def ev_index(self, e, st):
        for s, L in self.lv(e, st):
            yield s, self.read(s, L, e.get("t"))

    def ev_move(self, e, st):
        yield from self.ev(e["e"], st)

    ev_fwd = ev_move
    ev_defarg = ev_move
    ev_definit = ev_move

    def ev_addr(self, e, st):
        for s, L in self.lv(e["e"], st):
            yield s, L[1] if self.cuts is not None and L[0] == "*" and len(L) == 2 else ("addr", L)

    def ev_icast(self, e, st):
        for s, v in self.ev(e["e"], st):
            yield s, v

    def ev_cast(self, e, st):
        ck = e.get("castkind")
        if ck == "ToVoid":
            for s, v in self.ev(e["e"], st):
                yield s, ("void",)
            return
        if e.get("ck") == "dynamic":
            for s, v in self.ev(e["e"], st):
                yield s, ("dyn", strip_type(e["t"]), v)
            return
        if ck in ("FloatingToIntegral",):
            for s, v in self.ev(e["e"], st):
                if v[0] == "c":
                    yield s, ("c", int(v[1]))
                else:
                    r = ("trunc", v)
                    self.note_type(r, e.get("t"))
                    yield s, r
            return
        for s, v in self.ev(e["e"], st):
            yield s, v

    def ev_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            for s, b in self.test(e, st):
                yield s, ("c", b)
            return
        if op in ("==", "!=", "<", ">", "<=", ">="):
            for s, c in self.compare(e, st):
                if c[0] is None:
                    yield s, ("c", c[1])
                else:
                    yield s, ("cond", c[0], c[1])
            return
        if op == ",":
            for s, _ in self.ev(e["a"], st):
                yield from self.ev(e["b"], s)
            return
        if op.endswith("="):
            for s, v, L in self.assign(e, st):
                yield s, v
            return
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                yield s2, self.arith(op, a, b, e)

    def arith(self, op, a, b, e):
        t = strip_type(e.get("t", ""))
        if op == "+" and t not in FLOATS:
            r = self.add(a, b)
        elif op == "-" and t not in FLOATS:
            r = self.add(a, b, -1)
        elif op == "*" and t not in FLOATS:
            r = self.mul(a, b)
        elif a[0] == "c" and b[0] == "c" and not isinstance(a[1], str):
            x, y = a[1], b[1]
            try:
                r = ("c", {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                           "/": lambda: x / y if t in FLOATS else x // y, "%": lambda: x % y,
                           "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                           "<<": lambda: x << y, ">>": lambda: x >> y}[op]())
            except (ZeroDivisionError, KeyError, TypeError):
                r = ("op", op, a, b)
        elif op in ("/", "<<", ">>") and b == ("c", 1 if op == "/" else 0) and t not in FLOATS:
            r = a
        elif op in ("&", "|", "^", "+", "*"):
            p, q = sorted((a, b), key=repr)
            r = ("op", op, p, q)
        else:
            r = ("op", op, a, b)
        if r[0] not in ("c", "lin"):
            self.note_type(r, t)
        return r

    def compare(self, e, st):
        """Yields (state, (atom, polarity))."""
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                yield s2, self.cmp(e["op"], a, b, e)

    def cmp(self, op, a, b, e=None):
        fl = False
        for x, n in ((a, e and e.get("a")), (b, e and e.get("b"))):
            if n and strip_type((n or {}).get("t", "") or "") in FLOATS or (x[0] == "c" and isinstance(x[1], float)):
                fl = True
        if op in ("==", "!="):
            # boolean conditions compared with constants
            for p, q in ((a, b), (b, a)):
                if p[0] == "cond" and q[0] == "c" and q[1] in (0, 1, True, False):
                    at, pol = p[1], p[2]
                    r = (at, pol == bool(q[1]))
                    return (r[0], r[1] if op == "==" else not r[1])
            at, pol = self.cond_eq(a, b)
            return (at, pol if op == "==" else not pol)
        if fl and a[0] == "c" and b[0] == "c":
            v = {"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]
            return (None, v)
        if op == "<":
            return self.cond_lt(a, b, fl)
        if op == ">":
            return self.cond_lt(b, a, fl)
        if op == "<=":
            if fl:
                return (("le", a, b), True)
            at, pol = self.cond_lt(b, a)
            return (at, not pol)
        if fl:
            return (("le", b, a), True)
        at, pol = self.cond_lt(a, b)
        return (at, not pol)

    def ev_un(self, e, st):
        op = e["op"]
        if op == "!":
            for s, b in self.test(e, st):
                yield s, ("c", b)
            return
        if op == "&":
            a = e["a"]
            if a.get("k") == "ref" and a.get("dk") == "func":
                yield st, ("fnref", a["fn"], a["id"])
                return
            for s, L in self.lv(a, st):
                yield s, ("addr", L)
            return
        if op == "*":
            for s, L in self.lv(e, st):
                yield s, self.read(s, L, e.get("t"))
            return
        if op in ("++", "--", "p++", "p--"):
            post = op[0] == "p"
            for s, L in self.lv(e["a"], st):
                old = self.read(s, L, e.get("t"))
                new = self.add(old, ("c", 1 if op.endswith("++") else -1))
                self.write(s, L, new, e)
                yield s, (old if post else new)
            return
        for s, v in self.ev(e["a"], st):
            if op == "-":
                if v[0] == "c":
                    yield s, ("c", -v[1])
                elif strip_type(e.get("t", "")) in FLOATS:
                    yield s, ("op", "neg", v)
                else:
                    yield s, self.mul(("c", -1), v)
            elif op == "~" and v[0] == "c":
                yield s, ("c", ~v[1])
            elif op == "+":
                yield s, v
            else:
                yield s, ("op", op, v)

    def incdec(self, e, st):
        for s, L in self.lv(e["a"], st):
            old = self.read(s, L, e.get("t"))
            self.write(s, L, self.add(old, ("c", 1 if e["op"] == "++" else -1)), e)
            yield s, L

    def assign(self, e, st):
        """Yields (state, value, location)."""
        op = e["op"]
        for s, v in self.ev(e["b"], st):
            for s2, L in self.lv(e["a"], s):
                if op != "=":
                    old = self.read(s2, L, e.get("t"))
                    nv = self.arith(op[:-1], old, v, e)
                else:
                    nv = v
                self.write(s2, L, nv, e)
                yield s2, nv, L

    def ev_cond(self, e, st):
        for s, b in self.test(e["c"], st):
            yield from self.ev(e["a"] if b else e["b"], s)

    def ev_throw(self, e, st):
        if e.get("e") is None:
            s = st
            s.exc = ("rethrow",) if s.exc is None else s.exc
            s.trace.append(Ev("throw", "rethrow", (), None, e["l"], s.frame.fn, e))
            s.exc = s.facts.get(("current_exc",)) or ("exc", "?", ("c", 0))
            self.throws[-1].append(s)
            return
        for s, v in self.ev(e["e"], st):
            s.exc = ("exc", strip_type(e["t"]), v)
            s.trace.append(Ev("throw", strip_type(e["t"]), (v,), None, e["l"], s.frame.fn, e))
            self.throws[-1].append(s)
        return
        yield  # pragma: no cover

    def ev_lambda(self, e, st):
        caps = {}
        env = st.frame
        for c in e.get("caps", ()):
            if c.get("this"):
                continue
            if "d" in c and not c["ref"]:
                L = ("t", next(self.serial))
                if c.get("init"):
                    for s, v in self.ev(c["init"], st):
                        st = s
                        self.write(st, L, v, quiet=True)
                        break
                caps[c["d"]] = L
        yield st, ("lambda", e["cls"], next(self.serial), LamBox(e, env, caps))

    def ev_init(self, e, st):
        t = strip_type(e.get("t", ""))
        items = e.get("a", [])
        if not items and (t in UNSIGNED | SIGNED or t in self.m.enums or e.get("en")):
            yield st, ("c", 0)
            return
        if not items and t in FLOATS:
            yield st, ("c", 0.0)
            return
        if not items and (is_ptr(e.get("t", "")) or t == "std::nullptr_t" or base_name(t) in SMART):
            yield st, NULL
            return
        if len(items) == 1 and not e.get("fields") and (t in UNSIGNED | SIGNED | FLOATS or is_ptr(e.get("t", "")) or t in self.m.enums):
            yield from self.ev(items[0], st)
            return
        for s, vs in self.ev_list(items, st):
            fl = e.get("fields")
            if fl:
                yield s, ("agg", ("t", next(self.serial)), tuple(sorted(zip(fl, vs), key=lambda kv: kv[0])))
            else:
                yield s, ("list", t) + tuple(vs)

    def ev_list(self, es, st):
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        for s, vs in acc:
            yield s, vs

    def ev_new(self, e, st):
        t = e["nt"]
        if e.get("size") is not None or e.get("init") is None:
            L = ("heap", t, next(self.serial))
            for s, sz in (self.ev(e["size"], st) if e.get("size") else [(st, None)]):
                s.trace.append(Ev("new", t, (sz,) if sz else (), L, e["l"], s.frame.fn, e))
                yield s, ("addr", L)
            return
        L = ("heap", t, next(self.serial))
        for s, v in self.construct(e["init"], st, L):
            s.trace.append(Ev("new", t, (), L, e["l"], s.frame.fn, e))
            yield s, ("addr", L)

    def ev_delete(self, e, st):
        for s, v in self.ev(e["e"], st):
            s.trace.append(Ev("delete", None, (v,), None, e["l"], s.frame.fn, e))
            yield s, ("void",)

    def ev_other(self, e, st):
        for s, vs in self.ev_list(e.get("ch", []), st):
            yield s, self.fresh(e["c"], e.get("t"))

    def ev_typeid(self, e, st):
        yield st, self.fresh("typeid")

    # ------------------------------------------------------------ tests
    def test(self, e, st):
        """Yields (state, bool)."""
        k = e.get("k")
        if k in ("icast", "fwd", "move") or (k == "cast" and strip_type(e.get("t", "")) == "bool"):
            yield from self.test(e["e"], st)
            return
        if k == "un" and e["op"] == "!":
            for s, b in self.test(e["a"], st):
                yield s, not b
            return
        if k == "bin" and e["op"] in ("&&", "||"):
            stop = e["op"] == "||"
            for s, b in self.test(e["a"], st):
                if b == stop:
                    yield s, b
                else:
                    yield from self.test(e["b"], s)
            return
        if k == "bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">="):
            for s, c in self.compare(e, st):
                yield from self.branch(s, c, e)
            return
        if k == "cond":
            for s, b in self.test(e["c"], st):
                yield from self.test(e["a"] if b else e["b"], s)
            return
        for s, v in self.ev(e, st):
            yield from self.truth(s, v, e)

    def truth(self, st, v, e=None):
        if v[0] == "c":
            yield st, bool(v[1])
        elif v[0] == "cond":
            yield from self.branch(st, (v[1], v[2]), e)
        elif v[0] == "enum":
            yield st, bool(v[2])
        else:
            t = strip_type((e or {}).get("t", "") or "")
            if t in (UNSIGNED | SIGNED) - {"bool"}:
                at, pol = self.cond_eq(v, ("c", 0))
                yield from self.branch(st, (at, not pol), e)
            else:
                yield from self.branch(st, self.cond_has(v), e)

    # ------------------------------------------------------------ calls
    def ev_ctor(self, e, st):
        for s, v in self.construct(e, st, None):
            yield s, v

    def ev_call(self, e, st):
        for s, v, L in self.call(e, st):
            if L is not None and v is None:
                v = self.read(s, L, e.get("t"))
            yield s, v

    def eval_args(self, e, st, params=None):
        """Yields (state, values, locations)."""
        acc = [(st, [], [])]
        mut = set(e.get("mut", ()))
        for i, a in enumerate(e.get("args", [])):
            nxt = []
            byref = (i in mut and not is_ptr_param(a)) or (params is not None and i < len(params) and is_ref(params[i]["t"]))
            for s, vs, ls in acc:
                if byref and is_lvalue(a):
                    for s2, L in self.lv(a, s):
                        nxt.append((s2, vs + [self.read(s2, L, a.get("t"))], ls + [L]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v], ls + [None]))
            acc = nxt
        yield from acc

    def construct(self, e, st, L):
        """Construct an object (at L if given). Yields (state, value)."""
        k = e.get("k")
        if k != "ctor":
            for s, v in self.ev(e, st):
                if L is not None:
                    self.write(s, L, v, e, quiet=True)
                yield s, v
            return
        cls = e.get("cls", "")
        base = base_name(cls)
        fname = e.get("fn", "")
        f = self.m.resolve_call(e, st.frame.fn.tu) if st.frame else None
        inline_copy = self.user_copy(f) and f.body is not None and not self.opaque(f, e) and base not in SMART and not fname.startswith("mlio::Intrusive_ptr::")
        if (e.get("copy") or e.get("mv")) and not inline_copy:
            a = e["args"][0]
            for s, Ls in (self.lv(a, st) if is_lvalue(a) else ((s, None) for s, _ in [])) if is_lvalue(a) else []:
                v = self.read(s, Ls, a.get("t"))
                s.trace.append(Ev("copy" if e.get("copy") else "movector", base, (v,), Ls, e["l"], s.frame.fn, e))
                if e.get("mv") and a.get("k") == "move":
                    self.moved_from(s, Ls, cls, a)
                if L is not None:
                    self.write(s, L, v, e, quiet=True)
                yield s, v
            if is_lvalue(a):
                return
            for s, v in self.ev(a, st):
                if L is not None:
                    self.write(s, L, v, e, quiet=True)
                yield s, v
            return
        if base in SMART or fname.startswith("mlio::Intrusive_ptr::"):
            yield from self.smart_ctor(e, st, L, base)
            return
        if base in ("std::nullopt_t",):
            yield st, NULL
            return
        if f is not None and f.body is not None and not self.opaque(f, e) and self.depth < self.max_depth and base not in self.inline_stack:
            LL = L if L is not None else ("t", next(self.serial))
            for s, vs, ls in self.eval_args(e, st, f.params):
                for s2, r in self.invoke(f, s, LL, vs, ls, e):
                    v = self.read(s2, LL)
                    yield s2, (v if v[0] != "init" else ("objat", LL))
            return
        for s, vs, ls in self.eval_args(e, st):
            h = self.hook(s, e, fname, None, None, vs, ls)
            if h is not None:
                for s2, v in h:
                    if L is not None:
                        self.write(s2, L, v, e, quiet=True)
                    yield s2, v
                continue
            if base == "std::basic_string" or base.endswith("string_view"):
                if len(vs) == 1 and vs[0][0] == "s":
                    v = vs[0]
                elif not vs:
                    v = ("s", "")
                elif len(vs) == 1:
                    v = vs[0]
                else:
                    v = ("new", base, next(self.serial)) + tuple(vs)
            elif base == "std::function" and len(vs) == 1:
                v = vs[0]
            elif base == "std::atomic":
                v = vs[0] if vs else ("c", 0)
            elif len(vs) == 1 and vs[0][0] == "list" and base in ("std::initializer_list", "std::vector"):
                v = vs[0]
            else:
                v = ("new", base, next(self.serial)) + tuple(vs)
            for s3 in self.opaque_effects(s, e, fname, None, vs, ls):
                s3.trace.append(Ev("ctor", fname, tuple(vs), L, e["l"], s3.frame.fn, e, extra=v, locs=tuple(ls)))
                if L is not None:
                    self.write(s3, L, v, e, quiet=True)
                yield s3, v

    @staticmethod
    def user_copy(f):
        return f is not None and not f.flag("defaulted")

    def moved_from(self, st, L, cls, node):
        b = base_name(cls)
        if b in ("std::unique_ptr", "std::shared_ptr", "mlio::Intrusive_ptr"):
            self.write(st, L, NULL, node, quiet=self._local(L))
        elif b != "std::optional":
            pass

    def smart_ctor(self, e, st, L, base):
        args = e.get("args", [])
        if not args:
            v = NULL
            if L is not None:
                self.write(st, L, v, e, quiet=True)
            yield st, v
            return
        a = args[0]
        src = unwrap(a) if a.get("k") == "move" else None
        at = base_name((a.get("t") or ""))
        for s, vs, ls in self.eval_args(e, st):
            v = vs[0]
            if base == "std::optional":
                if at == "std::nullopt_t" or v == NULL and at in ("std::nullopt_t", ""):
                    v = NULL
                elif at == "std::optional":
                    pass
                elif v[0] != "some":
                    v = ("some", v)
            else:
                if a.get("k") == "move" and is_lvalue(src):
                    for s2, Ls in self.lv(src, s):
                        self.moved_from(s2, Ls, e.get("cls", ""), e)
                        break
                if len(vs) > 1 and vs[1] == ("c", True) and base.endswith("Intrusive_ptr"):
                    pass
            s.trace.append(Ev("ctor", e["fn"], tuple(vs), L, e["l"], s.frame.fn, e, extra=v))
            if L is not None:
                self.write(s, L, v, e, quiet=True)
            yield s, v

    def hook(self, st, e, fname, oL, ov, vs, ls):
        if self.on_call is None:
            return None
        r = self.on_call(self, st, e, fname, oL, ov, vs, ls)
        if r is None:
            return None
        if r == "throw":
            self.throws[-1].append(st)
            return []
        return r

    def throw(self, st, typ, line=0, value=("c", 0)):
        """For hooks: divert state st as throwing `typ`."""
        st.exc = ("exc", typ, value)
        st.trace.append(Ev("throw", typ, (value,), None, line, st.frame.fn))
        self.throws[-1].append(st)

    PTR_METHODS = {"operator->", "operator*", "get", "value"}

    def call(self, e, st):
        """Yields (state, value, location or None)."""
        self.steps -= 1
        fname = e.get("fn")
        if fname is None:
            yield from self.call_indirect(e, st)
            return
        short = fname.rsplit("::", 1)[-1]
        obj = e.get("obj")
        fnr = self.m.resolve_call(e, st.frame.fn.tu) if e.get("nr") else None
        if (e.get("nr") or fname in ("__assert_fail", "std::terminate", "abort", "exit")) and (fnr is None or fnr.body is None):
            for s, vs, ls in self.eval_args(e, st):
                if fname in ("std::rethrow_exception", "std::throw_with_nested"):
                    t = "?"
                    if fname == "std::throw_with_nested":
                        t = strip_type(e["args"][0].get("t", "?"))
                    s.trace.append(Ev("throw", t, tuple(vs), None, e["l"], s.frame.fn, e, extra=(short, s.facts.get(("current_exc",))), locs=tuple(ls)))
                    s.exc = ("exc", t, vs[0])
                    self.throws[-1].append(s)
                    continue
                s.trace.append(Ev("noreturn", fname, tuple(vs), None, e["l"], s.frame.fn, e))
            return
        # lambda call operator
        if obj is not None and fname.startswith("lambda@") and short == "operator()":
            for s, ov in self.ev(obj, st):
                if ov[0] == "lambda":
                    for s2, vs, ls in self.eval_args(e, s, ov[3].node.get("params")):
                        for s3, r in self.invoke_lambda(ov, s2, vs, ls):
                            yield s3, r, (self.deref(r) if r[0] == "addrref" else None)
                    continue
                yield s, self.fresh(fname, e.get("t")), None
            return
        cls = base_name(e.get("cls", ""))
        if obj is not None and cls in SMART or cls == "std::optional":
            r = self.smart_method(e, st, short, cls)
            if r is not None:
                yield from r
                return
        op = e.get("op")
        if obj is not None and cls in ("std::atomic", "std::__atomic_base", "std::atomic_flag"):
            yield from self.atomic_method(e, st, short, op, fname)
            return
        if obj is not None and cls == "std::__exception_ptr::exception_ptr" and short.startswith("operator bool"):
            for s, L in self.lv(obj, st):
                self.note_read(s, L, e)
                c = self.cond_has(self.read(s, L))
                yield s, (("c", c[1]) if c[0] is None else ("cond", c[0], c[1])), None
            return
        if fname == "std::current_exception":
            yield st, ("new", "std::current_exception", next(self.serial), st.facts.get(("current_exc",))), None
            return
        if obj is not None and fname.startswith("std::condition_variable") and short in ("wait", "wait_for", "wait_until"):
            yield from self.cv_wait(e, st, short, fname)
            return
        if op in ("==", "!=") and obj is None and len(e["args"]) == 2:
            # comparisons of smart pointers, optionals, strings, views, iterators
            f = self.m.resolve_call(e, st.frame.fn.tu)
            if f is not None and f.body is not None and not self.opaque(f, e) and f.name.startswith("mlio::"):
                for s, vs, ls in self.eval_args(e, st, f.params):
                    h = self.hook(s, e, fname, None, None, vs, ls)
                    for s3, v in (h if h is not None else ((x, y) for x, y in self.invoke(f, s, None, vs, ls, e))):
                        yield s3, v, None
                return
            for s, a in self.ev(e["args"][0], st):
                for s2, b in self.ev(e["args"][1], s):
                    h = self.hook(s2, e, fname, None, None, [a, b], [None, None])
                    if h is not None:
                        for s3, v in h:
                            yield s3, v, None
                        continue
                    f = self.m.resolve_call(e, s2.frame.fn.tu)
                    if f is not None and f.body is not None and not self.opaque(f, e) and a != NULL and b != NULL and a[0] not in ("s",) and b[0] not in ("s",):
                        for s3, r in self.invoke(f, s2, None, [a, b], [None, None], e):
                            yield s3, r, None
                        continue
                    if a[0] == "some" and b[0] not in ("some", "null") and base_name(e["args"][1].get("t") or "") != "std::optional":
                        a = a[1]
                    c = self.cmp(op, a, b, None)
                    yield s2, (("c", c[1]) if c[0] is None else ("cond", c[0], c[1])), None
            return
        if fname in ("std::make_unique", "std::make_shared") or short == "make_intrusive":
            yield from self.make_ptr(e, st, fname)
            return
        if fname == "std::make_optional" and e.get("ta"):
            t = base_name(strip_type(e["ta"][0]))
            cs = [g for g in self.m.methods(t) if g.is_ctor and g.body is not None and len(g.params) == len(e["args"])] if t in self.m.classes else []
            if len(cs) == 1:
                nd = {"k": "ctor", "cls": t, "fn": cs[0].name, "id": cs[0].id, "args": e["args"], "l": e["l"], "t": t}
                for s, v in self.construct(nd, st, None):
                    yield s, ("some", v), None
                return
            if len(e["args"]) == 1:
                for s, v in self.ev(e["args"][0], st):
                    yield s, ("some", v), None
                return
        if fname == "std::exchange" and len(e["args"]) == 2:
            for s, vs, ls in self.eval_args(e, st):
                if ls[0] is None:
                    yield s, self.fresh(fname, None), None
                    continue
                old = self.read(s, ls[0])
                s.trace.append(Ev("call", fname, tuple(vs), None, e["l"], s.frame.fn, e, extra=old, locs=tuple(ls)))
                new = vs[1]
                if new[0] == "zero":
                    new = NULL if base_name(e.get("t", "")) in SMART or base_name(e.get("t", "")) == "std::optional" else new
                self.write(s, ls[0], new, e)
                yield s, old, None
            return
        if fname in ("std::get",) and e.get("ta"):
            for s, v in self.ev(e["args"][0], st):
                yield s, ("fld", v, "get" + e["ta"][0]), None
            return
        if op == "=" and obj is not None:
            yield from self.op_assign(e, st, fname, cls)
            return
        # ordinary call
        f0 = self.m.resolve_call(e, st.frame.fn.tu)
        if obj is not None:
            objs = []
            if e.get("arrow"):
                for s, p in self.ev(obj, st):
                    objs.append((s, self.deref(p)))
            else:
                for s, L in self.lv(obj, st):
                    objs.append((s, L))
        else:
            objs = [(st, None)]
        for s, oL in objs:
            if e.get("static"):
                oL = None
            f = f0
            if e.get("virt") and f0 is not None or (e.get("virt") and e.get("own")):
                f = self.resolve_virtual(e, s, oL)
            for s2, vs, ls in self.eval_args(e, s, f.params if f is not None else None):
                ov = None
                if oL is not None:
                    ov = self.read(s2, oL)
                h = self.hook(s2, e, fname, oL, ov, vs, ls)
                if h is not None:
                    for s3, v in h:
                        yield s3, v, (self.deref(v[1]) if v[0] == "lval" else None)
                    continue
                if f is not None and f.body is not None and not self.opaque(f, e) and self.depth < self.max_depth and f.id not in self.inline_stack:
                    for s3, r in self.invoke(f, s2, oL, vs, ls, e):
                        if r[0] == "addrref":
                            yield s3, None, r[1]
                        else:
                            yield s3, r, None
                    continue
                yield from self.opaque_call(e, s2, fname, oL, ov, vs, ls, op)

    PURE_FREE = {"std::size", "std::begin", "std::end", "std::cbegin", "std::cend", "std::min", "std::max", "std::abs",
                 "std::next", "std::prev", "std::distance", "std::get", "std::tie", "std::make_pair", "std::strlen", "strlen",
                 "std::find", "std::find_if", "std::string_view", "std::round", "std::floor", "std::ceil", "std::isfinite", "std::isspace",
                 "std::numeric_limits::max", "std::numeric_limits::min"}

    # accessors of an interface that change nothing although they are not const, and the name their result goes by
    PURE_ACCESS = {"mlio::Mutable_memory_block::data": "mlio::Memory_block::data"}

    def opaque_call(self, e, st, fname, oL, ov, vs, ls, op):
        if fname in self.PURE_ACCESS and oL is not None:
            v = ("m", self.PURE_ACCESS[fname], self.value_id(st, oL), ())
            self.note_type(v, e.get("t", ""))
            st.trace.append(Ev("call", fname, tuple(vs), oL, e["l"], st.frame.fn, e, extra=v, locs=tuple(ls)))
            yield st, v, None
            return
        if fname.startswith("std::array::") and oL is not None and fname[12:] in ("begin", "cbegin", "end", "cend", "data"):
            v = ("m", "std::array::data", self.value_id(st, oL), ())
            if fname.endswith("end"):
                v = self.add(v, ("m", "std::array::size", self.value_id(st, oL), ()))
            st.trace.append(Ev("call", fname, tuple(vs), oL, e["l"], st.frame.fn, e, extra=v, locs=tuple(ls)))
            yield st, v, None
            return
        for s in self.opaque_effects(st, e, fname, oL, vs, ls):
            t = e.get("t", "")
            lvres = None
            short = fname.rsplit("::", 1)[-1]
            if oL is not None and e.get("const") or (oL is not None and fname.startswith("std::") and short in (
                    "begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "front", "back", "at", "operator[]", "find", "size", "empty")):
                if fname.startswith("std::") and short in ("empty", "length") and not vs:
                    sz = ("m", fname[:-len(short)] + "size", self.value_id(s, oL), ())
                    self.note_type(sz, "unsigned long")
                    if short == "length":
                        v = sz
                    else:
                        c = self.cond_eq(sz, ("c", 0))
                        v = ("c", c[1]) if c[0] is None else ("cond", c[0], c[1])
                else:
                    v = ("m", fname, self.value_id(s, oL), tuple(self.strip_val(x) for x in vs))
                if short in ("front", "back", "at", "operator[]"):
                    lvres = ("e", oL, vs[0] if vs else ("s", short))
                    v = self.read(s, lvres, t)
            elif oL is not None and op in ("++", "--") and fname.startswith(("std::", "__gnu_cxx::", "tbb::zip_iterator", "tbb::counting_iterator")):
                old = self.read(s, oL)
                new = self.add(old, ("c", 1 if op == "++" else -1))
                self.write(s, oL, new, e, quiet=True)
                v = old if vs else new
            elif oL is not None and op in ("+", "-") and len(vs) == 1 and (oL is not None):
                v = self.add(self.read(s, oL), vs[0], 1 if op == "+" else -1)
            elif oL is not None and op == "*" and not vs:
                it = self.read(s, oL)
                lvres = ("*", it)
                v = self.read(s, lvres, t)
            elif oL is not None and op == "->" and not vs:
                v = self.read(s, oL)
            elif oL is None and op in ("+", "-") and len(vs) == 2 and fname.startswith("__gnu_cxx"):
                v = self.add(vs[0], vs[1], 1 if op == "+" else -1)
            elif oL is None and op in ("<", ">", "<=", ">=") and len(vs) == 2:
                c = self.cmp(op, vs[0], vs[1])
                v = ("c", c[1]) if c[0] is None else ("cond", c[0], c[1])
            elif fname == "std::copy" and len(vs) == 3 and is_ptr(e.get("t", "")):
                v = self.add(vs[2], self.add(vs[1], vs[0], -1))
            elif fname == "std::copy_n" and len(vs) == 3 and is_ptr(e.get("t", "")):
                v = self.add(vs[2], vs[1])
            elif oL is None and (fname in self.PURE_FREE):
                v = ("m", fname, ("s", ""), tuple(self.strip_val(x) for x in vs))
            else:
                v = self.fresh(fname, None)
            if v[0] in ("m", "r") and fname not in ERROR_SIZES:
                self.note_type(v, t)
            s.trace.append(Ev("call", fname, tuple(vs), oL, e["l"], s.frame.fn, e, extra=v, locs=tuple(ls)))
            for x in vs:
                if x[0] == "lambda":
                    self.lambda_effects(x, s)
            yield s, v, lvres

    def lambda_effects(self, lam, st):
        """A library function may call the lambda: the captured variables that it changes are unknown afterwards."""
        box = lam[3]
        n = box.node
        body = n.get("body")
        if body is None and n.get("insts"):
            body = n["insts"][0].get("body")
        if body is None or box.env is None:
            return
        refs = {c["d"] for c in n.get("caps", ()) if c.get("ref") and "d" in c}
        if not refs:
            return
        vars_, _ = self.modified([body], st)
        for k in list(st.store):
            if k[0] == "v" and k[2] in vars_ and k[2] in refs and st.store[k][0] != "ref":
                st.store[k] = self.hv(st.store[k], k)

    @staticmethod
    def strip_val(v):
        return v

    def value_id(self, st, L):
        v = self.read(st, L)
        if v[0] == "init":
            return v[1]
        return v

    def opaque_effects(self, st, e, fname, oL, vs, ls):
        """Effects of a call whose body is not interpreted; yields states."""
        if self.may_throw(e):
            s2 = st.fork()
            s2.exc = ("exc", "?", ("c", 0))
            s2.trace.append(Ev("mthrow", fname, tuple(vs), oL, e["l"], s2.frame.fn, e))
            self.throws[-1].append(s2)
        short = fname.rsplit("::", 1)[-1]
        if fname.startswith(SYNC):
            yield st
            return
        # non-const method: object changes
        if oL is not None and not e.get("const") and e.get("op") not in ("*", "->", "[]") and short not in (
                "begin", "end", "rbegin", "rend", "data", "front", "back", "at", "find", "get", "operator*", "operator->"):
            if fname.startswith(("std::", "tbb::", "absl::", "google::", "__gnu_cxx::", "cv::")) and e.get("op") not in ("++", "--"):
                if short in ("clear",):
                    self.write(st, oL, ("new", "cleared", 0), e)
                else:
                    self.write(st, oL, ("mut", short, next(self.serial)), e)
        for i in () if READS_ARGS(fname) else e.get("mut", ()):
            if i < len(ls) and ls[i] is not None:
                if fname in ("std::swap",):
                    continue
                if short in ("emplace_back", "push_back", "emplace", "try_emplace", "emplace_hint", "insert", "insert_or_assign") and fname.startswith("std::") and i < len(e.get("args", ())) and (unwrap(e["args"][i]) or {}).get("k") in ("ref", "mem"):
                    continue    # an element is copied from it
                nv = self.fresh("out:" + fname)
                self.write(st, ls[i], nv, e)
            elif i < len(vs) and vs[i][0] == "addr":
                L = vs[i][1]
                if L[0] in ("v", "t", "f") and not fname.startswith(("std::vector::", "std::deque")):
                    self.write(st, L, self.fresh("out:" + fname), e)
        if fname == "std::swap" and len(ls) == 2 and ls[0] is not None and ls[1] is not None:
            self.write(st, ls[0], vs[1], e)
            self.write(st, ls[1], vs[0], e)
        yield st

    def resolve_virtual(self, e, st, oL):
        cls = None
        if self.virt is not None:
            cls = self.virt(self, st, e, oL)
        if cls is None and oL is not None:
            if oL == ("obj", "this") and self.this_cls:
                cls = self.this_cls
            elif oL[0] == "heap":
                cls = oL[1]
            elif oL[0] == "*" and oL[1][0] == "new":
                cls = oL[1][1]
        if cls is None:
            f = self.m.resolve_call(e, st.frame.fn.tu)
            # a final class or a value object: static type is dynamic type
            if oL is not None and oL[0] in ("v", "t") and not e.get("arrow"):
                return f
            if f is not None and not self.m.overriders(f.id):
                return f
            return None
        f = self.m.dispatch(e["id"], cls)
        return f

    def smart_method(self, e, st, short, cls):
        obj = e.get("obj")
        op = e.get("op")
        if short in ("operator->", "operator*", "get", "value") and obj is not None:
            return self._smart_deref(e, st, short, cls)
        if short in ("has_value", "operator bool", "operator"):
            return self._smart_has(e, st)
        if op == "=":
            return self._smart_assign(e, st, cls)
        if short == "reset":
            return self._smart_reset(e, st, cls)
        if short == "release":
            return self._smart_release(e, st, cls)
        if short == "swap":
            return self._smart_swap(e, st)
        if short == "emplace":
            return self._smart_emplace(e, st)
        return None

    def _smart_deref(self, e, st, short, cls):
        for s, L in self.lv(e["obj"], st):
            v = self.read(s, L, None)
            s.trace.append(Ev("deref", cls, (v,), L, e["l"], s.frame.fn, e))
            if short in ("operator->", "get"):
                if cls == "std::optional":
                    yield s, ("addr", self._opt_loc(v, L)), None
                else:
                    yield s, v, None
            else:
                if cls == "std::optional":
                    yield s, None, self._opt_loc(v, L)
                else:
                    yield s, None, self.deref(v)

    def _opt_loc(self, v, L):
        return ("f", L, "*")

    def _smart_has(self, e, st):
        for s, L0 in self.lv(e["obj"], st):
            self.note_read(s, L0, e)
            v = self.read(s, L0)
            c = self.cond_has(v)
            yield s, (("c", c[1]) if c[0] is None else ("cond", c[0], c[1])), None

    def _smart_assign(self, e, st, cls):
        a = e["args"][0]
        at = base_name(a.get("t") or "")
        u = unwrap(a)
        for s, v in self.ev(a, st):
            if cls == "std::optional" and at != "std::optional" and v != NULL:
                v = ("some", v)
            for s2, L in self.lv(e["obj"], s):
                if a.get("k") == "move" and is_lvalue(u) and cls != "std::optional":
                    for s3, Ls in self.lv(u, s2):
                        self.moved_from(s3, Ls, cls, e)
                        break
                s2.trace.append(Ev("ptrassign", cls, (v,), L, e["l"], s2.frame.fn, e))
                self.write(s2, L, v, e)
                yield s2, v, L

    def _smart_reset(self, e, st, cls):
        for s, L in self.lv(e["obj"], st):
            for s2, vs, ls in self.eval_args(e, s):
                v = vs[0] if vs else NULL
                s2.trace.append(Ev("ptrassign", cls, (v,), L, e["l"], s2.frame.fn, e))
                self.write(s2, L, v, e)
                yield s2, ("void",), None

    def _smart_release(self, e, st, cls):
        for s, L in self.lv(e["obj"], st):
            v = self.read(s, L)
            s.trace.append(Ev("release", cls, (v,), L, e["l"], s.frame.fn, e))
            self.write(s, L, NULL, e)
            yield s, v, None

    def _smart_swap(self, e, st):
        for s, L in self.lv(e["obj"], st):
            for s2, L2 in self.lv(e["args"][0], s):
                a, b = self.read(s2, L), self.read(s2, L2)
                self.write(s2, L, b, e)
                self.write(s2, L2, a, e)
                yield s2, ("void",), None

    def _smart_emplace(self, e, st):
        for s, L in self.lv(e["obj"], st):
            for s2, vs, ls in self.eval_args(e, s):
                v = ("some", ("new", "emplaced", next(self.serial)) + tuple(vs))
                self.write(s2, L, v, e)
                yield s2, v, ("f", L, "*")

    def make_ptr(self, e, st, fname):
        t = None
        if e.get("ta"):
            t = e["ta"][0]
        if t is None:
            a = targs(e.get("t", ""))
            t = a[0] if a else "?"
        t = strip_type(t)
        for s, vs, ls in self.eval_args(e, st):
            h = self.hook(s, e, fname, None, ("s", t), vs, ls)
            if h is not None:
                for s2, v in h:
                    yield s2, v, None
                continue
            v = ("new", t, next(self.serial)) + tuple(vs)
            s.trace.append(Ev("make", t, tuple(vs), None, e["l"], s.frame.fn, e, extra=v, locs=tuple(ls)))
            for i, L in enumerate(ls):
                a = e["args"][i]
                if a.get("k") == "move" and L is not None:
                    self.moved_from(s, L, a.get("t", ""), e)
            for i, a in enumerate(e["args"]):
                if ls[i] is None and a.get("k") == "move" and is_lvalue(a["e"]):
                    for s2, L in self.lv(a["e"], s):
                        self.moved_from(s2, L, a.get("t", ""), e)
                        break
            yield s, v, None

    def atomic_method(self, e, st, short, op, fname):
        for s, L in self.lv(e["obj"], st):
            for s2, vs, ls in self.eval_args(e, s):
                old = self.read(s2, L, e.get("t"))
                s2.trace.append(Ev("call", fname, tuple(vs), L, e["l"], s2.frame.fn, e, extra=old, locs=tuple(ls)))
                if short.startswith("compare_exchange"):
                    new = self.fresh("cas")
                    self.write(s2, L, new, e)
                    yield s2, self.fresh(short, e.get("t")), None
                    continue
                one = ("c", 1)
                new = None
                if op == "=" or short in ("store", "exchange", "test_and_set"):
                    new = vs[0] if vs else one
                elif op in ("++", "--"):
                    new = self.add(old, one, 1 if op == "++" else -1)
                elif op in ("+=", "-=") or short in ("fetch_add", "fetch_sub"):
                    new = self.add(old, vs[0], 1 if op == "+=" or short == "fetch_add" else -1)
                elif short == "clear":
                    new = ("c", 0)
                elif short.startswith("fetch_"):
                    new = self.fresh(short)
                if new is not None:
                    self.write(s2, L, new, e)
                res = new if op in ("=", "+=", "-=") or (op in ("++", "--") and not vs) else old
                yield s2, res, None

    def cv_wait(self, e, st, short, fname):
        """Waiting gives up the lock: everything the predicate reads (or, without
        one, every stored member) may have changed; with a predicate, it holds
        afterwards."""
        for s, L in self.lv(e["obj"], st):
            for s2, vs, ls in self.eval_args(e, s):
                s2.trace.append(Ev("call", fname, tuple(vs), L, e["l"], s2.frame.fn, e, extra=("c", 0), locs=tuple(ls)))
                lam = next((v for v in vs if v[0] == "lambda"), None)
                this = s2.frame.this
                for k in [k for k in s2.store if not self._local(k) and k[0] == "f"]:
                    s2.store[k] = self.fresh("woken:" + str(self._fname(k)))
                if lam is not None:
                    for n in walk(lam[3].node):
                        if n.get("k") == "mem" and "fn" not in n and "svar" not in n and (n.get("b") or {}).get("k") == "this" and lam[3].env is not None and lam[3].env.this is not None:
                            FL = ("f", lam[3].env.this, n["f"])
                            s2.store[FL] = self.fresh("woken:" + n["f"])
                    for s3, v in self.invoke_lambda(lam, s2, [], []):
                        for s4, b in self.truth(s3, v):
                            if b or short != "wait":
                                yield s4, (("c", b) if short != "wait" else ("void",)), None
                else:
                    if this is not None:
                        for n in walk(s2.frame.fn.body):
                            if n.get("k") == "mem" and "fn" not in n and "svar" not in n and (n.get("b") or {}).get("k") == "this" and not strip_type(n.get("t", "")).startswith((
                                    "std::mutex", "std::condition_variable", "std::thread")) and base_name(n.get("t", "")) not in SMART:
                                s2.store[("f", this, n["f"])] = self.fresh("woken:" + n["f"])
                    yield s2, self.fresh(short, e.get("t")), None

    def op_assign(self, e, st, fname, cls):
        a = e["args"][0]
        f = self.m.resolve_call(e, st.frame.fn.tu)
        if f is not None and f.body is not None and not f.flag("defaulted") and not self.opaque(f, e):
            for s, oL in self.lv(e["obj"], st):
                for s2, vs, ls in self.eval_args(e, s, f.params):
                    for s3, r in self.invoke(f, s2, oL, vs, ls, e):
                        yield s3, None, oL
            return
        for s, v in self.ev(a, st):
            for s2, L in self.lv(e["obj"], s):
                h = self.hook(s2, e, fname, L, None, [v], [None])
                if h is not None:
                    for s3, v3 in h:
                        yield s3, v3, L
                    continue
                self.write(s2, L, v, e)
                yield s2, None, L

    def call_indirect(self, e, st):
        for s, fp in self.ev(e["fp"], st):
            if fp[0] == "init" and isinstance(fp[1], tuple) and fp[1][0] == "g":
                g = self.m.globals.get(fp[1][1]) or {}
                x = unwrap(g.get("init"))
                if "*const" in str(g.get("t", "")) and isinstance(x, dict) and x.get("k") == "ref" and x.get("dk") == "func":
                    fp = ("fnref", x["fn"], x.get("id"))
            for s2, vs, ls in self.eval_args(e, s):
                if fp[0] == "fnref":
                    f = self.m.fns.get(fp[2])
                    if f is not None and f.body is not None and not self.opaque(f, e) and not f.cls:
                        for s3, r in self.invoke(f, s2, None, vs, ls, e):
                            yield s3, r, None
                        continue
                for v in vs:
                    if v[0] == "addr" and v[1][0] == "v":
                        self.write(s2, v[1], self.fresh("out:" + (fp[1] if fp[0] == "fnref" else "indirect")), e)
                if fp[0] == "fnref":
                    # a library function called through a pointer
                    v = self.fresh(fp[1], e.get("t"))
                    s2.trace.append(Ev("call", fp[1], tuple(vs), None, e["l"], s2.frame.fn, e, extra=v, locs=tuple(ls)))
                    yield s2, v, None
                    continue
                v = self.fresh("indirect", e.get("t"))
                s2.trace.append(Ev("call", "(indirect)", (fp,) + tuple(vs), None, e["l"], s2.frame.fn, e, extra=v))
                yield s2, v, None

    # ------------------------------------------------------------ functions
    def invoke(self, f, st, this, vs, ls, call):
        """Interpret f inline. Yields (state, return value)."""
        self.analysed.add(f.name)
        self.depth += 1
        self.inline_stack.append(f.id)
        caller = st.frame
        fr = Frame(next(self.serial), f, this)
        st.frame = fr
        nargs = list(vs) + [None] * (len(f.params) - len(vs))
        for i, p in enumerate(f.params):
            L = ("v", fr.id, p["d"], p["n"])
            v = nargs[i]
            if v is None:
                v = ("init", L)
            if is_ref(p["t"]):
                if i < len(ls) and ls[i] is not None:
                    st.store[L] = ("ref", ls[i])
                else:
                    if v[0] == "objat":
                        st.store[L] = ("ref", v[1])
                    else:
                        T = self.temp(st, v)
                        st.store[L] = ("ref", T)
            else:
                self.write(st, L, v, quiet=True)
        try:
            res = list(self._body(f, st, fr, caller))
        finally:
            self.depth -= 1
            self.inline_stack.pop()
        yield from res

    def _body(self, f, st, fr, caller):
        depth = len(st.scopes)
        st.scopes.append([])
        st.trace.append(Ev("enter", f.name, (), fr.this, f.line, f))
        states = [st]
        # constructor initialisers
        inits = f.d.get("inits")
        if inits:
            for i in inits:
                nxt = []
                for s in states:
                    nxt += self.run_init(i, s, fr)
                states = nxt
        results = []
        self.throws.append([])
        out = []
        for s in states:
            for kind, s2, v in self.stmt(f.body, s):
                if kind == "return":
                    out.append((s2, v))
                elif kind == "normal":
                    out.append((s2, ("void",)))
                elif kind == "goto":
                    out += self.goto(f, s2, v)
        thrown = self.throws.pop()
        for s in thrown:
            self.unwind(s, depth)
            s.frame = caller
            if f.flag("noexcept"):
                s.trace.append(Ev("terminate", f.name, (s.exc,), None, f.line, f))
            s.trace.append(Ev("exitthrow", f.name, (s.exc,), fr.this, f.line, f))
            self.throws[-1].append(s)
        if len(out) > self.max_paths:
            raise Budget("path budget exhausted in " + f.name)
        for s, v in out:
            self.unwind(s, depth)
            s.trace.append(Ev("exit", f.name, (v,), fr.this, f.line, f))
            s.frame = caller
            yield s, v

    def goto(self, f, st, label, budget=3):
        """Resume at a label: runs the rest of the function from there."""
        out = []
        work = [(st, label, budget)]
        while work:
            s, lab, b = work.pop()
            if self.cuts is not None:
                if not self.cut(s, "%s:%s" % (f.id, lab)):
                    continue
                b = 2
            if b == 0:
                self.truncated += 1
                continue
            path = find_label(f.body, lab)
            if path is None:
                continue
            for kind, s2, v in self.run_from(path, s):
                if kind == "return":
                    out.append((s2, v))
                elif kind == "normal":
                    out.append((s2, ("void",)))
                elif kind == "goto":
                    work.append((s2, v, b - 1))
        return out

    def run_from(self, path, st):
        """path: list of (container node, child index/role), outermost first; the last
        element is the labelled statement itself."""
        if len(path) == 1:
            yield from self.stmt(path[0][0], st)
            return
        node, idx = path[0]
        k = node["k"]
        for kind, s, v in self.run_from(path[1:], st):
            if kind != "normal" and not (kind in ("break", "continue") and k in ("while", "for", "do", "switch")):
                yield kind, s, v
                continue
            if k == "block":
                if kind == "normal":
                    yield from self.seq(node["s"][idx + 1:], s)
                else:
                    yield kind, s, v
            elif k in ("while", "for", "do"):
                if kind == "break":
                    yield "normal", s, None
                else:
                    yield from self.loop(node, s, first=False)
            elif k == "switch":
                yield ("normal", s, None) if kind in ("normal", "break") else (kind, s, v)
            else:
                yield kind, s, v

    def run_init(self, i, st, fr):
        e = i.get("e")
        if "f" in i:
            L = ("f", fr.this, i["f"])
            if e is None:
                return [(st)]
            out = []
            ee = e
            while ee.get("k") in ("definit", "defarg"):
                ee = ee["e"]
            # reference member?
            ft = None
            c = self.m.classes.get(fr.fn.cls)
            if c:
                for x in c["fields"]:
                    if x["n"] == i["f"]:
                        ft = x["t"]
            if ft and is_ref(ft):
                for s, T in self.lv(ee, st):
                    s.store[L] = ("ref", T)
                    out.append(s)
                return out
            for s, v in self.construct(ee, st, L):
                if v[0] not in ("objat",):
                    self.write(s, L, v, ee, quiet=True)
                s.trace.append(Ev("initf", i["f"], (v,), L, i.get("l", 0), fr.fn, ee))
                out.append(s)
            return out
        if "base" in i or i.get("delegating"):
            if e is None:
                return [st]
            return [s for s, _ in self.construct(e, st, fr.this)]
        return [st]

    def invoke_lambda(self, lam, st, vs, ls):
        box = lam[3]
        n = box.node
        caller = st.frame
        fr = Frame(next(self.serial), caller.fn if caller else None, box.env.this if box.env else None, parent=box.env)
        fr.caps = box.caps
        if box.env is not None:
            fr.fn = box.env.fn
        params, body = n.get("params"), n.get("body")
        if body is None and n.get("insts"):
            params, body = n["insts"][0].get("dparams"), n["insts"][0].get("body")
        if body is None:
            yield st, self.fresh("lambda")
            return
        st.frame = fr
        for i, p in enumerate(params or ()):
            L = ("v", fr.id, p["d"], p["n"])
            v = vs[i] if i < len(vs) else ("init", L)
            if is_ref(p["t"]) and i < len(ls) and ls[i] is not None:
                st.store[L] = ("ref", ls[i])
            elif is_ref(p["t"]):
                st.store[L] = ("ref", self.temp(st, v))
            else:
                self.write(st, L, v, quiet=True)
        depth = len(st.scopes)
        st.scopes.append([])
        self.throws.append([])
        out = []
        for kind, s2, v in self.stmt(body, st):
            out.append((s2, v if kind == "return" else ("void",)))
        for s in self.throws.pop():
            self.unwind(s, depth)
            s.frame = caller
            self.throws[-1].append(s)
        for s, v in out:
            self.unwind(s, depth)
            s.frame = caller
            yield s, v

    def unwind(self, st, depth):
        while len(st.scopes) > depth:
            sc = st.scopes.pop()
            for (L, t, line) in reversed(sc):
                st.trace.append(Ev("dtor", base_name(t), (self.read(st, L),), L, line, st.frame.fn if st.frame else None))

    # ------------------------------------------------------------ statements
    def stmt(self, n, st):
        """Yields (kind, state, value)."""
        if n is None:
            yield "normal", st, None
            return
        self.steps -= 1
        if self.steps < 0:
            raise Budget("step budget exhausted in %s" % (st.frame.fn.name if st.frame else "?"))
        k = n["k"]
        f = getattr(self, "st_" + k, None)
        if f is not None:
            yield from f(n, st)
            return
        for s, v in self.ev(n, st):
            yield "normal", s, None

    def st_block(self, n, st):
        depth = len(st.scopes)
        st.scopes.append([])
        for kind, s, v in self.seq(n["s"], st):
            self.unwind(s, depth)
            yield kind, s, v

    def seq(self, stmts, st):
        if not stmts:
            yield "normal", st, None
            return
        states = [st]
        for i, x in enumerate(stmts):
            nxt = []
            for s in states:
                for kind, s2, v in self.stmt(x, s):
                    if kind == "normal":
                        nxt.append(s2)
                    else:
                        yield kind, s2, v
            states = nxt
            if len(states) > self.max_paths:
                raise Budget("path budget exhausted in %s" % (st.frame.fn.name if st.frame else "?"))
            if not states:
                return
        for s in states:
            yield "normal", s, None

    def st_null_stmt(self, n, st):
        yield "normal", st, None

    def st_ostmt(self, n, st):
        yield "normal", st, None

    def st_label(self, n, st):
        yield from self.stmt(n["sub"], st)

    def st_case(self, n, st):
        yield from self.stmt(n["sub"], st)

    def st_default(self, n, st):
        yield from self.stmt(n["sub"], st)

    def st_goto(self, n, st):
        yield "goto", st, n["n"]

    def st_break(self, n, st):
        yield "break", st, None

    def st_continue(self, n, st):
        yield "continue", st, None

    def st_return(self, n, st):
        e = n.get("e")
        if e is None:
            st.trace.append(Ev("return", None, (), None, n["l"], st.frame.fn, n))
            yield "return", st, ("void",)
            return
        f = st.frame.fn
        if f is not None and is_ref(f.ret) and is_lvalue(e) and st.frame.parent is None:
            for s, L in self.lv(e, st):
                s.trace.append(Ev("return", None, (("addr", L),), None, n["l"], s.frame.fn, n))
                yield "return", s, ("addrref", L)
            return
        for s, v in self.ev(e, st):
            s.trace.append(Ev("return", None, (v,), None, n["l"], s.frame.fn, n))
            yield "return", s, v

    def decl_var(self, v, st):
        L = ("v", st.frame.id, v["d"], v["n"])
        t = v["t"]
        if v.get("static"):
            st.store[L] = ("ref", ("g", "static:" + v["n"]))
            return [st]
        init = v.get("init")
        if init is None:
            st.store.pop(L, None)
            st.store[L] = ("undef", v["n"])
            st.scopes[-1].append((L, t, v["l"]))
            return [st]
        out = []
        if is_ref(t):
            for s, T in self.lv(init, st):
                s.store[L] = ("ref", T)
                if v.get("bind"):
                    self.bind(s, v, T)
                out.append(s)
            return out
        for k in [k for k in st.store if k == L or self._below(k, L)]:
            del st.store[k]
        for s, val in self.construct(init, st, L):
            if val[0] == "objat" and val[1] != L:
                T = val[1]
                moved = {k: x for k, x in s.store.items() if self._below(k, T)}
                for k, x in moved.items():
                    s.store[self._rebase(k, T, L)] = x
                s.store.setdefault(L, ("init", T))
                for k, x in list(s.store.items()):
                    if x == ("ref", T):
                        s.store[k] = ("ref", L)
            elif val[0] != "objat":
                if s.store.get(L) != val and not any(self._below(k, L) for k in s.store):
                    self.write(s, L, val, v, quiet=True)
            if L not in s.store and not any(self._below(k, L) for k in s.store):
                s.store[L] = val
            s.trace.append(Ev("lwrite", v["n"], (self.read(s, L),), L, v["l"], s.frame.fn, v))
            if not is_ptr(t) and strip_type(t) not in UNSIGNED | SIGNED | FLOATS:
                s.scopes[-1].append((L, t, v["l"]))
            if v.get("bind"):
                self.bind(s, v, L)
            out.append(s)
        return out

    def bind(self, s, v, L):
        for i, b in enumerate(v["bind"]):
            s.store[("v", s.frame.id, b["d"], b["n"])] = ("ref", ("f", L, "#%d" % i))

    def _rebase(self, k, T, L):
        if k == T:
            return L
        return (k[0], self._rebase(k[1], T, L)) + k[2:]

    def st_decl(self, n, st):
        states = [st]
        for v in n["vars"]:
            nxt = []
            for s in states:
                nxt += self.decl_var(v, s)
            states = nxt
        for s in states:
            yield "normal", s, None

    def st_var(self, n, st):
        for s in self.decl_var(n, st):
            yield "normal", s, None

    def st_if(self, n, st):
        depth = len(st.scopes)
        st.scopes.append([])
        states = [st]
        if n.get("init"):
            states = [s for _, s, _ in self.stmt(n["init"], st)]
        if n.get("cv"):
            nxt = []
            for s in states:
                nxt += self.decl_var(n["cv"], s)
            states = nxt
        for s0 in states:
            for s, b in self.test(n["c"], s0):
                br = n["then"] if b else n.get("else")
                for kind, s2, v in self.stmt(br, s):
                    self.unwind(s2, depth)
                    yield kind, s2, v

    def st_switch(self, n, st):
        body = n["body"]
        flat = []
        flatten_switch(body, flat)
        cases = [(i, x) for i, x in enumerate(flat) if x[0] != "s"]
        for s0, v in self.ev(n["c"], st):
            remaining = [s0]
            for i, (kind, cv, cn) in cases:
                if kind != "case":
                    continue
                nxt = []
                for s in remaining:
                    for cs, cval in self.ev(cn["v"], s):
                        for s2, b in self.branch(cs, self.cond_eq(v, cval), cn):
                            if b:
                                yield from self.switch_from(flat, i, s2)
                            else:
                                nxt.append(s2)
                remaining = nxt
            d = [i for i, (kind, _, _) in cases if kind == "default"]
            for s in remaining:
                if not d and self.enum_exhausted(s, v, n, cases):
                    continue
                if d:
                    yield from self.switch_from(flat, d[0], s)
                else:
                    yield "normal", s, None

    def enum_exhausted(self, st, v, n, cases):
        return False

    def switch_from(self, flat, i, st):
        depth = len(st.scopes)
        st.scopes.append([])
        stmts = [x[2] for x in flat[i:] if x[0] == "s"]
        for kind, s, v in self.seq(stmts, st):
            self.unwind(s, depth)
            if kind == "break":
                kind = "normal"
            yield kind, s, v

    # -- loops
    def modified(self, nodes, st):
        """Variables and field names that the nodes may modify (syntactically)."""
        vars_, fields = set(), set()

        def tgt(e):
            e = unwrap(e)
            if not isinstance(e, dict):
                return
            k = e.get("k")
            if k == "ref" and "d" in e:
                vars_.add(e["d"])
            elif k == "mem":
                if "f" in e and "fn" not in e:
                    fields.add(e["f"])
                if not e.get("arrow"):
                    tgt(e.get("b"))
            elif k == "index":
                tgt(e.get("a"))
                fields.add("[]")
            elif k == "un" and e["op"] in ("*", "++", "--"):
                tgt(e.get("a"))
            elif k == "call" and e.get("obj"):
                fn = e.get("fn") or ""
                if fn.rsplit("::", 1)[-1] in ("get", "operator->", "operator*") and fn.rsplit("::", 1)[0] in SMART:
                    return      # what is modified is the pointee
                tgt(e["obj"])
            elif k == "cond":
                tgt(e["a"])
                tgt(e["b"])

        seen = set()

        def scan(ns, tu):
            for x in walk(ns):
                k = x.get("k")
                if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    tgt(x["a"])
                elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                    tgt(x["a"])
                elif k == "un" and x["op"] == "&":
                    pass
                elif k in ("call", "ctor"):
                    if x.get("obj") is not None and not x.get("const"):
                        sh = (x.get("fn") or "").rsplit("::", 1)[-1]
                        if not (sh in ("begin", "end", "data", "operator*", "operator->", "get", "front", "back", "size", "find") and
                                not x.get("own")):
                            o = unwrap(x["obj"])
                            if not (x.get("arrow") or (x.get("own") and o.get("k") == "this")):
                                tgt(x["obj"])
                    for i in () if READS_ARGS(x.get("fn") or "") else x.get("mut", ()):
                        if i < len(x["args"]):
                            a = unwrap(x["args"][i])
                            if isinstance(a, dict) and a.get("k") == "un" and a["op"] == "&":
                                tgt(a["a"])
                            elif isinstance(a, dict) and a.get("k") == "call" and a.get("const") and a.get("obj") is not None and is_ptr(a.get("t", "")):
                                pass        # what is modified is the pointee of a view
                            else:
                                tgt(a)
                    for a in x.get("args", ()):
                        if a and a.get("k") == "move":
                            tgt(a["e"])
                    f = self.m.resolve_call(x, tu) if x.get("id") else None
                    if f is not None and f.id not in seen and f.body is not None and not self.opaque(f, x):
                        seen.add(f.id)
                        scan(f.body, f.tu)
                        for ff in (self.m.overriders(f.id) if x.get("virt") else ()):
                            if ff.id not in seen and ff.body is not None and not self.opaque(ff, x):
                                seen.add(ff.id)
                                scan(ff.body, ff.tu)
        scan(nodes, st.frame.fn.tu)
        return vars_, fields

    def havoc(self, st, nodes):
        """Gives fresh values to everything the loop may modify; returns
        {location: fresh value}."""
        out = {}
        vars_, fields = self.modified(nodes, st)
        for k in list(st.store):
            hit = False
            p = k
            while True:
                if p[0] == "v" and p[2] in vars_:
                    hit = True
                if p[0] == "f" and p[2] in fields:
                    hit = True
                if p[0] == "e" and "[]" in fields:
                    hit = True
                if p[0] in ("f", "e"):
                    p = p[1]
                else:
                    break
            if hit:
                v = st.store[k]
                if v[0] == "ref":
                    # the referent changes
                    T = v[1]
                    out[T] = st.store[T] = self.hv(st.store.get(T), T)
                    continue
                out[k] = st.store[k] = self.hv(v, k)
        # fields never stored so far but modified: give them fresh values
        this = st.frame.this
        if this is not None:
            for f in fields:
                L = ("f", this, f)
                if L not in st.store and not any(self._below(x, L) for x in st.store):
                    if self.m.classes.get(st.frame.fn.cls) and any(x["n"] == f for _, x in self.m.fields(st.frame.fn.cls)):
                        out[L] = st.store[L] = self.hv(None, L, f)
        return out

    def hv(self, old, L, f=None):
        r = ("r", "loop:" + str(self._fname(L)), next(self.serial))
        t = self.ttype.get(old) if old is not None else None
        if t:
            self.note_type(r, t)
        elif old is not None and old[0] in ("c",) and isinstance(old[1], int) and False:
            pass
        return r

    def loop(self, n, st, first=True):
        k = n["k"]
        body, cond, inc = n.get("body"), n.get("c"), n.get("inc")
        rng = k == "frange"
        peel = self.peel if first else 0

        def check(s):
            if rng:
                yield from self.range_test(n, s)
            elif n.get("cv"):
                for s1 in self.decl_var(n["cv"], s):
                    yield from self.test(cond, s1)
            elif cond is None:
                yield s, True
            else:
                yield from self.test(cond, s)

        def run(s):
            depth = len(s.scopes)
            s.scopes.append([])
            states = self.decl_range_var(n, s) if rng else [s]
            for s1 in states:
                for kind, s2, v in self.stmt(body, s1):
                    self.unwind(s2, depth)
                    yield kind, s2, v

        def step(s):
            if inc is not None:
                for s2, _ in self.ev(inc, s):
                    yield s2
            else:
                yield s

        entry = st.fork()
        cur = [st]
        if self.cuts is not None and not rng:
            yield from self.cut_loop(n, st, first or k != "do", check, run, step)
            return
        if k == "do":
            yield from self.do_loop(n, st, entry, check, run, body, cond, peel)
            return
        for it in range(peel):
            nxt = []
            for s in cur:
                for s1, b in check(s):
                    if not b:
                        yield "normal", s1, None
                        continue
                    for kind, s2, v in run(s1):
                        if kind in ("normal", "continue"):
                            nxt += list(step(s2))
                        elif kind == "break":
                            yield "normal", s2, None
                        else:
                            yield kind, s2, v
            cur = nxt
        # generic iteration
        merged = self.merge_loop(cur)
        for s in merged:
            fresh = self.havoc(s, [body, cond, inc] + ([n["var"]] if rng else []))
            s.trace.append(Ev("loop", None, (), None, n["l"], s.frame.fn, n,
                              extra={L: (self.read(entry, L), T) for L, T in fresh.items()}))
            k0 = len(s.trace)
            for s1, b in check(s):
                if not b:
                    s1.trace.append(Ev("endloop", None, (), None, n["l"], s1.frame.fn, n))
                    yield "normal", s1, None
                    continue
                for kind, s2, v in run(s1):
                    if kind in ("normal", "continue"):
                        # one more round would start from a state covered by the
                        # havocked one; leave the loop here
                        for s3 in step(s2):
                            if self.each is not None:
                                self.each.append((n, s3.trace[k0:], s3, fresh, kind))
                                continue
                            s3.trace.append(Ev("iter", None, (), None, n["l"], s3.frame.fn, n, extra={L: self.read(s3, L) for L in fresh}))
                            after = self.havoc(s3, [body, cond, inc])
                            s3.trace.append(Ev("endloop", None, (), None, n["l"], s3.frame.fn, n, extra=after))
                            for s4, b4 in check(s3):
                                if not b4:
                                    yield "normal", s4, None
                    elif kind == "break":
                        if self.each is not None:
                            self.each.append((n, s2.trace[k0:], s2, fresh, kind))
                        s2.trace.append(Ev("endloop", None, (), None, n["l"], s2.frame.fn, n))
                        yield "normal", s2, None
                    else:
                        if self.each is not None:
                            self.each.append((n, s2.trace[k0:], s2, fresh, kind))
                        yield kind, s2, v

    def cut_loop(self, n, st, first, check, run, step):
        nid = "loop:%d:%d" % (n["l"], id(n))
        work = [(st, n["k"] == "do" and first)]
        while work:
            s, skip = work.pop()
            if not skip and not self.cut(s, nid):
                continue
            for s1, b in ([(s, True)] if skip else check(s)):
                if not b:
                    yield "normal", s1, None
                    continue
                for kind, s2, v in run(s1):
                    if kind in ("normal", "continue"):
                        work += [(x, False) for x in step(s2)]
                    elif kind == "break":
                        yield "normal", s2, None
                    else:
                        yield kind, s2, v

    def cut(self, st, nid):
        """Arrival at a cut point (automaton extraction). The state is generalised to what is the same on every visit (constants of
        enumerations and booleans are kept apart); returns False when the resulting node was visited before."""
        ctx = []
        last, seg0 = None, 0
        for k, e in enumerate(st.trace):
            if e.kind == "enter":
                ctx.append((e.name, e.line))
            elif e.kind in ("exit", "exitthrow") and ctx:
                ctx.pop()
            elif e.kind == "cut":
                last, seg0 = e.extra, k + 1
        point = (tuple(ctx), nid)
        info = self.cuts.setdefault(point, {"wide": set(), "seen": {}, "nodes": {}})
        for L in [L for L in st.store if root_loc(L)[0] == "t"]:
            del st.store[L]
        key = lambda L: (L[0],) + tuple(L[2:]) if L[0] == "v" else (L[0], key(L[1])) + tuple(L[2:]) if L[0] in ("f", "e") else L
        discrete = lambda v: v[0] in ("enum", "cond", "null") or v[0] == "c" and isinstance(v[1], bool)
        vals = {}
        for L, v in st.store.items():
            if v[0] == "ref":
                continue
            vals[L] = v
        for kL, (L, vs) in list(info["seen"].items()):
            if L not in vals and root_loc(L)[0] != "v":
                vals[L] = ("init", L)
        for L, v in vals.items():
            L0, vs = info["seen"].setdefault(key(L), (L, set()))
            if not discrete(v):
                vs.add(v)
                if len(vs) > 1 or root_loc(L)[0] != "v" and L in st.store and v != ("init", L) and info["nodes"] and key(L) not in info["first"]:
                    info["wide"].add(key(L))
        info.setdefault("first", set(info["seen"]))
        # generalise
        sub, new, stale, fresh = {}, {}, set(), {}
        wide = sorted((L for L in vals if key(L) in info["wide"] and not discrete(vals[L])), key=lambda L: (contains_deref(vals[L]), repr(L)))
        name = lambda L: ("r", "at:%s" % self._fname(L), nid + repr(point[0]))
        for L in wide:
            if vals[L] != name(L):
                stale |= atoms_of(vals[L]) | {name(L)}
        for L in wide:
            v, T = vals[L], name(L)
            w = subst_terms(v, sub)
            if w != v and not any(contains(w, x) for x in stale):
                st.store[L] = subst_terms(w, new)
                continue
            t = self.ttype.get(v)
            if t:
                self.note_type(T, t)
            fresh[L] = (v, T)
            if v[0] != "c":
                sub[v] = ("NEW", len(new))
                new[sub[v]] = T
            st.store[L] = T
        gone = lambda a: any(contains(a, x) for x in stale) or not self.lasting(a)
        st.facts = facts = {a: b for a, b in st.facts.items() if not gone(a)}
        st.iv = {k: v for k, v in st.iv.items() if not gone(("pos", 0, k))}
        node = (point, frozenset((key(L), st.store[L]) for L in vals if L in st.store and st.store[L] != name(L)),
                frozenset((a, b) for a, b in facts.items() if a[0] != "current_exc"))
        num = info["nodes"].get(node)
        new = num is None
        if new:
            num = info["nodes"][node] = "%s#%d" % (nid, len(info["nodes"]))
            if len(info["nodes"]) > 400:
                raise Budget("too many abstract states at " + nid)
        self.edges.append((last, num, st.trace[seg0:], dict(fresh)))
        st.trace.append(Ev("cut", nid, (), None, 0, st.frame.fn, None, extra=num))
        st.trace[-1].args = ()
        if new:
            self.cut_stores[num] = dict(st.store)
        return new

    def lasting(self, a):
        """Is the fact worth keeping at a cut point: not about a loaded character."""
        return not contains_deref(a)

    def do_loop(self, n, st, entry, check, run, body, cond, peel=0):
        once = cond is not None and cond.get("k") in ("int", "bool", "icast", "cast") and all(c is False for c in (b for _, b in check(st.fork())))
        if once:
            for kind, s2, v in run(st):
                yield ("normal", s2, None) if kind in ("normal", "continue", "break") else (kind, s2, v)
            return
        cur = [st]
        for it in range(peel):
            nxt = []
            for s in cur:
                for kind, s2, v in run(s):
                    if kind in ("normal", "continue"):
                        for s3, b in check(s2):
                            if b:
                                nxt.append(s3)
                            else:
                                yield "normal", s3, None
                    elif kind == "break":
                        yield "normal", s2, None
                    else:
                        yield kind, s2, v
            cur = nxt
        rounds = [(s, 0) for s in cur]
        for s, r in rounds:
            fresh = self.havoc(s, [body, cond])
            if r == 0:
                s.trace.append(Ev("loop", None, (), None, n["l"], s.frame.fn, n, extra={L: (self.read(entry, L), T) for L, T in fresh.items()}))
            for kind, s2, v in run(s):
                if kind in ("normal", "continue"):
                    for s3, b in check(s2):
                        if b and r == 0:
                            s3.trace.append(Ev("iter", None, (), None, n["l"], s3.frame.fn, n, extra={L: self.read(s3, L) for L in fresh}))
                            rounds.append((s3, 1))
                        elif not b:
                            s3.trace.append(Ev("endloop", None, (), None, n["l"], s3.frame.fn, n))
                            yield "normal", s3, None
                elif kind == "break":
                    s2.trace.append(Ev("endloop", None, (), None, n["l"], s2.frame.fn, n))
                    yield "normal", s2, None
                else:
                    yield kind, s2, v

    def merge_loop(self, states):
        return states

    def st_while(self, n, st):
        yield from self.loop(n, st)

    st_do = st_while

    def st_for(self, n, st):
        depth = len(st.scopes)
        st.scopes.append([])
        for kind, s, _ in self.stmt(n["init"], st):
            for kind2, s2, v in self.loop(n, s):
                self.unwind(s2, depth)
                yield kind2, s2, v

    def st_frange(self, n, st):
        depth = len(st.scopes)
        st.scopes.append([])
        for s, L in self.lv(n["range"], st):
            s.store[("v", s.frame.id, -n["var"]["d"], "__range")] = ("ref", L)
            for kind, s2, v in self.loop(n, s):
                self.unwind(s2, depth)
                yield kind, s2, v

    def range_loc(self, n, st):
        r = st.store.get(("v", st.frame.id, -n["var"]["d"], "__range"))
        return r[1] if r else ("t", 0)

    def range_test(self, n, st):
        it = next(self.serial)
        yield from self.branch(st, (("more", self.range_loc(n, st), n["l"], it), True), n)

    def decl_range_var(self, n, st):
        v = n["var"]
        RL = self.range_loc(n, st)
        E = ("e", RL, ("r", "iter", next(self.serial)))
        L = ("v", st.frame.id, v["d"], v["n"])
        if is_ref(v["t"]):
            st.store[L] = ("ref", E)
        else:
            self.write(st, L, self.read(st, E, v["t"]), quiet=True)
            self.note_type(self.read(st, E), v["t"])
        if v.get("bind"):
            for i, b in enumerate(v["bind"]):
                st.store[("v", st.frame.id, b["d"], b["n"])] = ("ref", ("f", E, "#%d" % i))
        return [st]

    def st_try(self, n, st):
        depth = len(st.scopes)
        frame = st.frame
        idepth = (self.depth, len(self.inline_stack))
        self.throws.append([])
        outs = list(self.stmt(n["body"], st))
        thrown = self.throws.pop()
        yield from outs
        for s in thrown:
            typ = s.exc[1]
            handled = False
            for h in n["handlers"]:
                m = self.catches(h, typ)
                if m is False:
                    continue
                sc = s if m is True else s.fork()
                self.unwind(sc, depth)
                sc.frame = frame
                exc = sc.exc
                if m is None:
                    exc = ("exc", h["t"] + "+") + exc[2:]
                sc.exc = None
                saved = sc.facts.get(("current_exc",))
                sc.facts[("current_exc",)] = exc
                sc.trace.append(Ev("catch", h.get("t", "..."), (exc,), None, h["l"], frame.fn, h))
                if "d" in h:
                    sc.store[("v", frame.id, h["d"], h.get("n", ""))] = exc[2]
                for kind, s2, v in self.stmt(h["body"], sc):
                    s2.facts.pop(("current_exc",), None)
                    if saved:
                        s2.facts[("current_exc",)] = saved
                    yield kind, s2, v
                if m is True:
                    handled = True
                    break
            if not handled:
                self.throws[-1].append(s)

    def catches(self, h, typ):
        """True: certainly; False: no; None: maybe."""
        if h.get("all"):
            return True
        if typ == "?":
            return None
        if typ.endswith("+"):
            if self.m.derives(typ[:-1], h["t"]):
                return True
            return None if self.m.derives(h["t"], typ[:-1]) else False
        if self.m.derives(typ, h["t"]):
            return True
        return False

    # ------------------------------------------------------------ entry
    def run(self, f, this=("obj", "this"), args=None, setup=None, refs=True, state=None):
        """All paths of f from an unknown initial state, or from the state a path of another run ended in."""
        self.analysed.add(f.name)
        st = State()
        if state is not None:
            st.store = {k: v for k, v in state.store.items() if not self._local(k)}
            st.facts, st.iv = dict(state.facts), dict(state.iv)
        fr = Frame(0, f, this if (f.cls and not f.flag("static")) else None)
        st.frame = fr
        for i, p in enumerate(f.params):
            L = ("v", 0, p["d"], p["n"])
            if args and i < len(args) and args[i] is not None:
                self.write(st, L, args[i], quiet=True)
                continue
            if is_ref(p["t"]):
                st.store[L] = ("ref", ("obj", "arg%d" % i))
            else:
                v = ("init", ("obj", "arg%d" % i))
                self.note_type(v, p["t"])
                st.store[L] = v
        if setup:
            setup(self, st)
        st.scopes.append([])
        self.throws = [[]]
        self.inline_stack = [f.id]
        res = []
        states = [st]
        inits = f.d.get("inits")
        if inits:
            for i in inits:
                nxt = []
                for s in states:
                    nxt += self.run_init(i, s, fr)
                states = nxt
        for s0 in states:
            for kind, s, v in self.stmt(f.body, s0):
                if kind == "goto":
                    for s2, v2 in self.goto(f, s, v):
                        self.unwind(s2, 0)
                        res.append(Result("return", v2, s2))
                    continue
                self.unwind(s, 0)
                res.append(Result("return", v if kind == "return" else ("void",), s))
                if len(res) > self.max_paths:
                    raise Budget("path budget exhausted in " + f.name)
        for s in self.throws[0]:
            self.unwind(s, 0)
            s.frame = fr
            res.append(Result("throw", s.exc, s))
        return res

    def run_lambda(self, node, fn, this=("obj", "this"), setup=None, cap_values=None):
        """All paths of a lambda body; captures are unknown."""
        st = State()
        env = Frame(0, fn, this)
        fr = Frame(1, fn, this, parent=env)
        st.frame = fr
        params, body = node.get("params"), node.get("body")
        if body is None and node.get("insts"):
            params, body = node["insts"][0].get("dparams"), node["insts"][0].get("body")
        if body is None:
            return []
        for c in node.get("caps", ()):
            if "d" in c:
                st.store[("v", 0, c["d"], c["n"])] = ("ref", ("obj", "cap:" + c["n"]))
        for i, p in enumerate(params or ()):
            L = ("v", 1, p["d"], p["n"])
            if is_ref(p["t"]):
                st.store[L] = ("ref", ("obj", "arg%d" % i))
            else:
                v = ("init", ("obj", "arg%d" % i))
                self.note_type(v, p["t"])
                st.store[L] = v
        if setup:
            setup(self, st)
        st.scopes.append([])
        self.throws = [[]]
        self.inline_stack = []
        res = []
        for kind, s, v in self.stmt(body, st):
            self.unwind(s, 0)
            res.append(Result("return", v if kind == "return" else ("void",), s))
        for s in self.throws[0]:
            self.unwind(s, 0)
            s.frame = fr
            res.append(Result("throw", s.exc, s))
        return res


class LamBox:
    __slots__ = ("node", "env", "caps")

    def __init__(self, node, env, caps):
        self.node, self.env, self.caps = node, env, caps

    def __repr__(self):
        return "<lambda>"

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def is_lvalue(e):
    k = e.get("k")
    if k == "ref":
        return e["dk"] in ("var", "parm", "slocal") or (e["dk"] == "global" and "v" not in e and e.get("qn") != "std::nullopt")
    if k == "mem":
        return "fn" not in e
    if k in ("move", "fwd", "icast"):
        return is_lvalue(e["e"])
    if k == "cast":
        return e.get("castkind") in ("NoOp", "DerivedToBase", "BaseToDerived") and is_lvalue(e["e"])
    if k == "un":
        return e["op"] in ("*", "++", "--")
    if k == "index":
        return True
    if k == "call":
        return e.get("op") in ("*", "[]", "=") or (e.get("op") is None and not e.get("t", "").endswith("*") and e.get("fn", "").rsplit("::", 1)[-1] in (
            "front", "back", "at", "value"))
    if k == "cond":
        return is_lvalue(e["a"]) and is_lvalue(e["b"])
    return False


def is_ptr_param(a):
    return is_ptr(a.get("t", "") or "")


def flatten_switch(n, out):
    if n is None:
        return
    if n["k"] == "block":
        for x in n["s"]:
            flatten_switch(x, out)
        return
    while n is not None and n["k"] in ("case", "default"):
        out.append((n["k"], n.get("cv"), n))
        n = n["sub"]
    if n is not None:
        if n["k"] == "block" and False:
            flatten_switch(n, out)
        else:
            out.append(("s", None, n))


def root_loc(L):
    while L[0] in ("f", "e"):
        L = L[1]
    return L


def contains(t, sub):
    return t == sub or isinstance(t, tuple) and any(contains(x, sub) for x in t)


def contains_deref(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "*":
        return True
    return any(contains_deref(x) for x in t)


def subst_terms(t, sub):
    if t in sub:
        return sub[t]
    if isinstance(t, tuple):
        return tuple(subst_terms(x, sub) if isinstance(x, tuple) else x for x in t)
    return t


def atoms_of(v):
    """The atoms of a linear term."""
    if v[0] == "lin":
        return {k for k, _ in v[2]}
    if v[0] in ("c", "enum"):
        return set()
    return {v}


def find_label(n, lab):
    if not isinstance(n, dict):
        return None
    if n.get("k") == "label" and n["n"] == lab:
        return [(n, None)]
    k = n.get("k")
    if k == "block":
        for i, x in enumerate(n["s"]):
            p = find_label(x, lab)
            if p:
                return [(n, i)] + p
        return None
    for c in ("then", "else", "body", "sub"):
        x = n.get(c)
        if isinstance(x, dict):
            p = find_label(x, lab)
            if p:
                return [(n, c)] + p
    return None
