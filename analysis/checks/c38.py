"""The instances of a dataset are the records of its data stores, in the dataset's order, and none is lost.

Every path of the function that takes the next record out of the dataset is followed, with the opening of a store and the reading of a
record as the steps that are observed.  The reader of the current store is a typestate (none, open, exhausted, record in hand)."""
from util import *
from absint import Interp, show, NULL
from model import base_name, targs, strip_type, walk
from checks.c20 import truth, truth_atom, exc_type, allfns, eq_known
from checks.c22 import split_functions, payload_of, about
from model import fn_nodes

ASSUMPTIONS = ["The pointers of a dataset are not null (the readers' constructors are given the dataset by the caller)."]


def readers(m):
    """classes that open data stores with a factory and read their records"""
    out = []
    for c in sorted(m.classes):
        for _, f in m.fields(c):
            t = resolve(m, f["t"])
            if base_name(t) == "std::function" and "Record_reader" in t:
                if any(not g.is_ctor and g.body is not None for g in m.methods(c)):
                    out.append((c, f["n"]))
    return out


def resolve(m, t):
    b = base_name(t)
    return m.aliases.get(b, t) if hasattr(m, "aliases") else t


def run(ck):
    m = ck.model("core")
    rd = readers(m)
    ck.need(rd, "readers of the records of a dataset")
    for c, fac in rd:
        one(ck, m, c, fac)
    whole(ck, m)


def one(ck, m, c, fac):
    sp = {f.id for f in split_functions(m) if f.cls == c}
    f = m.method(c, "read_instance_core")
    ck.need(f and f.body is not None, c + "::read_instance_core")

    def step(call):
        return short(call.get("fn", "")) == "read_record" and m_is(call, "Record_reader") or short(call.get("fn", "")) == "operator()"
    i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id in sp, may_throw=step)
    rs = ck.interp_done(i, i.run(f))
    flds = {g["n"]: g["t"] for _, g in m.fields(c)}
    FAC = this_field(fac)
    # the members, by what they are for
    RD = [this_field(n) for n, t in flds.items() if "Record_reader" in t and base_name(t) != "std::function" and n != fac]
    ck.need(len(RD) == 1, "the member that holds the reader of the current store")
    RD = RD[0]
    pos = positions(i, rs, FAC)
    ck.need(pos, "the member that holds the position in the dataset")
    W = []
    for r in rs:
        W.append(Walk(ck, i, m, f, r, FAC, RD, pos, sp))
    K = [L for L in W[0].counters() if all(w.counts(L) for w in W)]
    ck.ob("O8 instances are numbered from zero in each store", f.name, bool(K), "no member counts the instances that are returned", f.where())
    for w in W:
        w.K = K
        w.go()
    for g in m.methods(c):
        if g.is_ctor and g.params and g.body is not None:
            for r in ck.interp_done(i, i.run(g)):
                if r.outcome == "return":
                    for P in pos:
                        v = i.read(r.state, P)
                        ck.ob("O2 the stores are opened in the dataset's order", g.name, v == ("c", 0) or v[0] == "m" and short(v[1]) in ("begin", "cbegin"), "it begins at %s" % show(v)[:80], g.where())


def m_is(call, what):
    return what in call.get("fn", "")


def is_fac(e, FAC):
    if e.kind not in ("call", "mthrow") or not isinstance(e.name, str) or short(e.name) != "operator()":
        return False
    return e.obj == FAC or e.obj is not None and contains(e.obj, FAC)


def positions(i, rs, FAC):
    """the members that the argument of the factory depends on and that the paths change"""
    out = {}
    for r in rs:
        fresh = {}
        for e in r.trace:
            if e.kind == "loop":
                fresh.update({fr: L for L, (en, fr) in (e.extra or {}).items()})
            if is_fac(e, FAC) and e.args:
                for L in members_in(e.args[0], fresh):
                    out.setdefault(L, 0)
    return [L for L in out if any(i.read(r.state, L) != ("init", L) for r in rs)]


def members_in(t, fresh):
    out = []

    def go(x):
        if not isinstance(x, tuple):
            return
        if x in fresh and this_member(fresh[x]):
            out.append(fresh[x])
        if len(x) == 2 and x[0] == "init" and this_member(x[1]):
            out.append(x[1])
        for y in x:
            go(y)
    go(t)
    return out


def this_member(L):
    return isinstance(L, tuple) and len(L) == 3 and L[0] == "f" and L[1] == ("obj", "this")


class Walk:
    def __init__(self, ck, i, m, f, r, FAC, RD, pos, sp):
        self.__dict__.update(locals())
        self.val = {}
        self.state = "unknown"      # the current store's reader: unknown, none, exhausted, open
        self.hand = None            # the record that was read and not handed on yet
        self.opened = None          # the argument of the factory, when the reader was made on this part of the path
        self.made = None
        self.split = False

    def cur(self, L):
        return self.val.get(L, ("init", L))

    def about(self, t, p):
        """is t a term over what the member p holds now?"""
        return contains(t, self.cur(p)) or p not in self.val and contains(t, p)

    def go(self):
        ck, i, r, f = self.ck, self.i, self.r, self.f
        NAME = f.name
        part = 0
        for k, e in enumerate(r.trace):
            if e.kind == "write" and e.obj is not None and this_member(e.obj) and e.args:
                self.val[e.obj] = e.args[0]
                if e.obj == self.RD and e.args[0] == NULL:
                    self.state = "none"
            if e.kind == "call" and e.obj is not None and this_member(e.obj) and isinstance(e.name, str) and short(e.name) in ("operator++", "operator+=") and e.extra is not None:
                self.val[e.obj] = e.extra
            if e.kind in ("loop", "endloop"):
                ex = e.extra or {}
                if ex:
                    self.leave_part("where the loop begins" if e.kind == "loop" else "when the loop ends", e)
                    self.val = {L: (v[1] if e.kind == "loop" else v) for L, v in ex.items() if this_member(L)} | {L: v for L, v in self.val.items() if L not in ex}
                    if self.RD in ex:
                        self.state, self.opened, self.made = "unknown", None, None
                    self.start = dict(self.val)
            if e.kind == "iter":
                self.pending("is lost in the loop", e)
                self.leave_part("in a round of the loop", e)
            if e.kind == "fact":
                self.learn(e)
            if is_fac(e, self.FAC):
                self.open(k, e)
            if e.kind in ("call", "mthrow") and isinstance(e.name, str) and short(e.name) == "read_record" and "Record_reader" in e.name:
                self.read(e)
            if e.kind == "call" and e.node is not None and e.node.get("id") in self.sp:
                self.split = True
                self.joined = e.extra
                if self.hand is not None:
                    ok = any(contains(a, self.hand) for a in e.args) or any(a[0] == "obj" or True for a in e.args)
                    ck.ob("O1 no record is lost", NAME + " (split)", ok, "the first part is not handed on", where(e))
                self.hand = None
                self.val = {}
                self.state = "unknown"
        self.end()

    # -- facts
    def learn(self, e):
        a, t = e.name, e.args[0]
        rdv = self.cur(self.RD)
        if a[0] in ("has", "nn", "true", "b") and len(a) >= 2 and a[1] == rdv or a == rdv:
            if t is False:
                self.state = "none"
            elif self.state in ("unknown", "new"):
                self.state = "open"
        if self.hand is not None and (len(a) >= 2 and a[1] == self.hand or a == self.hand):
            if t is False:
                self.state = "exhausted"
                self.hand = None

    def pending(self, what, e):
        if self.hand is not None and has_true(self.i, self.r, self.hand):
            self.ck.ob("O1 no record is lost", self.f.name, False, "a record that was read " + what, where(e))

    def read(self, e):
        self.pending("is followed by another", e)
        v = self.cur(self.RD)
        ok = e.obj is not None and contains(e.obj, v)
        self.ck.ob("O3 records come from the reader of the current store", self.f.name, ok, "it reads from %s" % show(e.obj)[:80], where(e))
        self.ck.ob("O3 records come from the reader of the current store", self.f.name + " (null)", self.state != "none", "there is no reader", where(e))
        self.hand = e.extra if e.kind == "call" else None

    def open(self, k, e):
        ck, i = self.ck, self.i
        ck.ob("O4 a store is left only when its records are exhausted", self.f.name, self.state in ("none", "exhausted"), "the next store is opened although the current one may have more records", where(e))
        self.pending("is lost when the next store is opened", e)
        A = e.args[0] if e.args else None
        P = [p for p in self.pos if A is not None and self.about(A, p)]
        ck.ob("O2 the stores are opened in the dataset's order", self.f.name + " (which)", bool(P), "it opens %s" % show(A)[:80], where(e))
        notend = any(x.kind == "fact" and self.more(x.name, x.args[0]) is True for x in self.r.trace[:k])
        ck.ob("O5 the end of the dataset is its last store", self.f.name + " (open)", notend, "a store is opened without looking whether there is one", where(e))
        if e.kind == "mthrow":
            self.failed = True
            self.made = None
            self.opened_failed = (A, {p: self.cur(p) for p in self.pos})
            return
        self.opened, self.made = (A[1] if A is not None and A[0] == "init" else A), e.extra
        self.at = {p: self.cur(p) for p in self.pos}
        self.state = "new"

    failed = False
    joined = None
    opened_failed = None

    def vs_end(self, a):
        """Is a a comparison of the position with the end of the dataset?  'eq': position == end, 'lt': position < end, None: neither"""
        for p in self.pos:
            now = [self.cur(p)] + ([p] if p not in self.val else [])
            end = lambda t: t[0] == "m" and short(t[1]) in ("end", "cend", "size", "distance") or t[0] == "fld" and t[2] in ("end_", "_M_finish")
            if a[0] == "eq" and (a[1] in now and end(a[2]) or a[2] in now and end(a[1])):
                return "eq"
            if a[0] in ("eq0", "pos") and len(a[2]) == 2:
                (x, q), (y, w) = a[2]
                if y in now:
                    (x, q), (y, w) = (y, w), (x, q)
                if x in now and end(y) and q == -w and abs(q) == 1:
                    if a[0] == "eq0" and a[1] == 0:
                        return "eq"
                    if a[0] == "pos" and (w, a[1]) == (1, 0):
                        return "lt"
                    if a[0] == "pos" and (w, a[1]) == (-1, 1):
                        return "ge"
        return None

    def more(self, a, t):
        """the fact says that there is another store (True), that there is none (False), or nothing about it"""
        k = self.vs_end(a)
        return None if k is None else t if k == "lt" else not t

    def at_end(self):
        return any(x.kind == "fact" and self.more(x.name, x.args[0]) is False for x in self.r.trace)

    # -- the end of a part
    def leave_part(self, what, e):
        ck = self.ck
        if self.made is not None:
            for p in self.pos:
                ok = self.cur(p) == self.i.add(self.at[p], ("c", 1))
                ck.ob("O2 the stores are opened in the dataset's order", self.f.name + " (next)", ok, "after a store was opened, the position is %s" % show(self.cur(p))[:80], where(e) if e is not None else self.f.where())
            for L in self.K:
                v = self.cur(L)
                if e is None:
                    v = self.i.add(v, ("c", -1)) if self.returned() else v
                ck.ob("O8 instances are numbered from zero in each store", self.f.name + " (restart)", v == ("c", 0), "after a store was opened, the number of its next instance is %s" % show(v)[:60], where(e) if e is not None else self.f.where())
            ck.ob("O3 records come from the reader of the current store", self.f.name + " (kept)", self.cur(self.RD) == self.made, "the reader that was made is not kept", where(e) if e is not None else self.f.where())
        elif not self.split:
            start = getattr(self, "start", {})
            for p in self.pos:
                ok = self.cur(p) == start.get(p, ("init", p))
                ck.ob("O2 the stores are opened in the dataset's order", self.f.name + (" (failed)" if self.failed else " (stays)"), ok,
                      "a store that could not be opened is skipped" if self.failed else "the position changes to %s without opening a store" % show(self.cur(p))[:80], where(e) if e is not None else self.f.where())

    def end(self):
        ck, i, r, f = self.ck, self.i, self.r, self.f
        self.leave_part("at the end", None)
        if r.outcome != "return":
            return
        v = r.value
        if self.joined is not None and known_null(r, self.joined):
            return      # a split record that was put together is one (C22)
        if v == NULL:
            if self.hand is not None and has_true(i, r, self.hand):
                ck.ob("O1 no record is lost", f.name, False, "a record that was read is dropped", f.where())
            if self.opened is not None and null_store(r, self.opened):
                return
            if self.split:
                return
            ck.ob("O5 the end of the dataset is its last store", f.name, self.at_end() and self.state in ("none", "exhausted"), "it ends although there may be more records or stores", f.where())
            self.after_end()
            return
        inst = v[1] if v[0] == "some" else v
        get = lambda n: dict((x[0], x[1]) for x in inst[2]).get(n) if inst[0] == "agg" else None
        bits, st, ix = fld_like(i, inst, "bits"), fld_like(i, inst, "store"), fld_like(i, inst, "index")
        if bits is None or st is None:
            ck.ob("O6 an instance is a record of the store it names", f.name, False, "it returns %s" % show(v)[:80], f.where())
            return
        if bits == NULL or bits[0] == "null":
            ok = self.made is not None and truth_atom(i, r, ("has", self.made)) is False or self.made is not None and known_null(r, self.made)
            ck.ob("O7 a store is an instance itself exactly when it has no record reader", f.name, ok, "a whole store is returned although it may have records", f.where())
            if ok:
                ck.ob("O6 an instance is a record of the store it names", f.name + " (store)", points_to(st, self.opened), "the instance names %s" % show(st)[:80], f.where())
            return
        if not self.split:
            ok = self.hand is not None and payload_of(r, bits, self.hand)
            ck.ob("O6 an instance is a record of the store it names", f.name, ok, "its bits are %s" % show(bits)[:80], f.where())
            if self.opened is not None:
                ck.ob("O6 an instance is a record of the store it names", f.name + " (store)", points_to(st, self.opened), "the instance names %s" % show(st)[:80], f.where())
            else:
                S = self.stores()
                ck.ob("O6 an instance is a record of the store it names", f.name + " (store)", any(points_to_value(st, self.part_value(s)) for s in S), "the instance names %s" % show(st)[:80], f.where())
        # numbering
        if self.opened is not None:
            ck.ob("O8 instances are numbered from zero in each store", f.name + " (first)", ix == ("c", 0), "the first instance of a store has the number %s" % show(ix)[:80], f.where())
        elif not self.split:
            ck.ob("O8 instances are numbered from zero in each store", f.name + " (next)", any(ix == self.part_value(L) for L in self.K), "the instance's number is %s" % show(ix)[:80], f.where())

    def counts(self, L):
        """Does the member L advance by one from the number that a returned record's instance has?"""
        if self.r.outcome != "return" or self.r.value == NULL:
            return True
        inst = self.r.value[1] if self.r.value[0] == "some" else self.r.value
        bits, ix = fld_like(self.i, inst, "bits"), fld_like(self.i, inst, "index")
        if bits is None or bits == NULL or bits[0] == "null":
            return True
        return ix is not None and self.i.add(ix, ("c", 1)) == self.i.read(self.r.state, L)

    def returned(self):
        if self.r.outcome != "return" or self.r.value == NULL:
            return False
        inst = self.r.value[1] if self.r.value[0] == "some" else self.r.value
        bits = fld_like(self.i, inst, "bits")
        return bits is not None and bits != NULL and bits[0] != "null"

    def part_value(self, L):
        return getattr(self, "start", {}).get(L, ("init", L))

    def counters(self):
        return [this_field(g["n"]) for _, g in self.m.fields(self.f.cls) if strip_type(g["t"]) in ("unsigned long", "std::size_t", "size_t", "unsigned int", "int", "long")]

    def stores(self):
        return [this_field(g["n"]) for _, g in self.m.fields(self.f.cls) if base_name(strip_type(g["t"])) == "mlio::Data_store" or base_name(g["t"]) == "mlio::Intrusive_ptr" and "Data_store" in g["t"]]

    def after_end(self):
        """when the dataset has ended, the members say so"""
        for s in self.stores():
            v = self.i.read(self.r.state, s)
            self.ck.ob("O5 the end of the dataset is its last store", self.f.name + " (after)", v == NULL, "after the end the current store is still %s: it would be returned as an instance" % show(v)[:60], self.f.where())


def fld_like(i, inst, n):
    if inst[0] != "agg":
        return None
    for x in inst[2]:
        if x[0].startswith(n):
            return x[1]
    return None


def has_true(i, r, v):
    return truth_atom(i, r, ("has", v)) is True


def known_null(r, v):
    return any(e.kind == "fact" and e.args[0] is False and (e.name == v or len(e.name) >= 2 and e.name[1] == v) for e in r.trace)


def null_store(r, A):
    p = A[1] if A is not None and A[0] == "*" else None
    return p is not None and known_null(r, p)


def points_to(st, A):
    if A is None:
        return False
    p = A[1] if A[0] == "*" else ("addr", A)
    return st == p or st == ("addr", A) or st == ("addr", ("*", p))


def points_to_value(st, v):
    return st == v or st == ("addr", ("*", v))


# ---------------------------------------------------------------- the bits of an instance
def whole(ck, m):
    """An instance that is a whole store has all of the store's bytes."""
    INST = next((c for c in m.classes if c.endswith("::Instance") and any(f.short == "bits" for f in m.methods(c))), None)
    ck.need(INST, "the class of instances")
    BITS = [this_field(f["n"]) for _, f in m.fields(INST) if "optional" in f["t"] and "Memory_slice" in f["t"]]
    ck.need(len(BITS) == 1, "the member that holds an instance's bits")
    BITS = BITS[0]
    reads = lambda g: [t for t in fn_nodes(g) if t.get("k") == "call" and (t.get("fn") or "").endswith("Input_stream::read")]
    loopers = [g for g in allfns(m) if g.body is not None and "Memory_slice" in (g.d.get("ret") or "") and "optional" not in g.d["ret"] and not (g.cls and ("chunk_reader" in g.cls.lower() or "stream" in g.cls.lower()))
               and any(any(x is y for y in reads(g) for x in walk(l)) for l in fn_nodes(g) if l.get("k") in ("while", "for", "do", "frange"))]
    ck.need(loopers, "the function that reads a whole stream")
    lids = {g.id for g in loopers}
    f = m.method(INST, "bits")
    i = Interp(m, this_cls=INST, peel=0, opaque=lambda fn, call: fn.id in lids or fn.short == "handle_errors")
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        had = truth_atom(i, r, ("has", ("init", BITS)))
        if had is None:
            had = truth(i, r, ("init", BITS))
        got = [e for e in r.trace if e.kind == "call" and isinstance(e.name, str) and ((e.node or {}).get("id") in lids or short(e.name) in ("read", "open_read"))]
        v = i.read(r.state, BITS)
        ck.ob("B1 bits are read once and kept", f.name + (" (read)" if got else ""), (had is True and v == ("init", BITS)) if not got else had is False, "bits that are known are read again, or bits that are not known are not read", f.where())
        if not got:
            continue
        v = v[1] if v[0] == "some" else v
        zc = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and isinstance(e.name, str) and e.name.endswith("Input_stream::read")]
        lc = [(k, e) for k, e in enumerate(r.trace) if e.kind == "call" and (e.node or {}).get("id") in lids]
        src = [e for k, e in zc + lc if e.extra is not None and contains(v, e.extra)]
        ck.ob("B2 the bits of a whole store are all of its bytes", f.name, bool(src), "the bits are %s" % show(v)[:80], f.where())
        if not src:
            continue
        e = src[-1]
        if any(e is x for _, x in zc):
            st = e.obj
            size = [x for x in r.trace if x.kind == "call" and isinstance(x.name, str) and x.name.endswith("Input_stream::size")]
            n = i.add(i.project(e.extra, ("f", None, "end_")), i.project(e.extra, ("f", None, "beg_")), -1)
            ok = any(x.extra is not None and eq_known(i, r, n, x.extra) is True for x in size)
            ck.ob("B2 the bits of a whole store are all of its bytes", f.name + " (one read)", ok, "what one read delivered is taken for everything", where(e))
        else:
            k = next(k for k, x in lc if x is e)
            before = [n for n, x in zc if n < k]
            ok = not before or any(x.kind == "call" and isinstance(x.name, str) and short(x.name) == "seek" and x.args and x.args[0] == ("c", 0) for x in r.trace[before[-1]:k])
            ck.ob("B2 the bits of a whole store are all of its bytes", f.name + " (rewound)", ok, "the stream is read on behind what was read before", where(e))
    for g in loopers:
        collect(ck, m, g)
    # what an instance was given is what it says
    for g in m.methods(INST):
        if g.body is None or g.params or not g.flag("const") or g.short in ("bits",) or g.ret == "void" or "Memory_slice" in (g.d.get("ret") or ""):
            continue
        for r in ck.interp_done(i, i.run(g)):
            if r.outcome == "return":
                fs = [this_field(x["n"]) for _, x in m.fields(INST)]
                v = r.value
                ok = any(v in (("init", L), ("addrref", L), ("init", ("*", ("init", L))), ("addrref", ("*", ("init", L)))) for L in fs)
                ck.ob("B3 an instance says what it was given", g.name, ok, "it returns %s" % show(v)[:80], g.where())


def collect(ck, m, f):
    """The loop that collects a stream in a growing block: what it returns is what was read, from the block's begin."""
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.short == "handle_errors")
    rs = ck.interp_done(i, i.run(f))
    seen = 0
    for r in rs:
        tr = r.trace
        heads = {}
        for j, e in enumerate(tr):
            if e.kind == "loop":
                for L, (en, fr) in (e.extra or {}).items():
                    heads[fr] = (j, L, en)
        rd = [(k, e) for k, e in enumerate(tr) if e.kind == "call" and isinstance(e.name, str) and e.name.endswith("Input_stream::read") and e.args]
        DL = SL = None
        for k, e in rd:
            d, s = i.project(e.args[0], ("f", None, "data_")), i.project(e.args[0], ("f", None, "size_"))
            if d not in heads or s not in heads:
                continue
            (j, DL, de), (_, SL, se) = heads[d], heads[s]
            seen += 1
            # where the block's free part begins
            bl = datas(de)
            ck.ob("B4 what is read goes behind what was read before", f.name, len(bl) == 1 and i.add(de, se) == i.add(("m", "mlio::Memory_block::data", ("*", bl[0]), ()), ("m", "mlio::Memory_block::size", ("*", bl[0]), ())) if bl else False,
                  "the part of the block that is filled does not end at the block's end", where(e))
            if len(bl) != 1:
                continue
            off = i.add(de, ("m", "mlio::Memory_block::data", ("*", bl[0]), ()), -1)
            old = [h for h, (jj, L, en) in heads.items() if jj < j and en == NULL and known_state(r, h, j) is not None]
            was = [h for h in old if known_state(r, h, j)]
            # the block before: the one whose place the new one takes
            grown = [x for x in was if off == ("m", "mlio::Memory_block::size", ("*", x), ())]
            resized = any(x.kind == "call" and isinstance(x.name, str) and short(x.name) in ("resize",) for x in tr[:k])
            ok = bool(grown) if was else off == ("c", 0)
            ck.ob("B4 what is read goes behind what was read before", f.name + " (start)", ok, "after the block grew, reading goes on at offset %s" % show(off)[:60], where(e))
        if r.outcome != "return" or SL is None:
            continue
        v = r.value[1] if r.value[0] == "some" else r.value
        b, e_ = i.project(v, ("f", None, "beg_")), i.project(v, ("f", None, "end_"))
        bl = datas(b)
        n = i.add(i.add(e_, b, -1), i.read(r.state, SL))
        ok = len(bl) == 1 and b == ("m", "mlio::Memory_block::data", ("*", bl[0]), ()) and n == ("m", "mlio::Memory_block::size", ("*", bl[0]), ())
        ck.ob("B5 all that was read is returned, and nothing else", f.name, ok, "it returns %s byte(s)" % show(i.add(e_, b, -1))[:80], f.where())


def datas(t):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == "m" and x[1] == "mlio::Memory_block::data" and x[2][0] == "*":
                if x[2][1] not in out:
                    out.append(x[2][1])
            for y in x:
                go(y)
    go(t)
    return out


def known_state(r, v, upto):
    for e in r.trace[:upto]:
        if e.kind == "fact" and (e.name == v or len(e.name) >= 2 and e.name[1] == v):
            return e.args[0]
    return None
