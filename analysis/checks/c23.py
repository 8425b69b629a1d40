"""The features of a RecordIO-protobuf instance end up in their own tensors: every one of them, once, at the row of the instance.

The decoder of one feature is followed on all paths with everything of its file; what it accepts is compared with the rule for features
(known name, not read before, same data type, sparsity, shape and number of values as the attribute) by evaluating the rule under
every valuation that is consistent with the path's decisions.  The same is done for the attributes that are inferred, for the builder
of the sparse tensors and for the decoder of a batch."""
import itertools
from util import *
from util import loop_segments as _segments
from absint import Interp, show, NULL
from model import base_name, strip_type
from checks.c20 import exc_type

ASSUMPTIONS = ["The protobuf library parses messages as documented; a map has each of its keys once.",
               "The number of elements of a shape fits into std::size_t.",
               "tbb::zip_iterator advances all of its iterators together."]
PB = "aialgs::data::"
READER, DEC, STATE = "mlio::Recordio_protobuf_reader", "mlio::Recordio_protobuf_reader::Decoder", "mlio::Recordio_protobuf_reader::Decoder_state"
KINDS = {"float32_tensor": ("float32", "float"), "float64_tensor": ("float64", "double"), "int32_tensor": ("int32", "int")}
CASES = {"float32_tensor": "kFloat32Tensor", "float64_tensor": "kFloat64Tensor", "int32_tensor": "kInt32Tensor"}
TRUE, FALSE = ("c", True), ("c", False)


def run(ck):
    m = ck.model("core")
    ck.need(DEC in m.classes and STATE in m.classes, "the decoder of the protobuf reader")
    V = {"dt": enums(m, "mlio::Data_type"), "case": cases(ck)}
    ck.need(V["dt"].get("float32") is not None and V["case"].get("kFloat32Tensor") is not None, "the enumerations of the data types")
    f = feature_decoder(ck, m)
    read = feature(ck, m, f, V)
    instance(ck, m, f, read)
    message(ck, m)
    wire(ck)
    inferred(ck, m, V)
    state(ck, m)
    batch(ck, m)
    builder(ck, m)


def enums(m, n):
    return dict(m.enums[n]["c"]) if n in m.enums else {}


def proto(ck):
    """{message: {field: (number, type)}} of the description of the messages"""
    import os, re
    import facts as FA
    path = os.path.join(FA.REPO, "src/mlio/detail/protobuf/recordio_protobuf.proto")
    ck.need(os.path.exists(path), "the description of the messages")
    text = re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", open(path).read(), flags=re.S))
    out, stack = {}, []
    for tok in re.findall(r"(?:message|oneof|enum)\s+\w+\s*\{|\}|[^;{}]+;", text):
        tok = tok.strip()
        x = re.match(r"(message|oneof|enum)\s+(\w+)", tok)
        if x and tok.endswith("{"):
            stack.append((x.group(1), x.group(2)))
        elif tok == "}":
            stack and stack.pop()
        else:
            y = re.match(r"(?:repeated\s+|optional\s+)?(map\s*<[^>]*>|[\w.]+)\s+(\w+)\s*=\s*(\d+)", tok)
            ms = [n for k, n in stack if k == "message"]
            if y and ms:
                out.setdefault(ms[-1], {})[y.group(2)] = (int(y.group(3)), re.sub(r"\s", "", y.group(1)), "repeated" if tok.startswith("repeated") else "")
    return out


def cases(ck):
    p = proto(ck).get("Value", {})
    return {"k" + "".join(x.capitalize() for x in n.split("_")): v[0] for n, v in p.items()}


def last(n):
    return n.split("::")[-1] if isinstance(n, str) else n


def meth(t, *names):
    """obj of the call of one of the named methods that t is, or None."""
    return t[2] if isinstance(t, tuple) and t and t[0] == "m" and last(t[1]) in names else None


def peel(t):
    while isinstance(t, tuple) and t and t[0] in ("init", "some", "ref") and len(t) == 2:
        t = t[1]
    return t


def interp(ck, m, f, opaque=(), files=(), this_cls=None, run=True):
    i = Interp(m, this_cls=this_cls or f.cls, peel=0,
               opaque=lambda fn, c: (fn.file != f.file and fn.file.split("/")[-1] not in files) or fn.id in opaque or fn.name.startswith("mlio::logger::"))
    return i, ck.interp_done(i, i.run(f))


def results(i, rs):
    """(path, facts, result) with results that are conditions split into true and false."""
    for r in rs:
        fs = facts(r.trace)
        v = r.value
        if r.outcome == "return" and v is not None and v[0] not in ("c", "enum") and v != NULL:
            if v[0] == "cond":
                yield r, fs + [(v[1], v[2])], TRUE
                yield r, fs + [(v[1], not v[2])], FALSE
                continue
            if v[0] in ("r", "m", "init", "t"):
                at, pol = i.cond_has(v)
                if at is not None:
                    yield r, fs + [(at, pol)], TRUE
                    yield r, fs + [(at, not pol)], FALSE
                    continue
        yield r, fs, v


def truth_atom(a):
    """The term whose truth the atom is about."""
    return a[1] if isinstance(a, tuple) and a and a[0] in ("has", "truth", "b") else None


# ------------------------------------------------------------ the decoder of one feature
def feature_decoder(ck, m):
    c = [g for g in m.methods(DEC) if g.body is not None and any(PB + "Value" == strip_type(p["t"]).replace("const ", "").replace("&", "").strip() for p in g.params)
         and any("basic_string" in p["t"] for p in g.params)]
    ck.need(c, "the decoder of a feature")
    if len(c) > 1:
        called = {n for g in c for n in callee_ids(m, g)}
        c = [g for g in c if g.id not in called] or c
    ck.need(len(c) == 1, "the one decoder of a feature")
    return c[0]


def callee_ids(m, g):
    from model import fn_nodes
    out = set()
    for n in fn_nodes(g):
        if n.get("k") == "call":
            h = m.resolve_call(n, g.tu)
            if h is not None:
                out.add(h.id)
    return out


def loop_segments(T):
    return [(j, len(T) - 1 if k is None else k, kind) for j, k, kind in _segments(T)]


class Props:
    """What the decisions of a path say about a feature and its attribute."""

    def __init__(self, i, r, fs, value, name):
        self.i, self.r, self.value, self.name = i, r, value, name
        self.kind = None            # which of the tensors of the value is looked at
        self.p = {}
        self.unknown = []
        self.conflict = False
        self.narrow = {}            # out value of a narrowing -> what was narrowed
        self.read_maps()
        for a, v in fs:
            self.fact(a, v)
        self.loops()

    def put(self, k, v):
        if k in self.p and self.p[k] != v:
            self.conflict = True
        self.p[k] = v

    # -- terms
    def tensor(self, t):
        t = peel(t)
        o = meth(t, *KINDS)
        if o is not None and contains(o, self.value):
            if self.kind is None:
                self.kind = last(t[1])
            return last(t[1])
        return None

    def arr(self, t):
        """keys, values or shape of the tensor, or None"""
        t = peel(t)
        o = meth(t, "keys", "values", "shape")
        if o is not None and t[3] != ():
            return None
        return last(t[1]) if o is not None and self.tensor(o) else None

    def is_index(self, t):
        t = peel(t)
        return t[0] == "fld" and t[2] == "*" and self.is_lookup(t[1]) or meth(t, "value") is not None and self.is_lookup(t[2])

    def is_lookup(self, t):
        t = peel(t)
        return t[0] == "m" and last(t[1]) == "get_index" and len(t[3]) == 1 and contains(t[3][0], self.name)

    def attr(self, t):
        """the attribute the name of the feature refers to?"""
        t = peel(t)
        while t[0] in ("*",) and len(t) == 2:
            t = peel(t[1])
        if t[0] == "addr":
            t = t[1]
        return t[0] in ("e", "elt") and self.is_index(t[2]) and (meth(peel(t[1]), "attributes") is not None or
                                                                 names_in(t[1], lambda s: s == "mlio::Schema::attributes") or self.alias(t[1]))

    def alias(self, L):
        v = self.i.tmpsrc.get(L) if hasattr(self.i, "tmpsrc") else None
        return v is not None and names_in(v, lambda s: s == "mlio::Schema::attributes")

    def attr_get(self, t, what):
        t = peel(t)
        o = meth(t, what)
        return o is not None and t[1].startswith("mlio::Attribute::") and self.attr(o)

    def size(self, t):
        """symbolic sizes"""
        t = peel(t)
        if t[0] == "m":
            if last(t[1]) == "size" and t[3] == ():
                a = self.arr(t[2])
                if a:
                    return ("size", a)
                if self.attr_get(t[2], "shape"):
                    return ("rank",)
            for a in ("keys", "values", "shape"):
                if last(t[1]) == a + "_size" and self.tensor(t[2]):
                    return ("size", a)
        if t[0] in ("e", "elt"):
            if self.attr_get(t[1], "strides") and t[2] == ("c", 0):
                return ("stride0",)
            if self.attr_get(t[1], "shape") and t[2][0] == "c":
                return ("dim", t[2][1])
        if t[0] == "r" and t[1].endswith(("as_size", "as_ssize")) and t in self.conv:
            return self.size(self.conv[t])
        if t[0] == "fld" and meth(peel(t[1]), "front") is not None:
            return None
        o = meth(t, "front")
        if o is not None:
            return ("stride0",) if self.attr_get(o, "strides") else None
        o = meth(t, "back")
        if o is not None and self.attr_get(o, "shape"):
            return ("dim", "last")
        return None

    def read_maps(self):
        self.conv = {}
        self.out = {}
        for e in evs(self.r.trace, "call"):
            if last(e.name) in ("as_size", "as_ssize") and len(e.args) == 1 and isinstance(e.extra, tuple):
                self.conv[e.extra] = e.args[0]
        T = self.r.trace
        for k, e in enumerate(T):
            if e.kind == "call" and last(e.name) == "try_narrow" and e.args:
                for x in reversed(T[max(0, k - 3):k]):
                    if x.kind in ("lwrite", "write") and x.args and isinstance(x.args[0], tuple) and x.args[0][:1] == ("r",) and "try_narrow" in str(x.args[0][1]):
                        self.out.setdefault(x.args[0], (e.args[0], e.extra))
                        break

    # -- facts
    def fact(self, a, v):
        k = a[0]
        if k == "eq0":
            c, items = a[1], a[2]
            if len(items) == 1:
                t, co = items[0]
                pt = peel(t)
                if meth(pt, "value_case") is not None and contains(pt, self.value):
                    if co in (1, -1):
                        self.put(("case", -c * co), v)
                    return
                if self.attr_get(t, "data_type") and co in (1, -1):
                    self.put(("dt", -c * co), v)
                    return
                s = self.size(t)
                if s == ("rank",):
                    self.put(("rank", -c * co), v)
                    return
                if s and s[0] == "size" and c == 0:
                    self.put(("empty", s[1]), v)
                    return
            if len(items) == 2:
                d = {self.size(t): co for t, co in items}
                if set(d) == {("rank",), ("size", "shape")} and c * d[("size", "shape")] == 1 and d[("rank",)] == -d[("size", "shape")]:
                    self.put("rankeq", v)
                    return
                if c == 0 and sorted(d.values()) == [-1, 1]:
                    self.pair(frozenset(d), v)
                    return
        elif k == "eq":
            x, y = self.size(a[1]), self.size(a[2])
            if x and y:
                self.pair(frozenset((x, y)), v)
                return
        elif k == "pos":
            c, items = a[1], a[2]
            if len(items) == 1:
                s = self.size(items[0][0])
                if s and s[0] == "size" and items[0][1] == 1 and c == 0:
                    self.put(("empty", s[1]), not v)
                    return
        t = self.i.atom_term(a) if hasattr(self.i, "atom_term") else None
        t = t or (a[1] if len(a) == 2 and isinstance(a[1], tuple) else None)
        if t is not None:
            t = peel(t)
            o = meth(t, "empty")
            if o is not None and self.arr(o):
                self.put(("empty", self.arr(o)), v)
                return
            if self.is_lookup(t):
                self.put("known", v)
                return
            if self.attr_get(t, "sparse"):
                self.put("sparse", v)
                return
            o = meth(t, "operator bool")
            if o is not None:
                t = peel(o)
            if t[0] == "e" and self.is_index(t[2]) and not self.attr(t):
                self.p[("read", t[1])] = v if ("read", t[1]) not in self.p else self.p[("read", t[1])]
                return
            if t[0] == "r" and last(t[1]) == "equal":
                for e in evs(self.r.trace, "call", "std::equal"):
                    if e.extra == t:
                        self.equal(e, v)
                        return
            if t[0] == "r":
                self.p[("call", t)] = v
                return
        self.unknown.append((a, v))

    def pair(self, s, v):
        names = {frozenset((("size", "keys"), ("size", "values"))): "kv",
                 frozenset((("dim", 1), ("size", "values"))): "dim1",
                 frozenset((("dim", "last"), ("size", "values"))): "dim1",
                 frozenset((("stride0",), ("size", "values"))): "stride"}
        if s in names:
            self.put(names[s], v)
        else:
            self.unknown.append((s, v))

    def equal(self, e, v):
        a = e.args
        its = [self.iter_at(x) for x in a]
        tens = [x for x in its if x and x[0] == "tensor"]
        attr = [x for x in its if x and x[0] == "attr"]
        ok = len(tens) >= 1 and len(attr) >= 1 and tens[0][1] == 0 and attr[0][1] == 1
        if ok and len(a) == 4:
            self.put("rankeq", True) if v else None
        self.put("dims", v if ok else None)

    def iter_at(self, t):
        c, d = self.i.lin(t) or (0, {})
        if len(d) != 1:
            return None
        t = peel(next(iter(d)))
        while t[0] == "m" and last(t[1]) == "operator+" and t[3][0][0] == "c":
            c += t[3][0][1]
            t = peel(t[2])
        if meth(t, "begin", "cbegin") is not None:
            if self.arr(t[2]) == "shape":
                return ("tensor", c)
            if self.attr_get(t[2], "shape"):
                return ("attr", c)
        return None

    # -- the loop over the dimensions
    def elem(self, t, ent):
        """(side, position counted from the first dimension of the feature) of a dimension that is looked at in a loop"""
        t = peel(t)
        if t in self.out:
            return self.elem(self.out[t][0], ent)
        if t in self.conv:
            return self.elem(self.conv[t], ent)
        if t[0] == "elt" or t[0] == "e":
            if self.arr(t[1]) == "shape":
                if t[2][0] == "r" and t[2][1] == "iter":
                    return ("tensor", 0, None)
                return ("tensor",) + self.offset(t[2], ent)
            if self.attr_get(t[1], "shape"):
                o = self.offset(t[2], ent)
                return ("attr", o[0] - 1 if o[0] is not None else None, o[1])
        if t[0] == "m" and last(t[1]) == "shape" and len(t[3]) == 1 and self.tensor(t[2]):
            return ("tensor",) + self.offset(t[3][0], ent)
        o = meth(t, "operator*")
        if o is not None and t[3] == ():
            c, d = self.i.lin(o)
            if len(d) == 1:
                k = next(iter(d))
                if k in ent:
                    at = self.iter_at(ent[k][0])
                    if at:
                        return (at[0], at[1] + c - (1 if at[0] == "attr" else 0), ent[k][1])
        return None

    def offset(self, t, ent):
        c, d = self.i.lin(t)
        if len(d) == 1:
            k = next(iter(d))
            if k in ent and ent[k][0][0] == "c":
                return (c + ent[k][0][1], ent[k][1])
        return (None, None)

    def loops(self):
        """'dims' holds if a loop over all dimensions goes on only where they agree and came to its end"""
        T = self.r.trace
        for j, k, kind in loop_segments(T):
            seg = T[j:k + 1]
            ent = {}
            for L, (en, fr) in ((T[j].extra or {}).items() if T[j].kind == "loop" else ()):
                ent[fr] = (en, L)
            agree = None
            mine = False
            for a, v in facts(seg):
                ts = (a[1], a[2]) if a[0] == "eq" else tuple(t for t, c in a[2]) if a[0] == "eq0" and a[1] == 0 and len(a[2]) == 2 else ()
                es = [self.elem(t, ent) for t in ts]
                if len(es) == 2 and all(es) and {x[0] for x in es} == {"tensor", "attr"}:
                    mine = True
                    same = es[0][1] == es[1][1] == 0
                    steps = all(x[2] is None or self.step(T, j, k, x[2]) for x in es) if kind == "iter" else True
                    agree = v if same and steps else "wrong"
            if mine or self.loop_over(T, j):
                if kind == "iter":
                    if agree is not True:
                        self.p["dims"] = "wrong"
                    elif self.p.get("dims") != "wrong":
                        self.p["dims"] = True
                elif kind == "exit":
                    if self.p.get("dims") != "wrong":
                        self.p["dims"] = True
                elif kind == "leave" and self.p.get("dims") != "wrong":
                    self.p["dims"] = False

    def step(self, T, j, k, L):
        for e in T[j:k + 1]:
            if e.kind == "iter":
                v = (e.extra or {}).get(L)
                if v is None:
                    return False
                c, d = self.i.lin(v)
                return c == 1
        return False

    def loop_over(self, T, j):
        """is it a loop over the range of the dimensions of the feature?"""
        e = T[j - 1] if j else None
        ent = entries(T, j)
        for a, v in facts(T[j:j + 5]):
            if a[0] in ("pos", "eq0") and any(t in ent for t, c in a[2]) and any(self.size(t) in (("size", "shape"), ("rank",)) for t, c in a[2]):
                return True
        return e is not None and e.kind == "call" and isinstance(e.extra, tuple) and self.arr(e.extra) == "shape"


def feature(ck, m, f, V):
    i, rs = interp(ck, m, f)
    name = next(("obj", "arg%d" % n) for n, p in enumerate(f.params) if "basic_string" in p["t"])
    val = next(("obj", "arg%d" % n) for n, p in enumerate(f.params) if PB + "Value" in p["t"])
    w = f.where()
    seen = set()
    marks = set()
    for r, fs, v in results(i, rs):
        if r.outcome != "return" or v not in (TRUE, FALSE):
            continue
        P = Props(i, r, fs, val, name)
        if P.conflict:
            continue
        ok = v == TRUE
        kind = next((k for k in KINDS if P.p.get(("case", V["case"][CASES[k]])) is True), None)
        at = "%s (%s)" % (short(f.name), KINDS[kind][0] if kind else "other kinds of values")
        good, why = rule(P, kind, V)
        if ok:
            seen.add(kind)
            ck.ob("accepted features follow the rule", at, good is True, "a feature is accepted although it is not established that %s" % why, ck_where(ck, r, w))
            if kind:
                stored(ck, m, i, r, P, kind, V, at, w)
            rd = [k[1] for k, x in P.p.items() if k[0] == "read" and x is False]
            mk = [e for e in evs(r.trace, "write") if isinstance(e.obj, tuple) and e.obj[0] == "e" and P.is_index(e.obj[2]) and e.obj[1] in rd and e.args and e.args[0] == TRUE]
            ck.ob("an attribute is read once", at, bool(mk), "a feature is accepted without making sure that no other feature of the instance has been read for its attribute", ck_where(ck, r, w))
            for e in mk:
                marks.add(e.obj[1])
        else:
            ck.ob("rejected features break the rule", at, good is not True, "a feature is rejected although it has the name, type, sparsity, shape and number of values of its attribute", ck_where(ck, r, w))
    for k in KINDS:
        ck.ob("every kind of tensor can be read", k, k in seen, "no feature of this kind is accepted", w)
    return marks


def ck_where(ck, r, w):
    return w


def rule(P, kind, V):
    """Is the rule for features true under all valuations that agree with the path, false under all, or open?  -> (True/False/None, what is open)"""
    p = P.p
    g = p.get
    [("the name is one of the schema's", {"known"}, lambda x: x["known"])]
    if kind is None:
        # no readable tensor
        return (False, "the value is a tensor")
    dt = V["dt"][KINDS[kind][0]]
    eq = g(("dt", dt))
    if eq is None:
        # equality with another type excludes this one
        others = [n for (k, *n), x in ((k, x) for k, x in p.items() if isinstance(k, tuple) and k[0] == "dt") if x is True]
        if others and others[0][0] != dt:
            eq = False
    base = {"known": g("known"), "fresh": fresh(p), "dt": eq, "K": g(("empty", "keys")), "Vz": g(("empty", "values")), "S": g(("empty", "shape")),
            "sparse": g("sparse"), "rank2": g(("rank", 2)), "dim1": g("dim1"), "rankeq": g("rankeq"), "dims": g("dims"), "kv": g("kv"), "stride": g("stride"),
            "keysok": appended(P)}
    if base["dims"] == "wrong":
        return (None, "the dimensions of the feature are those of the attribute")
    names = [k for k, v in base.items() if v is None]
    rules = [("the name is one of the schema's", lambda x: x["known"]),
             ("the attribute was not read before", lambda x: x["fresh"]),
             ("the data type is the attribute's", lambda x: x["dt"]),
             ("the feature is sparse exactly if the attribute is", lambda x: x["sparse"] == (not x["K"] or (x["Vz"] and not x["S"]))),
             ("the shape is the attribute's", lambda x: (x["rank2"] and x["dim1"]) if x["S"] else (x["rankeq"] and x["dims"])),
             ("there are as many keys as values", lambda x: not x["sparse"] or x["kv"]),
             ("the keys are valid", lambda x: not x["sparse"] or x["keysok"]),
             ("there are as many values as the attribute has", lambda x: x["sparse"] or x["stride"])]
    all_true, any_true, open_ = True, False, set()
    for vals in itertools.product((True, False), repeat=len(names)):
        x = dict(base)
        x.update(zip(names, vals))
        if not consistent(x):
            continue
        bad = [n for n, fn in rules if not fn(x)]
        if bad:
            all_true = False
            open_.update(bad[:1] if len(bad) == 1 else [])
            if len(bad) > 1 and not open_:
                open_.add(bad[0])
        else:
            any_true = True
    if all_true and any_true:
        return (True, "")
    if not any_true:
        return (False, " and ".join(sorted(open_)) or "the rule")
    return (None, ", or ".join(sorted(open_)))


def consistent(x):
    # no keys and no values: as many of the one as of the other
    if x["K"] and x["Vz"] and not x["kv"]:
        return False
    if x["K"] != x["Vz"] and x["kv"]:
        return False
    return True


def fresh(p):
    vals = [x for k, x in p.items() if isinstance(k, tuple) and k[0] == "read"]
    return None if not vals else not any(vals)


def append_events(P):
    return [e for e in evs(P.r.trace, "call") if last(e.name) == "append" and "Coo_tensor_builder" in e.name]


def appended(P):
    es = append_events(P)
    if not es:
        return None
    return P.p.get(("call", es[0].extra))


def stored(ck, m, i, r, P, kind, V, at, w):
    """an accepted feature was put into the tensor, or given to the builder, of its attribute"""
    dtn, cty = KINDS[kind]
    if P.p.get("sparse") is True:
        es = append_events(P)
        ok = len(es) == 1
        why = "the feature is not given to the builder exactly once"
        if ok:
            e = es[0]
            o = peel(e.obj[1]) if e.obj and e.obj[0] == "*" else peel(e.obj) if e.obj else ()
            ok = bool(o) and o[0] in ("e", "elt") and P.is_index(o[2]) and names_in(o[1], lambda s: s == P_builders(m))
            why = "it is given to the builder of another attribute"
            if ok:
                ok = len(e.args) == 2 and source(P, e.args[0]) == "values" and source(P, e.args[1]) == "keys"
                why = "the builder is given something else than the values and the keys"
            if ok:
                ok = ("::" + dtn + ">") in (e.node.get("cls") or "") or ("Data_type)%d" % V["dt"][dtn]) in (e.node.get("cls") or "")
                why = "the builder is used as one of another data type"
        ck.ob("sparse features go to their builder", at, ok, why, w)
        ck.ob("dense tensors are left alone by sparse features", at, not [e for e in evs(r.trace, "call", ("copy_n", "copy"))], "values of a sparse feature are copied", w)
        return
    es = [e for e in evs(r.trace, "call", ("std::copy_n", "std::copy", "std::transform", "std::memcpy"))]
    ok, why = len(es) == 1, "the values are not copied exactly once"
    if ok:
        e = es[0]
        ok, why = copies(P, e)
        if ok:
            ok, why = destination(i, P, e.args[2] if len(e.args) > 2 else e.args[-1], cty)
    ck.ob("dense features are copied to their tensor", at, ok, why, w)


def P_builders(m):
    return next((x["n"] for k, x in m.fields(STATE) if "Coo_tensor_builder" in x["t"]), "coo_tensor_builders")


def P_tensors(m):
    return next((x["n"] for k, x in m.fields(STATE) if "Intrusive_ptr<mlio::Tensor>" in x["t"] or "Intrusive_ptr<class mlio::Tensor>" in x["t"]
                 or ("Tensor>" in x["t"] and "builder" not in x["t"])), "tensors")


def source(P, t):
    t = peel(t)
    while t[0] == "new" and len(t) >= 4 and "span" in t[1]:
        t = peel(t[3])
    return P.arr(t)


def copies(P, e):
    a = e.args
    b = peel(a[0]) if a else ()
    if not (meth(b, "begin", "cbegin", "data") is not None and P.arr(b[2]) == "values"):
        return False, "something else than the values is copied, or not from the first one on"
    if last(e.name) == "copy_n":
        n = P.size(a[1])
        if n not in (("stride0",), ("size", "values")):
            return False, "not all the values are copied"
        return True, ""
    if last(e.name) == "copy":
        z = peel(a[1])
        if not (meth(z, "end", "cend") is not None and P.arr(z[2]) == "values"):
            return False, "not all the values are copied"
        return True, ""
    return False, "the values are not copied one by one"


def factors(i, P, t):
    """multiset of the factors of a product"""
    t = peel(t)
    if t[0] == "op" and t[1] == "*":
        return factors(i, P, t[2]) + factors(i, P, t[3])
    if t in P.conv:
        return factors(i, P, P.conv[t])
    s = P.size(t)
    if s:
        return [s[:1] if s != ("size", "values") else ("stride0",)]
    if t[0] == "f" or (t[0] == "init" and t[1][0] == "f"):
        t = peel(t)
        return [("field", t[2])]
    return [t]


def destination(i, P, t, cty):
    """tensors[index].data().as<type>().begin() + row * stride"""
    t = peel(t)
    parts = []

    def split(x):
        x = peel(x)
        if x[0] == "op" and x[1] == "+":
            split(x[2]); split(x[3])
        elif x[0] == "m" and last(x[1]) == "operator+" and len(x[3]) == 1:
            split(x[2]); split(x[3][0])
        elif x[0] == "lin" and x[1] == 0 and all(c == 1 for _, c in x[2]):
            for y, _ in x[2]:
                split(y)
        else:
            parts.append(x)
    split(t)
    if len(parts) != 2:
        return False, "the values are not copied to the row of the instance"
    off = [x for x in parts if not (x[0] == "m" and last(x[1]) in ("begin", "data"))]
    beg = [x for x in parts if x not in off]
    if len(off) != 1 or len(beg) != 1:
        return False, "the values are not copied to the row of the instance"
    fx = sorted(factors(i, P, off[0]), key=repr)
    if not (len(fx) == 2 and ("stride0",) in fx and any(x[0] == "field" for x in fx)):
        return False, "the position in the tensor is not the row times the number of values of a row"
    P.rowfield = next(x[1] for x in fx if x[0] == "field")
    # the buffer: the data of the tensor at the index
    buf = beg[0]
    data = [e for e in evs(P.r.trace, "call") if last(e.name) == "data" and e.extra is not None and contains(buf, e.extra)]
    view = [e for e in evs(P.r.trace, "call") if last(e.name) == "as"]
    if len(data) != 1 or not view or not all(base_elem(e.node.get("t", "")) == cty for e in view):
        return False, "the data of the tensor is not written as its own type"
    o = data[0].obj
    hit = mentions(o, lambda x: x[0] in ("e", "elt") and len(x) > 2 and P.is_index(x[2]) and names_in(x[1], lambda s: s == P.tensors))
    return hit, "the values are copied to the tensor of another attribute"


def base_elem(t):
    t = strip_type(t)
    t = t[t.find("<") + 1:] if "<" in t else t
    return t.split(",")[0].strip(" >").replace("const ", "")


Props.tensors = "tensors"
Props.rowfield = None


# ------------------------------------------------------------ an instance
def instance(ck, m, f, marks):
    g = m.method(DEC, "decode")
    ck.need(g is not None, "the decoder of an instance")
    i, rs = interp(ck, m, g, opaque={f.id})
    w = g.where()
    at = short(g.name)
    n = 0
    roles = loop_roles(rs)
    for r, fs, v in results(i, rs):
        if r.outcome != "return" or v != TRUE:
            continue
        n += 1
        T = r.trace
        calls = [(k, e) for k, e in enumerate(T) if e.kind == "call" and e.node is not None and e.name == f.name]
        okc = all(any(a[-1] == e.extra and x is True for a, x in fs if len(a) == 2) for k, e in calls)
        ck.ob("an instance is good only if all its features are", at, okc, "a feature that was rejected does not make the instance a bad one", w)
        for what in ("label", "features"):
            segs = [(j, k, kind) for j, k, kind in loop_segments(T) if range_of(roles, T, j, what)]
            ex = [s for s in segs if s[2] != "leave"]
            ck.ob("all labels and features are read", "%s: %s" % (at, what), bool(ex) and not [s for s in segs if s[2] == "leave"],
                  "an instance is accepted without having gone through all of its %s" % ("labels" if what == "label" else "features"), w)
            for j, k, kind in segs:
                if kind != "iter":
                    continue
                es = [e for q, e in calls if j <= q <= k]
                ck.ob("every label and feature is read once", "%s: %s" % (at, what), len(es) == 1 and named(T, es[0], what, j),
                      "an element of the %s is not read exactly once under its own name" % ("labels" if what == "label" else "features"), w)
        # the count
        cnt = None
        for a, x in fs:
            if a[0] in ("eq", "eq0") and x is True and names_in(a, lambda s: s == "mlio::Schema::attributes"):
                cnt = a
        ck.ob("every attribute is read", at, cnt is not None and counts(i, r, cnt, calls), "an instance is accepted without as many features as the schema has attributes", w)
        first = min([j for j, k, kind in loop_segments(T)] or [0])
        clean = [e for e in T[:first] if e.kind == "write" and e.obj in marks]
        clean = clean and any(e.kind == "call" and last(e.name) in ("assign", "clear", "resize") and e.obj in marks and (last(e.name) != "assign" or e.args[1:] == (FALSE,)) and
                              (last(e.name) != "assign" or names_in(e.args[0], lambda s: s == "mlio::Schema::attributes")) for e in T[:first]) or \
            any(e.kind == "write" and e.obj in marks and e.args and e.args[0][:1] == ("new",) and FALSE in e.args[0] for e in T[:first])
        ck.ob("no attribute is read at first", at, bool(marks) and bool(clean), "what was read of the instance before is still noted", w)
        row = [e for e in T[:first] if e.kind == "write" and is_this_field(e.obj)]
        rowf = Props.rowfield or "row_idx_"
        ck.ob("the row is the one asked for", at, any(e.obj[2] == rowf and peel(e.args[0]) == ("obj", "arg0") or e.obj[2] == rowf and e.args[0] == ("arg", 0) or
                                                      e.obj[2] == rowf and contains(e.args[0], ("obj", "arg0")) for e in row), "the row features are written to is not the one that was asked for", w)
    ck.ob("instances can be read", at, n > 0, "no instance is accepted", w)


def loop_roles(rs):
    """which map of the message a loop goes over, by the elements that are looked at in it"""
    out = {}
    for r in rs:
        T = r.trace
        for j, k, kind in loop_segments(T):
            ent = entries(T, j)
            for n in ("label", "features"):
                if any(meth(peel(en), "begin", "cbegin") is not None and names_in(en, lambda s: s == PB + "Record::" + n) for en, L in ent.values()):
                    out.setdefault(id(T[j].node), set()).add(n)
            for e in T[j:k + 1]:
                for n in ("label", "features"):
                    if mentions(e.args, lambda x: x[0] in ("elt", "e") and names_in(x[1], lambda s: s == PB + "Record::" + n)) and e.kind == "call":
                        out.setdefault(id(T[j].node), set()).add(n)
    return out


def range_of(roles, T, j, what):
    return what in roles.get(id(T[j].node), ())


def named(T, e, what, j):
    """the element of the map is read by its own name"""
    ok = len(e.args) >= 2
    ent = entries(T, j)
    at = lambda t: tuple(map(at, t)) if isinstance(t, tuple) and t not in ent else ent[t][0] if isinstance(t, tuple) and meth(peel(ent[t][0]), "begin", "cbegin") is not None else t
    n, v = e.args[0], at(e.args[1])
    elt = lambda t, fld: mentions(t, lambda x: x[0] in ("fld", "f") and len(x) > 2 and x[2] in fld and names_in(x[1], lambda s: s == PB + "Record::" + what))
    src = n
    if n[0] == "r" or n[0] == "new":
        for c in T:
            if c.extra == n:
                src = c.args
    src = at(src)
    strs = []

    def collect(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "s":
                strs.append(t[1])
            for x in t:
                collect(x)
    collect(src)
    want = ["label_"] if what == "label" else []
    return ok and elt(src, ("first", "#0")) and elt(v, ("second", "#1")) and (strs == want or what == "label" and strs == ["label_{0}"] or what == "label" and strs == ["label_{}"])


def counts(i, r, a, calls):
    """Is one side of the equality the number of attributes and the other the number of features that were read?"""
    ts = [a[1], a[2]] if a[0] == "eq" else None
    if ts is None:
        c, items = a[1], a[2]
        i.mk_lin(0, {t: k for t, k in items if not names_in(t, lambda s: s == "mlio::Schema::attributes")})
        neg = [t for t, k in items if names_in(t, lambda s: s == "mlio::Schema::attributes")]
        if len(neg) != 1:
            return False
        k = dict(items)[neg[0]]
        cnt = i.mk_lin(c * -k, {t: x * -k for t, x in items if t != neg[0]})
    else:
        neg = [t for t in ts if names_in(t, lambda s: s == "mlio::Schema::attributes")]
        cnt = next((t for t in ts if t not in neg), None)
        if len(neg) != 1 or cnt is None:
            return False
    if meth(peel(neg[0]), "size") is None:
        return False
    c, d = i.lin(cnt)
    names_ = sorted(last(t[1]) for t in map(peel, d) if t[0] == "m")
    if names_ == ["features_size", "label_size"] and c == 0 and set(d.values()) == {1}:
        return True
    # a counter: begins at zero and is one higher after every iteration that read a feature
    T = r.trace
    chain = {}
    for e in T:
        if e.kind == "loop":
            for L, (en, fr) in (e.extra or {}).items():
                chain[fr] = ("entry", en, L, id(e.node))
        elif e.kind == "endloop":
            for L, fr in (e.extra or {}).items():
                if isinstance(fr, tuple):
                    chain[fr] = ("after", L, id(e.node))
    byloop = {}
    for e in T:
        if e.kind == "loop":
            for L, (en, fr) in (e.extra or {}).items():
                byloop[id(e.node), L] = (en, fr)
    t = cnt
    for _ in range(20):
        c, d = i.lin(t)
        if not d:
            return c == 0
        if c != 0 or len(d) != 1 or list(d.values()) != [1]:
            return False
        k = next(iter(d))
        x = chain.get(k)
        if x is None:
            return False
        if x[0] == "after":
            en, fr = byloop.get((x[2], x[1]), (None, None))
            if fr is None or not stepped(i, T, x[2], x[1], fr):
                return False
            t = en
        else:
            if not stepped(i, T, x[3], x[2], k):
                return False
            t = x[1]
    return False


def stepped(i, T, node, L, fr):
    """the variable is one higher at the end of every iteration of the loop than at its beginning"""
    for e in T:
        if e.kind == "iter" and id(e.node) == node:
            v = (e.extra or {}).get(L)
            if v is None or i.add(v, fr, -1) != ("c", 1):
                return False
    return True


# ------------------------------------------------------------ the message
def message(ck, m):
    for c in (READER,):
        for g in m.methods(c):
            if g.body is None or not g.ret or PB + "Record" not in g.ret:
                continue
            i, rs = interp(ck, m, g)
            w, at = g.where(), short(g.name)
            n = 0
            for r, fs, v in results(i, rs):
                if r.outcome != "return" or v == NULL or v is None or v == FALSE:
                    continue
                if v in (TRUE,):
                    v = r.value
                es = [e for e in evs(r.trace, "call") if last(e.name).startswith("Parse") or last(e.name).startswith("MergeFrom")]
                n += 1
                ok = len(es) == 1 and last(es[0].name) in ("ParseFromArray", "ParseFromString") and any(len(a) == 2 and a[1] == es[0].extra and x is True for a, x in fs)
                ck.ob("only messages that were parsed are used", at, ok, "a message is used without having been parsed completely", w)
                if not ok:
                    continue
                e = es[0]
                a = e.args
                whole = len(a) == 2 and names_in(a[0], lambda s: s == "mlio::Instance::bits") and bits_data(r, a[0]) and size_of_bits(r, a[1], fs)
                ck.ob("the whole instance is parsed", at, whole, "the message is not parsed from all the bytes of the instance", w)
                ck.ob("the message that was parsed is the one used", at, r.value is not None and (r.value == ("addr", e.obj) or contains(r.value, e.obj)), "another message is used than the one that was parsed", w)
            ck.ob("messages can be parsed", at, n > 0, "no message is ever used", w)


def bits_data(r, t):
    t = peel(t)
    return meth(t, "data") is not None or t[0] == "r" or names_in(t, lambda s: s.endswith("::data"))


def size_of_bits(r, t, fs):
    """the size of the bits, in a type it is known to fit into"""
    t = peel(t)
    for e in evs(r.trace, "call"):
        if last(e.name) == "try_narrow":
            held = any(len(a) == 2 and a[1] == e.extra and x is True for a, x in fs)
            if held and t[0] == "r" and "try_narrow" in t[1] and names_in(e.args[0], lambda s: s.endswith("::size")) and names_in(e.args[0], lambda s: s == "mlio::Instance::bits"):
                return True
    if meth(t, "size") is not None and names_in(t, lambda s: s == "mlio::Instance::bits"):
        # compared with what the type can hold
        return any(a[0] == "pos" and any(peel(x) == t for x, c in a[2]) for a, x in fs)
    return False


WIRE = {"Float32Tensor": {"values": (1, "float"), "keys": (2, "uint64"), "shape": (3, "uint64")},
        "Float64Tensor": {"values": (1, "double"), "keys": (2, "uint64"), "shape": (3, "uint64")},
        "Int32Tensor": {"values": (1, "int32"), "keys": (2, "uint64"), "shape": (3, "uint64")},
        "Value": {"float32_tensor": (2, "Float32Tensor"), "float64_tensor": (3, "Float64Tensor"), "int32_tensor": (7, "Int32Tensor"), "bytes": (9, "Bytes")},
        "Record": {"features": (1, "map<string,Value>"), "label": (2, "map<string,Value>")}}


def wire(ck):
    p = proto(ck)
    for msg, fields in WIRE.items():
        for n, (num, ty) in fields.items():
            got = p.get(msg, {}).get(n)
            ck.ob("the fields have their numbers of the RecordIO-protobuf format", msg + "." + n, got is not None and got[:2] == (num, ty) and
                  (msg in ("Value", "Record") or got[2] == "repeated"), "the field is described as %s" % (got,), "src/mlio/detail/protobuf/recordio_protobuf.proto")


# ------------------------------------------------------------ the attributes that are inferred
def inferred(ck, m, V):
    mk = [g for g in m.methods(READER) if g.body is not None and any(PB + "Value" in p["t"] for p in g.params) and "mlio::Attribute" in (g.ret or "")]
    ck.need(len(mk) >= 1, "what makes an attribute of a feature")
    called = {n for g in mk for n in callee_ids(m, g)}
    f = ([g for g in mk if g.id not in called] or mk)[0]
    i, rs = interp(ck, m, f)
    pos = lambda s: next((("obj", "arg%d" % n) for n, p in enumerate(f.params) if s in p["t"]), None)
    name, val = pos("basic_string"), pos(PB + "Value")
    w = f.where()
    flag = flag_of_parallel(m)
    ck.need(flag, "the flag that keeps sparse features from being read in parallel")
    seen = set()
    for r in rs:
        P = Props(i, r, facts(r.trace), val, name)
        if P.conflict:
            continue
        kind = next((k for k in KINDS if P.p.get(("case", V["case"][CASES[k]])) is True), None)
        at = "%s (%s)" % (short(f.name), KINDS[kind][0] if kind else "other kinds of values")
        K, Z, S = (P.p.get(("empty", x)) for x in ("keys", "values", "shape"))
        if r.outcome == "return":
            v = r.value
            ok = v is not None and v[0] == "new" and base_name(v[1]) == "mlio::Attribute" and len(v) >= 8
            ck.ob("a feature becomes an attribute", at, ok and kind is not None, "something else than a tensor becomes an attribute" if ok else "the attribute is not made here", w)
            if not (ok and kind):
                continue
            seen.add(kind)
            a = v[3:]
            sparse = None if K is None else True if K is False else (None if S is None else False if S else Z)
            ck.ob("the attribute has the name of the feature", at, contains(a[0], name), "the attribute has another name", w)
            ck.ob("the attribute has the data type of the feature", at, a[1] == ("c", V["dt"][KINDS[kind][0]]) or a[1][0] == "enum" and a[1][2] == V["dt"][KINDS[kind][0]], "the attribute has the data type %s" % show(a[1]), w)
            okv = sparse is not None and a[4][0] == "c" and bool(a[4][1]) == sparse
            ck.ob("the attribute is sparse exactly if the feature is", at, okv, "the sparsity of the attribute is not the feature's: there are keys, or a shape and no values", w)
            if sparse is True and K is False:
                ck.ob("a sparse feature needs a shape", at, S is False, "a sparse feature without a shape becomes an attribute", w)
            sets = [e for e in evs(r.trace, "write") if is_this_field(e.obj, flag) and e.args[0] in (TRUE, ("c", 1))]
            wr = [e for e in evs(r.trace, "write") if is_this_field(e.obj, flag)]
            if sparse is True or sparse is None:
                ck.ob("sparse features are not read in parallel", at, bool(sets) and wr[-1] is sets[-1], "a sparse feature is not noted, so it could be read in parallel", w)
            else:
                ck.ob("a dense feature leaves the note of a sparse one", at, len(sets) == len(wr), "the note that there is a sparse feature is taken back", w)
            shape_of(ck, i, r, P, a[2], S, at, w)
        elif r.outcome == "throw":
            bad = kind is None or (K is False and S is True) or any(k[0] == "call" and x is False for k, x in P.p.items() if isinstance(k, tuple))
            ck.ob("a readable feature is not refused", at, bad, "a feature that can be read is refused", w)
            ck.ob("a feature that cannot be read is a schema error", at, thrown(r) in ("mlio::Schema_error", "mlio::Not_supported_error") or not bad, "it is reported as %s" % thrown(r), w)
    for k in KINDS:
        ck.ob("every kind of tensor can be inferred", k, k in seen, "no attribute is made for this kind", w)
    schema(ck, m, f)


def thrown(r):
    return exc_type(r)


def flag_of_parallel(m):
    fs = [x["n"] for k, x in m.fields(READER) if k == READER and strip_type(x["t"]) == "bool" and "sparse" in x["n"]]
    if len(fs) == 1:
        return fs[0]
    fs = [x["n"] for k, x in m.fields(READER) if k == READER and strip_type(x["t"]) == "bool"]
    return fs[0] if len(fs) == 1 else None


def first_entry(t):
    """the single element a vector begins with"""
    if t[0] == "new" and "vector" in t[1]:
        for x in t[3:]:
            if isinstance(x, tuple) and x and x[0] == "list" and len(x) == 3:
                return x[2]
    return None


def shape_of(ck, i, r, P, v, S, at, w):
    """the batch size and the dimensions of the feature, or its number of values"""
    T = r.trace
    adds = [(k, e) for k, e in enumerate(T) if e.kind == "call" and last(e.name) in ("emplace_back", "push_back") and e.obj and e.obj[0] == "v"]
    {e.obj for k, e in adds}
    # the variable whose value is handed to the attribute
    cur, owner = {}, None
    for e in T:
        if e.kind == "lwrite":
            cur[e.obj] = e.args[0]
        if e.kind == "endloop":
            for L, fr in (e.extra or {}).items():
                cur[L] = fr
        if e.kind == "loop":
            for L, (en, fr) in (e.extra or {}).items():
                cur[L] = fr
    for L, x in cur.items():
        if x == v or (isinstance(x, tuple) and contains(v, x) and x[0] in ("mut", "r")):
            owner = L
    first = next((e.args[0] for e in T if e.kind == "lwrite" and e.obj == owner), None)
    fe = first_entry(first) if first else None
    loops = {}
    for j, k, kind in loop_segments(T):
        loops.setdefault(j, (k, kind))
    mine = [(k, e) for k, e in adds if e.obj == owner]
    if fe is None and first is not None and mine:
        fe = mine[0][1].args[0]
        mine = mine[1:]
    ck.ob("the first dimension is the batch size", at, fe is not None and names_in(fe, lambda s: s == "batch_size"), "the shape of the attribute does not begin with the batch size", w)
    if S is True:
        n = len(mine) == 1 and P.size(conv(P, mine[0][1].args[0])) == ("size", "values")
        ck.ob("a feature without a shape is a vector of its values", at, n, "its shape is not the number of its values", w)
    elif S is False:
        dims = [(j, k, kind) for j, k, kind in loop_segments(T) if P.loop_over(T, j) or any(P.elem(e.args[0], entries(T, j)) for q, e in mine if j <= q <= k)]
        ck.ob("the dimensions of a feature are the attribute's", at, bool(dims) and all(kind != "leave" for j, k, kind in dims), "the dimensions are not copied", w)
        for j, k, kind in dims:
            if kind != "iter":
                continue
            es = [e for q, e in mine if j <= q <= k]
            ent = entries(T, j)
            el = [P.elem(e.args[0], ent) for e in es]
            ok = len(es) == 1 and el[0] is not None and el[0][0] == "tensor" and el[0][1] == 0 and (el[0][2] is None or P.step(T, j, k, el[0][2]))
            ck.ob("the dimensions of a feature are the attribute's, one by one", at, ok, "a dimension is left out, doubled or changed", w)
            nar = [e for e in T[j:k] if e.kind == "call" and last(e.name) == "try_narrow"]
            ck.ob("a dimension that does not fit is refused", at, all(P.p.get(("call", e.extra)) is True for e in nar) , "a dimension that does not fit is used", w)
        out = [e for q, e in mine if not any(j <= q <= k for j, k, kind in dims)]
        ck.ob("an attribute has no further dimensions", at, not out, "dimensions are added to those of the feature", w)


def conv(P, t):
    t = peel(t)
    return P.conv.get(t, t)


def entries(T, j):
    return {fr: (en, L) for L, (en, fr) in ((T[j].extra or {}).items() if T[j].kind == "loop" else ())}


def schema(ck, m, f):
    g = m.method(READER, "infer_schema")
    ck.need(g is not None, "what infers the schema")
    i, rs = interp(ck, m, g, opaque={f.id})
    w, at = g.where(), short(g.name)
    n = 0
    roles = loop_roles(rs)
    for r in rs:
        if r.outcome != "return" or r.value is None or r.value == NULL or r.value[0] == "c":
            continue
        T = r.trace
        calls = [(k, e) for k, e in enumerate(T) if e.kind == "call" and e.name == f.name and "Value" in f.params[-1]["t"] and len(e.args) == len(f.params)]
        if not names_in(r.value, lambda s: s == "mlio::Schema"):
            continue
        n += 1
        put = [(k, e) for k, e in enumerate(T) if e.kind == "call" and last(e.name) in ("emplace_back", "push_back")]
        for what in ("label", "features"):
            segs = [(j, k, kind) for j, k, kind in loop_segments(T) if range_of(roles, T, j, what)]
            what_ = "labels" if what == "label" else "features"
            ck.ob("the schema has all labels and features", "%s: %s" % (at, what), len(segs) == 1 and segs[0][2] != "leave", "the schema is inferred without going through all of the %s" % what_, w)
            for j, k, kind in segs:
                if kind != "iter":
                    continue
                es = [e for q, e in calls if j <= q <= k]
                ps = [e for q, e in put if j <= q <= k]
                off = len(f.params) - 2
                ok = len(es) == 1 and len(ps) == 1 and contains(ps[0].args, es[0].extra) and named(T, Shift(es[0], off), what, j)
                ck.ob("every label and feature becomes one attribute", "%s: %s" % (at, what), ok, "one of the %s does not become exactly one attribute with the name it is looked up by" % what_, w)
    ck.ob("a schema can be inferred", at, n > 0, "no schema is ever inferred", w)


class Shift:
    def __init__(self, e, off):
        self.args = e.args[off:]
        self.extra = e.extra


# ------------------------------------------------------------ the tensors of a batch
def state(ck, m):
    g = next((g for g in m.methods(STATE) if g.is_ctor and g.body is not None and len(g.params) >= 2), None)
    ck.need(g is not None, "the state of the decoder of a batch")
    i, rs = interp(ck, m, g)
    w, at = g.where(), "Decoder_state"
    tensors, builders = P_tensors(m), P_builders(m)
    size = next((("init", ("obj", "arg%d" % n)) for n, p in enumerate(g.params) if strip_type(p["t"]) in ("unsigned long", "std::size_t", "size_t")), None)
    seen = set()
    for r in rs:
        if r.outcome not in ("return", "end"):
            continue
        T = r.trace
        segs = [s for s in loop_segments(T) if any(e.kind == "call" and e.name == "mlio::Schema::attributes" for e in T[max(0, s[0] - 4):s[0]])]
        ck.ob("every attribute has its place", at, len(segs) == 1 and segs[0][2] != "leave", "the tensors are not prepared for all the attributes", w)
        for j, k, kind in segs:
            if kind != "iter":
                continue
            seg = T[j:k + 1]
            attr = lambda t: mentions(t, lambda x: x[0] in ("elt", "e") and len(x) > 2 and x[2][:2] == ("r", "iter") or x[0] == "elt" and names_in(x[1], lambda s: s == "mlio::Schema::attributes"))
            sp = [v for a, v in facts(seg) if len(a) == 2 and meth(peel(a[1]), "sparse") is not None and attr(a[1])]
            puts = {n: [e for e in seg if e.kind == "call" and last(e.name) in ("emplace_back", "push_back") and is_this_obj(e.obj, n)] for n in (tensors, builders)}
            ok = all(len(x) == 1 for x in puts.values())
            ck.ob("every attribute has one tensor or builder, at its own position", at, ok and len(set(sp)) == 1, "an attribute does not have exactly one entry among the tensors and one among the builders", w)
            if not ok or not sp:
                continue
            seen.add(sp[0])
            tv, bv = (puts[n][0].args[0] if puts[n][0].args else NULL for n in (tensors, builders))
            tv, bv = peel(tv), peel(bv)
            if sp[0]:
                ck.ob("a sparse attribute has a builder and no tensor", at, nul(tv) and bv[0] == "r" and last(bv[1]) == "make_coo_tensor_builder", "a sparse attribute is given a tensor or no builder", w)
                mk = [e for e in seg if e.kind == "call" and e.extra == bv]
                ck.ob("the builder is the attribute's", at, bool(mk) and attr(mk[0].args[0]) and size is not None and mk[0].args[1] == size, "the builder is not made for the attribute and the size of the batch", w)
            else:
                ck.ob("a dense attribute has a tensor and no builder", at, nul(bv) and tv[0] == "new" and "Dense_tensor" in tv[1], "a dense attribute is given a builder or no tensor", w)
                ok, why = dense(i, seg, tv, attr, size)
                ck.ob("the tensor of a dense attribute has room for the batch", at, ok, why, w)
    ck.ob("sparse and dense attributes are prepared", at, seen == {True, False}, "one of them is not", w)


def is_this_obj(L, n):
    return isinstance(L, tuple) and len(L) > 2 and L[0] == "f" and L[2] == n


def nul(v):
    return v == NULL or v[0] == "new" and len(v) == 3 and any(k in v[1] for k in ("Intrusive_ptr", "unique_ptr"))


def dense(i, seg, tv, attr, size):
    mk = [e for e in seg if e.kind == "call" and last(e.name) == "make_cpu_array"]
    if len(mk) != 1 or not contains(tv, mk[0].extra):
        return False, "its data is not one new array"
    a = mk[0].args
    dt = meth(peel(a[0]), "data_type")
    if dt is None or not attr(a[0]):
        return False, "its data has another type than the attribute"
    conv_ = {e.extra: e.args[0] for e in seg if e.kind == "call" and last(e.name) in ("as_size", "as_ssize") and e.args}
    fs = []

    def split(t):
        t = peel(t)
        if t[0] == "op" and t[1] == "*":
            split(t[2]); split(t[3])
        elif t in conv_:
            split(conv_[t])
        else:
            fs.append(t)
    split(a[1])
    st = [t for t in fs if t[0] in ("elt", "e") and t[2] == ("c", 0) and meth(peel(t[1]), "strides") is not None and attr(t)]
    if not (len(fs) == 2 and len(st) == 1 and peel(size) in [peel(x) for x in fs if x not in st]):
        return False, "its size is not the size of the batch times the number of values of a row"
    sh = tv[3] if len(tv) > 3 else None
    own = [e for e in seg if e.kind in ("lwrite", "write") and e.obj and e.obj[0] == "e" and e.obj[2] == ("c", 0) and e.args[0] == size]
    if sh is None or not (meth(peel(sh), "shape") is not None and attr(sh) or sh[0] in ("mut", "r")):
        return False, "its shape is not the attribute's"
    if not own:
        return False, "its first dimension is not the size of the batch"
    return True, ""


def batch(ck, m):
    g = m.method(READER, "decode")
    ck.need(g is not None, "the decoder of a batch")
    par = [x for x in m.methods(READER) if x.body is not None and uses_tbb(m, x)]
    ck.need(par, "the parallel decoder")
    ser = [x for x in m.methods(READER) if x.body is not None and x.short.startswith("decode_") and x not in par]
    i, rs = interp(ck, m, g, opaque={x.id for x in par + ser})
    w, at = g.where(), short(g.name)
    flag = flag_of_parallel(m)
    tensors, builders = P_tensors(m), P_builders(m)
    n = 0
    for r in rs:
        T = r.trace
        ps = [e for e in evs(T, "call") if e.name in {x.name for x in par}]
        if ps:
            no = any(len(a) == 2 and field_term(peel(a[1]), flag) and v is False or a[0] in ("eq0", "eq") and mentions_field(a, flag) for a, v in facts(T))
            ck.ob("sparse features are read one instance after the other", at, no, "instances with sparse features are decoded in parallel", w)
        if r.outcome != "return" or not names_in(r.value, lambda s: s == "mlio::Example"):
            continue
        n += 1
        segs = [s for s in loop_segments(T) if over_features(i, T, s[0], tensors)]
        ck.ob("every sparse feature is built", at, len(segs) == 1 and segs[0][2] != "leave", "an example is made without going through all of its tensors", w)
        for j, k, kind in segs:
            if kind != "iter":
                continue
            seg = T[j:k + 1]
            bs = [e for e in seg if e.kind == "call" and last(e.name) == "build"]
            isnull = [v for a, v in facts(seg) if len(a) == 2 and a[0] == "has" and position(i, a[1], T, j, tensors, builders)[:1] == (tensors,)]
            ck.ob("a tensor is built exactly where there is none", at, len(isnull) == 1 and len(bs) == (1 if isnull[0] is False else 0), "a sparse feature is not built, or a dense tensor is replaced", w)
            for e in bs:
                pb = position(i, e.obj, T, j, tensors, builders)
                wr = [x for x in seg if x.kind in ("write", "lwrite") and x.args and x.args[0] == e.extra]
                pt = position(i, target(i, wr[0].obj), T, j, tensors, builders) if wr else ()
                ck.ob("a tensor is built by the builder of the same position", at, pb[:1] == (builders,) and pt[:1] == (tensors,) and pb[1:] == pt[1:] and pb[1:] != (), "the tensor of another attribute is put here", w)
    ck.ob("examples can be made", at, n > 0, "no example is ever made", w)


def target(i, L):
    return i.tmpsrc.get(L, L) if hasattr(i, "tmpsrc") else L


def uses_tbb(m, g):
    from model import fn_nodes
    return any(n.get("k") == "call" and "parallel_for" in str(n.get("fn")) for n in fn_nodes(g))


def zips(i, T):
    return {e.extra: e.args for e in T if e.kind == "call" and last(e.name) == "make_zip_iterator"}


def has_field(t, n):
    return mentions(t, lambda x: len(x) > 2 and x[0] in ("f", "fld") and x[2] == n)


def over_features(i, T, j, tensors):
    e = T[j]
    z = zips(i, T)
    ends = {k for k, v in z.items() if any(has_field(x, tensors) for x in v)}
    for L, (en, fr) in (e.extra or {}).items():
        if en in ends:
            return True
    for a, v in facts(T[j:j + 6]):
        if a[0] == "pos" and any(t in ends or has_field(t, tensors) and meth(peel(t), "size", "end", "cend") is not None for t, c in a[2]):
            return True
        if a[0] == "more" and has_field(a, tensors):
            return True
    return False


def position(i, t, T, j, tensors, builders):
    """(table, where the loop that begins at j is) of an element"""
    t = peel(t)
    z = zips(i, T)
    ent = entries(T, j)
    for _ in range(6):
        if t[0] in ("*", "some", "init") and len(t) == 2:
            t = t[1]
        elif t[0] == "m" and last(t[1]) in ("operator*", "operator->", "get") and not mentions(t[2], lambda x: x[0] == "r" and x in ent):
            t = t[2]
        elif t[0] == "t" and hasattr(i, "tmpsrc") and t in i.tmpsrc:
            t = i.tmpsrc[t]
        else:
            break
    if t[0] == "fld" and isinstance(t[2], str) and t[2].startswith("get") and t[1][0] == "m":
        it = t[1][2]
        c, d = i.lin(it)
        if len(d) == 1:
            k = next(iter(d))
            if k in ent and ent[k][0] in z:
                q = int("".join(ch for ch in t[2] if ch.isdigit()))
                args = z[ent[k][0]]
                if q < len(args):
                    for n in (tensors, builders):
                        if has_field(args[q], n):
                            return (n, k, c)
    if t[0] in ("e", "elt") and len(t) > 2:
        for n in (tensors, builders):
            if has_field(t[1], n):
                c, d = i.lin(t[2])
                return (n, tuple(d), c)
    return ()


# ------------------------------------------------------------ the builder of sparse tensors
def builder(ck, m):
    impl = [c for c in sorted(m.classes) if c.startswith("mlio::detail::Coo_tensor_builder_impl<")]
    ck.need(impl, "the builders of sparse tensors")
    base = "mlio::detail::Coo_tensor_builder"
    co = next((x["n"] for k, x in m.fields(base) if strip_type(x["t"]).startswith("std::vector<std::vector<")), None)
    ck.need(co, "the coordinates of the builder")
    ints = [x["n"] for k, x in m.fields(base) if strip_type(x["t"]) in ("unsigned long", "std::size_t", "size_t")]
    ctor = next((g for g in m.methods(base) if g.is_ctor and g.body is not None and len(g.params) == 2), None)
    size, row = None, None
    if ctor is not None:
        for r in Interp(m, this_cls=base, peel=0).run(ctor):
            for L, v in r.state.store.items():
                if is_this_field(L) and L[2] in ints:
                    if peel(v) == ("obj", "arg1"):
                        size = L[2]
    row = next((n for n in ints if n != size), None)
    ck.need(size and row, "the size of the batch and the row of the builder")
    n = 0
    for c in impl:
        g = m.method(c, "append")
        if g is not None and g.body is not None and g.cls == c:
            n += 1
            append(ck, m, c, g, co, row)
    ck.ob("sparse features can be appended", base, n >= 3, "there are only %d kinds of builders that are appended to" % n, "src/mlio/coo_tensor_builder.h")
    for c in impl:
        for nm_ in ("truncate", "build"):
            g = m.method(c, nm_)
            if g is not None and g.body is not None and g.cls == c:
                (truncate if nm_ == "truncate" else build)(ck, m, c, g, co, row, size)


def binterp(ck, m, g, c):
    i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: "coo_tensor_builder" not in fn.file)
    return i, ck.interp_done(i, i.run(g))


def data_field(m, c):
    return next((x["n"] for k, x in m.fields(c) if k == c and strip_type(x["t"]).startswith("std::vector<")), "data_")


def append(ck, m, c, g, co, row):
    i, rs = binterp(ck, m, g, c)
    at, w = c.split("::")[-1].rstrip(">") + ": append", g.where()
    data = data_field(m, c)
    n = 0
    for r, fs, v in results(i, rs):
        T = r.trace
        if r.outcome != "return" or v not in (TRUE, FALSE):
            continue
        if v == TRUE:
            n += 1
        put = [e for e in evs(T, "call") if is_this_obj(e.obj, data) and last(e.name) in ("insert", "assign", "push_back", "emplace_back", "resize", "clear", "erase")]
        if v == TRUE:
            ok = len(put) == 1 and last(put[0].name) == "insert" and len(put[0].args) == 3 and names_in(put[0].args[0], lambda s: s.endswith(("::end", "::cend"))) and \
                names_in(put[0].args[1], lambda s: s.endswith(("begin", "data"))) and names_in(put[0].args[2], lambda s: s.endswith("end"))
            ok = ok and of_param(T, put[0].args[1], "arg0", g) and of_param(T, put[0].args[2], "arg0", g)
            ck.ob("all the values are appended, behind the others", at, ok, "the values of the feature are not appended to those of the rows before", w)
        segs = loop_segments(T)
        outer = [s for s in segs if T[s[0]].kind == "loop" and any(a[0] == "more" for a, v2 in facts(T[s[0]:s[0] + 2]))]
        outer = outer or segs[:1]
        if v == TRUE:
            ck.ob("every key has its coordinates", at, bool(outer) and outer[0][2] != "leave", "a feature is accepted without going through all of its keys", w)
        inner_writes = [e for e in evs(T, "write") if is_this_obj(e.obj, row)]
        if v == TRUE:
            ok = len(inner_writes) == 1 and inner_writes[0].args and inc(i, inner_writes[0].args[0], T, row)
            if ok and outer and outer[0][2] == "iter":
                ok = T.index(inner_writes[0]) > outer[0][1]
            ck.ob("a row is one feature", at, ok, "the row is not exactly one further after a feature", w)
        else:
            ck.ob("a rejected feature does not end a row", at, not inner_writes, "the row is advanced for a feature that is rejected", w)
        if outer and outer[0][2] != "exit":
            j, k, kind = outer[0]
            keyrules(ck, i, r, T, j, k, kind, co, row, at, w, v, fs)
    ck.ob("features can be accepted", at, n > 0, "no feature is ever accepted", w)


def of_param(T, t, arg, g):
    """is the term made of the parameter?"""
    if contains(t, ("obj", arg)):
        return True
    return mentions(t, lambda x: x[0] == "new" and "span" in x[1] and contains(x, ("obj", arg)))


def inc(i, v, T, row):
    c, d = i.lin(v)
    if c != 1 or len(d) != 1 or list(d.values()) != [1]:
        return False
    k = peel(next(iter(d)))
    return k == ("f", ("obj", "this"), row) or k[0] == "r" and k[1] == "loop:" + row


def keyrules(ck, i, r, T, j, k, kind, co, row, at, w, v, fs):
    """one key: row and one coordinate per dimension"""
    subs = [(a, b, kd) for a, b, kd in loop_segments(T) if j < a <= k]
    push = [(q, e) for q, e in enumerate(T) if j <= q <= k and e.kind == "call" and last(e.name) in ("emplace_back", "push_back")]
    inner = subs[0] if subs else None
    where_ = lambda e: coord(i, e.obj, T, inner, co)
    rows = [(q, e) for q, e in push if where_(e) == ("fixed", 0)]
    if kind == "iter":
        ck.ob("the first coordinate of a key is the row", at, len(rows) == 1 and rows[0][1].args and isrow(rows[0][1].args[0], row), "the key is not put at the row of the feature", w)
        ck.ob("every dimension of a key is looked at", at, inner is not None and inner[2] != "leave", "a key is accepted without a coordinate for each of its dimensions", w)
    if inner is None:
        return
    a, b, kd = inner
    ent = entries(T, a)
    iseg = T[a:b + 1]
    if kd == "iter":
        ps = [(q, e) for q, e in push if a <= q <= b]
        ck.ob("a key has one coordinate for each dimension", at, len(ps) == 1 and where_(ps[0][1])[:1] == ("dim",), "the coordinates of a dimension do not get exactly one element per key", w)
        if not ps:
            return
        e = ps[0][1]
        pos = where_(e)
        q = peel(e.args[0])
        ok, why, idx, stride = quotient(i, q, T, ent, co, inner)
        ck.ob("a coordinate is the quotient of the rest of the key and the stride", at, ok, why, w)
        if not ok:
            return
        sp = tabled(i, stride, T, inner, co)
        ck.ob("stride, dimension and coordinates belong together", at, sp is not None and sp[0] == "strides" and pos[1:] == sp[1:], "the stride of another dimension is used", w)
        # a bound
        bound = False
        for at_, val in facts(iseg):
            if at_[0] == "pos" and len(at_[2]) == 2:
                d = dict(at_[2])
                other = [t for t in d if peel(t) != q and not same_op(t, q)]
                if len(other) == 1:
                    tb = tabled(i, other[0], T, inner, co)
                    if tb and tb[0] == "shape" and tb[1:] == pos[1:]:
                        s = d[other[0]]
                        # dim - q + c > 0 known true with c <= 0; or q - dim + c > 0 known false with c = 1
                        if s == 1 and val is True and at_[1] <= 0 or s == -1 and val is False and at_[1] == 1:
                            bound = True
        ck.ob("a coordinate is within its dimension", at, bound, "a coordinate is accepted without being below the size of its dimension", w)
        nz = any(a2[0] == "eq0" and a2[1] == 0 and len(a2[2]) == 1 and (a2[2][0][0] == stride or same_val(i, a2[2][0][0], stride, T)) and val is False or
                 a2[0] == "pos" and a2[1] == 0 and len(a2[2]) == 1 and (a2[2][0][0] == stride or same_val(i, a2[2][0][0], stride, T)) and a2[2][0][1] == 1 and val is True
                 for a2, val in facts(T[j:T.index(e) if e in T else b]))
        ck.ob("the key is not divided by zero", at, nz, "the stride may be zero", w)
        nxt = None
        for x in T[a:b + 1]:
            if x.kind == "iter":
                for L, val in (x.extra or {}).items():
                    if L == ent.get(idx, (None, None))[1]:
                        nxt = val
        ck.ob("the rest of the key is split further", at, nxt is not None and rest(i, nxt, idx, stride, T), "the next dimension does not get the remainder of the division by the stride", w)
        # begin
        en = ent.get(idx, (None,))[0]
        ck.ob("the key itself is split", at, en is not None and is_key(T, en), "something else than the key is split into coordinates", w)
        ck.ob("the dimensions begin behind the batch dimension", at, table_begin(i, T, inner, pos) == 1, "the batch dimension is taken for one of the feature's, or one is left out", w)


def isrow(t, row):
    t = peel(t)
    return t == ("f", ("obj", "this"), row) or t[0] == "r" and t[1] == "loop:" + row


def same_op(t, q):
    return peel(t) == q


def same_val(i, t, s, T):
    t = peel(t)
    cv = {e.extra: e.args[0] for e in T if e.kind == "call" and last(e.name) in ("as_size", "as_ssize") and e.args}
    return cv.get(t, t) == cv.get(peel(s), peel(s))


def quotient(i, q, T, ent, co, inner):
    if q[0] == "op" and q[1] == "/":
        idx, stride = q[2], q[3]
        if idx in ent:
            return True, "", idx, stride
        return False, "it is not the rest of the key that is divided", None, None
    return False, "it is no quotient", None, None


def rest(i, v, idx, stride, T):
    v = peel(v)
    if v[0] == "op" and v[1] == "%":
        return v[2] == idx and same_val(i, v[3], stride, T)
    c, d = i.lin(v)
    if c == 0 and d.get(idx) == 1 and len(d) == 2:
        t, k = next((t, k) for t, k in d.items() if t != idx)
        if k == -1 and t[0] == "op" and t[1] == "*":
            xs = [t[2], t[3]]
            return any(x == ("op", "/", idx, stride) for x in xs) and any(same_val(i, x, stride, T) for x in xs)
    return False


def is_key(T, t):
    t = peel(t)
    for k, e in enumerate(T):
        if e.kind == "call" and last(e.name) == "try_narrow" and e.args:
            for x in T[max(0, k - 3):k]:
                if x.kind == "lwrite" and x.args and x.args[0] == t:
                    return mentions(e.args[0], lambda y: y[0] in ("e", "elt") and len(y) > 2 and y[2][:2] == ("r", "iter") or y[0] in ("e", "elt"))
    return t[0] in ("e", "elt")


def coord(i, L, T, inner, co):
    """which list of coordinates is appended to: ("fixed", 0) or ("dim", position)"""
    t = i.tmpsrc.get(L, L) if hasattr(i, "tmpsrc") else L
    if t is None:
        return ()
    t = peel(t)
    if t[0] in ("e", "elt") and (mentions_field(t[1], co) or mentions(t[1], lambda x: x == ("r", "loop:" + co, x[-1]))):
        if t[2][0] == "c":
            return ("fixed", t[2][1])
        if inner:
            c, d = i.lin(t[2])
            if len(d) == 1 and next(iter(d)) in entries(T, inner[0]):
                return ("dim", next(iter(d)), c)
    if inner:
        x = tabled(i, t, T, inner, co)
        if x and x[0] == co:
            return ("dim",) + x[1:]
    return ()


def tabled(i, t, T, inner, co):
    """(table, loop variable, offset) of an element that is looked at in the loop over the dimensions"""
    t = peel(t)
    cv = {e.extra: e.args[0] for e in T if e.kind == "call" and last(e.name) in ("as_size", "as_ssize") and e.args}
    while t in cv:
        t = peel(cv[t])
    ent = entries(T, inner[0])
    z = zips(i, T)

    def tab(x):
        if mentions_field(x, co) or names_in(x, lambda s: s == "loop:" + co):
            return co
        for n in ("strides", "shape"):
            if names_in(x, lambda s: s == "mlio::Attribute::" + n):
                return n
        return None
    if t[0] == "fld" and isinstance(t[2], str) and t[2].startswith("get") and t[1][0] == "m":
        c, d = i.lin(t[1][2])
        if len(d) == 1 and c == 0:
            k = next(iter(d))
            if k in ent and ent[k][0] in z:
                q = int("".join(ch for ch in t[2] if ch.isdigit()))
                if q < len(z[ent[k][0]]):
                    return (tab(z[ent[k][0]][q]), k, begin_of(i, z[ent[k][0]][q]))
    if t[0] in ("e", "elt") and len(t) > 2:
        c, d = i.lin(t[2])
        if len(d) == 1:
            k = next(iter(d))
            if k in ent:
                return (tab(t[1]), k, c)
    return None


def begin_of(i, t):
    c = 0
    t = peel(t)
    x = i.lin(t)
    if x and len(x[1]) == 1:
        c, t = x[0], peel(next(iter(x[1])))
    while t[0] == "m" and last(t[1]) == "operator+" and t[3][0][0] == "c":
        c += t[3][0][1]
        t = peel(t[2])
    return c if t[0] == "m" and last(t[1]) in ("begin", "cbegin") else None


def table_begin(i, T, inner, pos):
    """the number of the first dimension the loop looks at"""
    ent = entries(T, inner[0])
    k, off = pos[1], pos[2]
    en = ent.get(k, (None,))[0]
    if en is None or off is None:
        return None
    if en[0] == "c":
        return en[1] + off
    return off


def truncate(ck, m, c, g, co, row, size):
    i, rs = binterp(ck, m, g, c)
    at, w = c.split("::")[-1].rstrip(">") + ": truncate", g.where()
    data = data_field(m, c)
    for r in rs:
        if r.outcome not in ("return", "end"):
            continue
        T = r.trace
        lb = [e for e in evs(T, "call") if last(e.name) in ("lower_bound", "find", "find_if", "partition_point")]
        ok = len(lb) == 1 and last(lb[0].name) == "lower_bound" and mentions(lb[0].args[0], lambda x: x[0] in ("e", "elt") and mentions_field(x, co) and x[2] == ("c", 0)) and \
            contains(lb[0].args[2], ("obj", "arg0")) and names_in(lb[0].args[1], lambda s: s.endswith("end"))
        if not ok:
            ck.ob("what is discarded begins with the row", at, False, "the number of values that are kept is not the number of those of the rows before", w)
            continue
        ck.ob("what is discarded begins with the row", at, True, "", w)
        cv = {e.extra: e.args[0] for e in T if e.kind == "call" and last(e.name) in ("as_size", "as_ssize") and e.args}

        def kept(t):
            t = peel(t)
            t = cv.get(t, t)
            c0, d = i.lin(t)
            return c0 == 0 and d.get(lb[0].extra) == 1 and len(d) == 2 and any(meth(peel(x), "begin") is not None and k == -1 for x, k in d.items()) or \
                t[0] == "r" and last(t[1]) == "distance"
        rz = [e for e in evs(T, "call") if last(e.name) in ("resize", "erase")]
        dv = [e for e in rz if is_this_obj(e.obj, data)]
        ck.ob("the values of the row are discarded", at, len(dv) == 1 and kept(dv[0].args[0]), "the values are not cut where their coordinates are", w)
        segs = loop_segments(T)
        ck.ob("the coordinates of all dimensions are discarded", at, len(segs) == 1 and segs[0][2] != "leave" and (mentions_field(tuple(a for a, v in facts(T[segs[0][0]:segs[0][0] + 2])), co)), "not all the lists of coordinates are cut", w)
        for j, k, kind in segs:
            if kind != "iter":
                continue
            es = [e for e in T[j:k] if e in rz]
            ck.ob("the coordinates of all dimensions are discarded together", at, len(es) == 1 and kept(es[0].args[0]) and mentions_field(es[0].obj, co), "a list of coordinates is not cut where the values are", w)
        fin = [e for e in evs(T, "write") if is_this_obj(e.obj, row)]
        ck.ob("the row is used again", at, len(fin) == 1 and contains(fin[0].args[0], ("obj", "arg0")), "the row that comes next is not the one that was discarded", w)


def build(ck, m, c, g, co, row, size):
    i, rs = binterp(ck, m, g, c)
    at, w = c.split("::")[-1].rstrip(">") + ": build", g.where()
    data = data_field(m, c)
    for r in rs:
        if r.outcome != "return":
            continue
        T = r.trace
        mk = [e for e in T if e.kind == "make" and "Coo_tensor" in str(e.name)]
        ok = len(mk) == 1 and len(mk[0].args) == 3
        ck.ob("the builder makes a sparse tensor", at, ok, "no sparse tensor is made", w)
        if not ok:
            continue
        sh, da, lay = mk[0].args
        wrap = {e.extra: e for e in evs(T, "call") if last(e.name) == "wrap_cpu_array"}
        ck.ob("the tensor has the values", at, da in wrap and field_term(peel(wrap[da].args[0]), data), "the tensor is given something else than the values", w)
        own = [e for e in T[:T.index(mk[0])] if e.kind in ("lwrite", "write") and e.obj and e.obj[0] == "e" and e.obj[2] == ("c", 0) and e.args and field_term(peel(e.args[0]), size)]
        ck.ob("the first dimension is the size of the batch", at, bool(own) and names_in(sh, lambda s: s == "mlio::Attribute::shape"), "the shape is not that of the attribute with the size of the batch", w)
        segs = loop_segments(T)
        ck.ob("the tensor has the coordinates of all dimensions", at, len(segs) == 1 and segs[0][2] != "leave" and mentions_field(tuple(a for a, v in facts(T[segs[0][0]:segs[0][0] + 2])), co), "not all the lists of coordinates are given to the tensor", w)
        for j, k, kind in segs:
            if kind != "iter":
                continue
            ps = [e for e in T[j:k] if e.kind == "call" and last(e.name) in ("emplace_back", "push_back")]
            ok = len(ps) == 1 and peel(ps[0].args[0]) in wrap and mentions_field(wrap[peel(ps[0].args[0])].args[0], co) and T.index(wrap[peel(ps[0].args[0])]) > j
            ck.ob("every list of coordinates is given to the tensor once", at, ok, "a list of coordinates is left out, doubled or put in another place", w)
