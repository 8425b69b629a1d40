"""What Python code calls by a name is what C++ calls by that name.

The registrations of the binding are read from the type-checked syntax trees (which name is bound to which member, function,
enumerator or class); the functions behind them are followed on all paths, and the values of their arguments are traced to the
fields and parameters they end in."""
import ast
import os
import re

from util import *
from absint import Interp, show
from model import calls, targs, walk, unwrap, base_name
from facts import REPO

ASSUMPTIONS = ["pybind11 and CPython do what their documentation says."]

# Names that differ between the two languages on purpose.
SAME = {("Parser_options", "number_base"): "base", ("Coo_tensor", "coords"): "coordinates", ("Attribute", "data_type"): "dt",
        ("In_memory_store", "buf"): "chunk"}
CLASSES = {"Parser_options": "ParserParams"}
ODD = {("Py_device_array", "Device"): "device"}     # upstream's spelling


def run(ck):
    m = ck.model("core", "py")
    B = Binding(ck, m)
    ck.need(B.classes, "registrations of classes")
    enums_(ck, m, B)
    classes_(ck, m, B)
    fields_(ck, m, B)
    members(ck, m, B)
    factories(ck, m, B)
    known_types(ck, m, B)
    trampolines(ck, m)
    iterators(ck, m)
    package(ck, m, B)


def py(f):
    return f.body is not None and "/mlio-py/mlio/core/" in f.file


def at(f, n):
    return "%s:%s" % (f.file.split(REPO + "/")[-1], n.get("l"))


def lit(a):
    a = unwrap(a)
    return a["v"] if isinstance(a, dict) and a.get("k") == "str" else None


class Def:
    """One def, def_property..., of a class or of the module."""

    def __init__(self, f, n, kind, cls):
        self.f, self.n, self.kind, self.cls = f, n, kind, cls
        self.where = at(f, n)
        a = n["args"]
        self.name = lit(a[0]) if a else None
        rest = a[1:] if self.name is not None else a
        self.target = unwrap(rest[0]) if rest else None
        self.setter = unwrap(rest[1]) if kind == "def_property" and len(rest) > 1 else None
        self.args = [x for x in (arg_of(x) for x in a) if x]
        self.init = None
        if self.target and self.target.get("k") == "call" and self.target["fn"] == "pybind11::init":
            self.init, self.name = self.target, "__init__"
            self.target = unwrap(self.init["args"][0]) if self.init["args"] else None


def arg_of(a):
    """(name, default) of an annotation of a parameter."""
    a = unwrap(a)
    if not isinstance(a, dict):
        return None
    if a.get("k") == "call" and a["fn"].startswith("pybind11::operator\"\"") and a["fn"].endswith("_a"):
        return (lit(a["args"][0]), None)
    if a.get("k") == "ctor" and a["fn"] in ("pybind11::arg::(ctor)", "pybind11::arg_v::(ctor)") and a["args"] and lit(a["args"][0]) is not None:
        return (lit(a["args"][0]), a["args"][1] if a["fn"].startswith("pybind11::arg_v") and len(a["args"]) > 1 else None)
    if a.get("k") == "call" and a["fn"] in ("pybind11::arg::operator=",):
        o = arg_of(a.get("obj"))
        return o and (o[0], a["args"][0])
    if a.get("k") == "call" and a["fn"] == "pybind11::arg::none":
        return arg_of(a.get("obj"))
    if a.get("k") == "ctor" and len(a.get("args", [])) == 1:      # a copy
        return arg_of(a["args"][0])
    return None


class Binding:
    def __init__(self, ck, m, scope=None):
        self.m = m
        scope = scope or py
        self.classes, self.enums, self.defs, self.values = {}, {}, [], []
        for f in m.fns.values():
            if not scope(f):
                continue
            seen = False
            for n in calls(f.body):
                fn = n["fn"]
                if fn in ("pybind11::class_::(ctor)", "pybind11::enum_::(ctor)"):
                    ts = targs(n["cls"])
                    if not ts or len(n["args"]) < 2:
                        continue
                    name = lit(n["args"][1])
                    if name is None:
                        continue
                    (self.classes if fn.startswith("pybind11::class_") else self.enums)[ts[0]] = (name, ts[1:], f, n)
                    seen = True
                elif fn == "pybind11::enum_::value":
                    self.values.append((targs(n["cls"])[0], f, n))
                    seen = True
                elif fn.startswith("pybind11::class_::def"):
                    self.defs.append(Def(f, n, fn.split("::")[-1], targs(n["cls"])[0]))
                    seen = True
                elif fn == "pybind11::module_::def":
                    self.defs.append(Def(f, n, "def", None))
                    seen = True
            if seen:
                ck.saw(f)


def fnref(t):
    """(qualified name, id) of the function or member an expression names."""
    t = unwrap(t)
    if not isinstance(t, dict):
        return None
    if t.get("k") == "un" and t.get("op") == "&":
        t = unwrap(t["a"])
    if t.get("k") == "call" and t["fn"].endswith("operator()") and "overload_cast" in t.get("cls", "") and t["args"]:
        return fnref(t["args"][0])
    if t.get("k") == "call" and t["fn"].endswith("operator()") and t["args"]:
        return fnref(t["args"][0])
    if t.get("k") in ("ref", "mem"):
        return t
    return None


def key(s):
    return s.replace("_", "").lower()


# ------------------------------------------------------------ enumerations
def enums_(ck, m, B):
    for E, (name, _, f, n) in sorted(B.enums.items()):
        ck.ob("an enumeration is called by its name", E, key(name) == key(last_(E)), "it is called %s" % name, at(f, n))
    seen = {}
    for E, f, n in B.values:
        s = next((lit(a) for a in n["args"] if lit(a) is not None), None)
        e = next((unwrap(a) for a in n["args"] if unwrap(a).get("k") == "ref" and unwrap(a).get("dk") == "enumc"), None)
        if s is None or e is None:
            ck.ob("every enumerator is called by its name", short(f.name), False, "the enumerator or its name is not constant", at(f, n))
            continue
        q = e["qn"].split("::")[-1]
        ck.ob("every enumerator is called by its name", "%s.%s" % (last_(E), s), key(s) == key(q) and s == s.upper(), "it is %s" % e["qn"], at(f, n))
        seen.setdefault(E, set()).add(q)
    for E in B.enums:
        for q in enumerators(m, E):
            ck.ob("every enumerator is known to Python", "%s::%s" % (last_(E), q), q in seen.get(E, ()), "it is not", at(*B.enums[E][2:]))


def enumerators(m, E):
    from checks.c23 import enums
    r = enums(m, E)
    return sorted(r) if not isinstance(r, dict) else sorted(r.keys() if all(isinstance(k, str) for k in r) else r.values())


def last_(q):
    return q.split("::")[-1]


# ------------------------------------------------------------ classes
def classes_(ck, m, B):
    for T, (name, extra, f, n) in sorted(B.classes.items()):
        t = last_(T)
        want = CLASSES.get(t, t[3:] if t.startswith("Py_") else t)
        ck.ob("a class is called by its name", t, key(name) == key(want), "it is called %s" % name, at(f, n))
        if T not in m.classes:
            continue
        anc = [b for b in m.bases(T)] if hasattr(m, "bases") else []
        known = [b for b in anc if b in B.classes and b != T]
        for b in known:
            # reached through another registered class
            if any(c != b and m.derives(c, b) for c in known):
                continue
            ck.ob("a class has the base it has in C++", t, b in extra, "%s is not declared to be a base" % last_(b), at(f, n))
        for x in extra:
            if x in B.classes:
                ck.ob("a class has the base it has in C++", t, m.derives(T, x), "%s is no base of it" % last_(x), at(f, n))


# ------------------------------------------------------------ attributes that are fields
def fields_(ck, m, B):
    byT = {}
    for d in B.defs:
        if d.kind in ("def_readwrite", "def_readonly"):
            t = fnref(d.target)
            ok = t is not None
            fld = t.get("n") if ok else None
            ck.ob("an attribute is the field of its name", "%s.%s" % (last_(d.cls), d.name),
                  ok and fld == SAME.get((last_(d.cls), d.name), d.name), "it is %s" % fld, d.where)
            byT.setdefault(d.cls, {})[fld] = d.kind
        elif d.kind in ("def_property",) and d.cls and d.cls in m.classes:
            names = {x["n"] for _, x in m.fields(d.cls)}
            fld = SAME.get((last_(d.cls), d.name), d.name)
            if fld not in names:
                continue
            byT.setdefault(d.cls, {})[fld] = "def_readwrite"
            accessor(ck, m, d, fld)
    for T, have in sorted(byT.items()):
        if not struct(m, T):
            continue
        for _, x in m.fields(T):
            ck.ob("every parameter can be read and changed", "%s::%s" % (last_(T), x["n"]), have.get(x["n"]) == "def_readwrite",
                  "Python has no attribute for it" if x["n"] not in have else "it cannot be changed", at(*B.classes[T][2:]) if T in B.classes else "")


def accessor(ck, m, d, fld):
    """The getter and the setter of an attribute that is a field."""
    here = "%s.%s" % (last_(d.cls), d.name)
    others = {x["n"] for _, x in m.fields(d.cls)} - {fld}
    for r in behind(ck, m, d, d.target):
        if r.outcome == "return":
            used = fields_of_arg0(r, m, d.cls)
            ck.ob("an attribute is the field of its name", here, fld in used and not used & others, "its value comes of %s" % (", ".join(sorted(used)) or "nothing"), d.where)
    for r in behind(ck, m, d, d.setter):
        if r.outcome == "return":
            w = {L[2]: e.args[0] for e in r.trace if e.kind in ("write", "lwrite") for L in [e.obj] if isinstance(L, tuple) and L[:1] == ("f",) and L[1] == ("obj", "arg0")}
            hasv = [e.args[0] for e in r.trace if e.kind == "fact" and isinstance(e.name, tuple) and e.name[0] == "has" and contains(e.name, ("obj", "arg1"))]
            ok = set(w) == {fld} and (contains(w[fld], ("obj", "arg1")) or (hasv and not hasv[-1] and w[fld] in (("null",), ("none",))))
            ck.ob("setting an attribute sets the field of its name", here, ok, "it sets %s" % ", ".join("%s to %s" % (k, show(v)) for k, v in w.items()), d.where)


def fields_of_arg0(r, m, T):
    out = set()

    def visit(t):
        if isinstance(t, tuple):
            if len(t) > 2 and t[0] == "f" and t[1] == ("obj", "arg0"):
                out.add(t[2])
            for x in t:
                visit(x)
        elif isinstance(t, (frozenset, list)):
            for x in t:
                visit(x)
    visit(r.value)
    for e in r.trace:
        if e.kind == "fact":
            visit(e.name)
    return out


def behind(ck, m, d, t, opaque=None):
    """The paths of the function or lambda behind a registration, or nothing if it is a member of the library."""
    t = unwrap(t)
    if not isinstance(t, dict):
        return []
    op = opaque or (lambda fn, call: "/mlio-py/" not in fn.file)
    if t.get("k") == "lambda":
        i = Interp(m, this_cls=d.f.cls, peel=0, opaque=op)
        return ck.interp_done(i, i.run_lambda(t, d.f))
    r = fnref(t)
    if r is None:
        return []
    f = m.resolve_call(r, d.f.tu)
    if f is None or f.body is None or not py(f):
        return []
    i = Interp(m, this_cls=f.cls, peel=0, opaque=op)
    return ck.interp_done(i, i.run(f))


# ------------------------------------------------------------ methods and properties
def members(ck, m, B):
    props = {}
    for d in B.defs:
        if d.cls and d.kind != "def_buffer" and d.name and not d.name.startswith("__"):
            props.setdefault(d.cls, set()).add(d.name)
    for d in B.defs:
        if d.kind == "def_buffer" or d.name is None or d.init is not None or d.kind in ("def_readwrite", "def_readonly"):
            continue
        if d.kind == "def_property" and any(x["n"] == SAME.get((last_(d.cls), d.name), d.name) for _, x in m.fields(d.cls)):
            continue
        here = "%s.%s" % (last_(d.cls), d.name) if d.cls else d.name
        want = ODD.get((last_(d.cls), d.name), d.name) if d.cls else d.name
        if d.name.startswith("__"):
            dunder(ck, m, d, here)
            continue
        t = fnref(d.target)
        if t is not None and t.get("fn"):
            s = last_(t["fn"])
            fn = m.resolve_call(t, d.f.tu)
            if fn is None or not py(fn):
                ck.ob("a name is bound to the function of that name", here, s == want, "it is bound to %s" % t["fn"], d.where)
                continue
        rs = behind(ck, m, d, d.target)
        for r in rs:
            if r.outcome != "return":
                continue
            used = {last_(e.name) for e in r.trace if e.kind in ("call", "make", "enter") and isinstance(e.name, str) and "mlio::" in e.name}
            if d.cls is None:
                ok = not used or any(key(want) in (key(u), key("py_" + u), key(u + "_capsule")) or key(u) in key(want) for u in used) \
                    or d.name in ("clear_log_message_handler", "as_dlpack")
                continue_ok(ck, d, here, ok, used)
            else:
                other = {u for u in used if u in props.get(d.cls, ()) and u != want}
                ok = (want in used or any(mentions_name(e, want) for e in r.trace)) and not other
                ck.ob("a name is bound to the function of that name", here, ok, "it calls %s" % (", ".join(sorted(used)) or "nothing"), d.where)
                fl = Flow(r)
                got = set()
                for e in r.trace:
                    if e.kind in ("call", "enter") and isinstance(e.name, str) and last_(e.name) == want:
                        for a in e.args:
                            got |= fl.of(a)
                for k, (a, _) in enumerate(d.args):
                    ck.ob("arguments arrive under their own names", "%s %s" % (here, a), k + 1 in got, "%s does not get it" % want, d.where)


def continue_ok(ck, d, here, ok, used):
    ck.ob("a name is bound to the function of that name", here, ok, "it calls %s" % ", ".join(sorted(used)), d.where)


def mentions_name(e, want):
    return names_in((e.name, e.args, e.obj), lambda s: s.split("::")[-1] == want and "mlio::" in s)


A0, A1 = ("obj", "arg0"), ("obj", "arg1")


def dunder(ck, m, d, here):
    n = d.name
    t = fnref(d.target)
    if t is not None and t.get("fn") and (n == "__next__" or not behind_py(m, d, t)):
        want = {"__repr__": "repr", "__next__": "next", "__len__": "size"}.get(n)
        if want:
            ck.ob("a special method does what Python expects", here, last_(t["fn"]) == want, "it is bound to %s" % t["fn"], d.where)
            return
    rs = [r for r in behind(ck, m, d, d.target)]
    for r in rs:
        v = r.value
        if r.outcome != "return":
            continue
        if n == "__eq__":
            ok = isinstance(v, tuple) and (v[0] == "cond" and v[2] is True and v[1][0] == "eq" and {root(v[1][1]), root(v[1][2])} == {A0, A1}
                                           or names_in(v, lambda s: s.endswith("operator==")) and contains(v, A0) and contains(v, A1) and v[0] != "not")
            what = "it is %s" % show(v)
        elif n == "__hash__":
            ok = names_in(v, lambda s: "hash" in s) and contains(v, A0)
            what = "it is %s" % show(v)
        elif n == "__len__":
            ok = mentions(v, lambda x: x[:2] == ("m", "std::vector::size") and contains(x, A0)) and names_in(v, lambda s: s.endswith("Example::features")) \
                and v[0] == "m"
            what = "it is %s" % show(v)
        elif n == "__enter__" or n == "__iter__" and "iterator" in d.cls:
            ok, what = root(v) == A0, "it is %s" % show(v)
        elif n == "__iter__":
            ok = contains(v, A0) or any(e.kind == "call" and contains((e.args, e.obj), A0) for e in r.trace)
            what = "it does not iterate over the object"
        elif n == "__exit__":
            ok = any(e.kind == "call" and nm(e.name, "close") and root(e.obj) == A0 for e in r.trace)
            what = "it does not close the stream"
        elif n == "__contains__":
            ok, what = contains_(v, r), "it is %s" % show(v)
        elif n == "__repr__":
            ok = any(mentions_name(e, "repr") for e in r.trace)
            what = "it is %s" % show(v)
        elif n == "__getitem__":
            ok, what = getitem(r)
        else:
            continue
        ck.ob("a special method does what Python expects", here, ok, what, d.where)


def behind_py(m, d, t):
    f = m.resolve_call(t, d.f.tu)
    return f is not None and py(f)


def root(t):
    """The argument a value is, if it is one."""
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ("init", "addr", "*"):
        t = t[1]
    return t


FEATS = lambda x: isinstance(x, tuple) and x[:2] == ("m", "mlio::Example::features")


def contains_(v, r):
    if not isinstance(v, tuple):
        return False
    byname = lambda x: x[:1] == ("m",) and last_(x[1]) in ("find_feature", "get_index") and contains(x, A1) and contains(x, A0)
    if v[0] == "cond":
        return v[2] is True and v[1][0] == "has" and mentions(v[1], byname) or below(v[1], v[2])
    if v[0] == "c":
        fs = [(e.name, e.args[0]) for e in r.trace if e.kind == "fact" and isinstance(e.name, tuple)]
        return any(a[0] == "has" and t is bool(v[1]) and mentions(a, byname) for a, t in fs) or \
            any(below(a, t if v[1] else not t) for a, t in fs if a[0] == "pos")
    return False


def below(a, t):
    """Does the condition say that the index given is below the number of features?"""
    if a[0] != "pos" or not mentions(a, lambda x: x[:2] == ("m", "std::vector::size") and mentions(x, FEATS)):
        return False
    c, ki = a[1], dict(a[2]).get(("init", A1), 0)
    return (t is False and ki == 1 and c >= 1) or (t is True and ki == -1 and c <= 0)


def getitem(r):
    v = r.value
    fs = [(e.name, e.args[0]) for e in r.trace if e.kind == "fact" and isinstance(e.name, tuple)]
    byname = lambda x: x[:1] == ("m",) and last_(x[1]) in ("find_feature", "get_index") and contains(x, A1) and contains(x, A0)
    if mentions(v, byname):
        ok = any(a[0] == "has" and t is True and mentions(a, byname) for a, t in fs)
        return ok, "a name that is not there is not refused"
    if mentions(v, FEATS) and contains(v, ("init", A1)):
        ok = any(below(a, t) for a, t in fs) or any(e.kind == "call" and nm(e.name, "at") for e in r.trace)
        return ok, "an index beyond the last feature is not refused"
    return False, "what it returns is not the feature of that name or index"


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)
    elif isinstance(t, (list, frozenset)):
        for x in t:
            yield from subterms(x)


# ------------------------------------------------------------ functions that take named arguments
class Flow:
    """Which arguments of the function a value on a path comes from."""

    def __init__(self, r):
        self.r, self.by, self.loops, self.memo = r, {}, {}, {}
        ends = {}
        for e in r.trace:
            if e.kind in ("call", "make", "ctor") and isinstance(e.extra, tuple):
                self.by.setdefault(e.extra, []).append((e.args, e.obj))
            if e.kind == "iter" and e.extra:
                for L, v in e.extra.items():
                    ends.setdefault(L, []).append(v)
            if e.kind == "endloop" and e.extra:
                for L, v in e.extra.items():
                    if isinstance(v, tuple):
                        self.loops.setdefault(v, []).extend(ends.get(L, []))
            if e.kind in ("write", "lwrite") and isinstance(e.args[0], tuple) and e.args[0][:1] == ("mut",):
                self.by.setdefault(e.args[0], [])
        for e in r.trace:
            if e.kind == "loop" and e.extra:
                for L, v in e.extra.items():
                    self.loops.setdefault(v[1], []).extend([v[0]] + ends.get(L, []))
        # what a mutation was given: the call that follows it
        tr = r.trace
        for k, e in enumerate(tr):
            if e.kind in ("write", "lwrite") and isinstance(e.args[0], tuple) and (
                    e.args[0][:1] == ("mut",) or e.args[0][:1] == ("r",) and str(e.args[0][1]).startswith("out:")):
                nx = next((x for x in tr[k + 1:k + 4] if x.kind == "call"), None)
                prev = None
                for x in reversed(tr[:k]):
                    if x.kind in ("write", "lwrite") and x.obj == e.obj:
                        prev = x.args[0]
                        break
                if prev is None:
                    prev = ("init", e.obj)
                size_only = nx is not None and nm(nx.name, ("reserve", "shrink_to_fit"))
                self.by[e.args[0]] = [((nx.args if nx and not size_only else ()), prev)]

    def of(self, v, depth=0):
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = frozenset()
        out = set()
        for t in subterms(v):
            if len(t) == 2 and t[0] == "obj" and isinstance(t[1], str) and t[1].startswith("arg"):
                out.add(int(t[1][3:]))
            if depth < 12:
                for args, obj in self.by.get(t, ()):
                    for a in (args if isinstance(args, tuple) else ()):
                        out |= self.of(a, depth + 1)
                    if isinstance(obj, tuple):
                        out |= self.of(obj, depth + 1)
                for w in self.loops.get(t, ()):
                    out |= self.of(w, depth + 1)
        self.memo[v] = frozenset(out)
        return self.memo[v]


def factories(ck, m, B):
    for d in B.defs:
        if not d.args or d.kind != "def":
            continue
        if d.init is not None and d.target is None:
            constructor(ck, m, B, d)
        elif d.init is not None or d.cls is None:
            factory(ck, m, B, d)
        else:
            method_args(ck, m, d)


def method_args(ck, m, d):
    t = fnref(d.target)
    f = m.resolve_call(t, d.f.tu) if t else None
    if f is None or len(d.args) < 2:
        return
    ps = [p["n"] for p in f.params]
    ck.ob("arguments have the names of the parameters", "%s.%s" % (last_(d.cls), d.name), [a for a, _ in d.args] == ps[-len(d.args):],
          "they are called %s in C++" % ", ".join(ps), d.where)


def ctors(m, T, n):
    return [f for f in m.fns.values() if f.cls == T and f.is_ctor and len(f.params) == n and all(p["n"] for p in f.params)]


def norm(s):
    return key(s).rstrip("s")


def constructor(ck, m, B, d):
    """py::init<...>: the constructor of the class itself."""
    cs = ctors(m, d.cls, len(d.args))
    if not cs:
        return
    here = "%s(...)" % last_(d.cls)
    f = cs[0]
    for (a, dflt), p, q in zip(d.args, f.params, f.d["params"]):
        want = SAME.get((last_(d.cls), a), a)
        ck.ob("arguments have the names of the parameters", "%s %s" % (here, a), want == p["n"] or want == q["n"], "the parameter is called %s" % p["n"], d.where)
        same_default(ck, d, here, a, dflt, q.get("def"), p["t"], q.get("def") is not None)


def factory(ck, m, B, d):
    rs = behind(ck, m, d, d.target, opaque=lambda fn, call: "/mlio-py/" not in fn.file and "/include/mlio/" not in fn.file or fn.is_ctor
                or fn.short == "make_device_array")
    if not rs:
        return
    T = d.cls
    here = "%s(...)" % (last_(T) if T else d.name)
    for r in rs:
        if r.outcome != "return":
            continue
        fl = Flow(r)
        absent = set()
        for e in r.trace:
            if e.kind == "fact" and isinstance(e.name, tuple) and e.name[0] == "has" and e.args[0] is False:
                x = e.name[1]
                x = x[1] if x[:1] == ("init",) else x
                if x[:1] == ("obj",) and str(x[1]).startswith("arg"):
                    absent.add(int(x[1][3:]))
        got = made(m, r, T, d)
        if got is None:
            ck.ob("arguments arrive under their own names", here, False, "what it makes is not known", d.where)
            continue
        pos, dflts, types = got
        for k, (a, dflt) in enumerate(d.args):
            want = SAME.get((last_(T) if T else None, a), SAME.get((last_(T) if T else "", a), a))
            slot = next((p for p in pos if p == want), None) or next((p for p in pos if norm(p) == norm(want)), None)
            if slot is None:
                if not any(k in fl.of(v) for v in pos.values()):
                    lonely = k not in absent and a not in ("version", "hdl", "lvl")
                    ck.ob("every argument is used", "%s %s" % (here, a), not lonely or used_at_all(r, k), "it is ignored", d.where)
                continue
            v = pos[slot]
            if k in absent:
                ck.ob("an argument that is not given leaves the default", "%s %s" % (here, a), untouched(v, dflts.get(slot)), "it becomes %s" % show(v), d.where)
                continue
            src = fl.of(v)
            if not src and isinstance(v, tuple) and v[:1] == ("r",) and str(v[1]).startswith("loop:") and \
                    any(k in Flow(q).of(g[0].get(slot)) for q in rs if q is not r for g in [made(m, q, T, d)] if g):
                continue        # a loop over what is empty
            ck.ob("arguments arrive under their own names", "%s %s" % (here, a), k in src, "%s is set to %s" % (slot, show(v) if v is not None else "nothing"), d.where)
            alien = [d.args[x][0] for x in src if x != k and x < len(d.args) and
                     any(norm(p) == norm(SAME.get((last_(T) if T else None, d.args[x][0]), d.args[x][0])) for p in pos)]
            ck.ob("arguments arrive under their own names", "%s %s" % (here, a), not alien, "%s also takes %s" % (slot, ", ".join(alien)), d.where)
            if struct(m, T) and not converted(v):
                ck.ob("arguments arrive unchanged", "%s %s" % (here, a), whole(v, k), "%s is set to %s" % (slot, show(v)), d.where)
            same_default(ck, d, here, a, dflt, dflts.get(slot), types.get(slot, ""), slot in dflts)
        if struct(m, T):
            for p in pos:
                ck.ob("every parameter can be given", "%s %s" % (here, p), any(SAME.get((last_(T), a), a) == p for a, _ in d.args),
                      "no argument is for it", d.where)


def used_at_all(r, k):
    return any(contains((e.args, e.obj), ("obj", "arg%d" % k)) for e in r.trace)


def struct(m, T):
    return T in m.classes and not ctors(m, T, 1) and not any(f.cls == T and f.is_ctor and f.params and f.params[0]["n"] for f in m.fns.values())


def converted(v):
    """A conversion by a constructor."""
    return isinstance(v, tuple) and v[:1] in (("new",), ("some",), ("r",)) or isinstance(v, tuple) and v[:1] == ("agg",)


def whole(v, k):
    A = ("obj", "arg%d" % k)
    if isinstance(v, tuple) and v[:2] == ("m", "std::optional::value_or") and isinstance(v[3][0], tuple) and v[3][0][:1] in (("agg",), ("new",)) \
            and not mentions(v[3], lambda x: x[:1] == ("obj",)):
        v = v[2]
    if isinstance(v, tuple) and v[:1] == ("m",) and v[1].endswith("operator basic_string_view"):
        v = v[2]
    return v in (("init", A), A, ("init", ("f", A, "*")), ("init", ("*", A)))


def untouched(v, dflt):
    return v is None or not mentions(v, lambda x: x[:1] == ("obj",) and str(x[1]).startswith("arg"))


def made(m, r, T, d):
    """({name: value}, {name: default}, {name: type}) of what a path makes or of the call it forwards to."""
    if T and struct(m, T):
        v = r.value
        while isinstance(v, tuple) and v[0] in ("init",) and len(v) == 2:
            v = v[1]
        if not (isinstance(v, tuple) and v[0] == "agg"):
            return forwarded(m, r, v)
        vals = dict(v[2])
        fs = {x["n"]: x for _, x in m.fields(T)}
        return {n: vals.get(n) for n in fs}, {n: fs[n].get("init") for n in fs}, {n: fs[n]["t"] for n in fs}
    if T:
        v = r.value
        if not (isinstance(v, tuple) and v[0] == "new"):
            # forwarded to a function that makes it
            return forwarded(m, r, v)
        if v[1] != T:
            return None
        args = v[3:]
        cs = ctors(m, T, len(args)) or [f for f in m.fns.values() if f.cls == T and f.is_ctor and len(f.params) > len(args)
                                        and all("def" in q for q in f.d["params"][len(args):])]
        inh = T
        if not cs:
            return {"?": None} if not args else ({"arg%d" % i: a for i, a in enumerate(args)}, {}, {})
        f = cs[0]
        ps = [p["n"] or q["n"] for p, q in zip(f.params, f.d["params"])]
        return (dict(zip(ps, args)), {p["n"]: p.get("def") for p in f.d["params"] if p.get("def") is not None}, {p["n"]: p["t"] for p in f.params})
    return forwarded(m, r, r.value)


def forwarded(m, r, v):
    ev = None
    for e in r.trace:
        if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("mlio::") and e.extra == v:
            ev = e
    if ev is None:
        for e in reversed(r.trace):
            if e.kind == "call" and isinstance(e.name, str) and e.name.startswith("mlio::"):
                ev = e
                break
    if ev is None:
        return {}, {}, {}
    fs = [f for f in m.fns.values() if f.name == ev.name and len(f.params) >= len(ev.args)]
    ag = [i for i, a in enumerate(ev.args) if isinstance(a, tuple) and a[:1] == ("agg",)]
    # the overload that takes structures where structures are passed
    best = [f for f in fs if all(base_name(f.params[i]["t"]) in m.classes for i in ag)] or fs
    if not best:
        return {}, {}, {}
    f = best[0]
    pos, dflt, types = {}, {}, {}
    for i, a in enumerate(ev.args):
        if i in ag:
            S = base_name(f.params[i]["t"])
            vals = dict(a[2])
            for _, x in m.fields(S) if S in m.classes else ():
                pos[x["n"]], dflt[x["n"]], types[x["n"]] = vals.get(x["n"]), x.get("init"), x["t"]
        else:
            pos[f.params[i]["n"]], types[f.params[i]["n"]] = a, f.params[i]["t"]
    return pos, dflt, types


# ------------------------------------------------------------ defaults
def value(e, t=""):
    """The constant an expression stands for; None if that is not known."""
    e = unwrap(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k in ("int", "bool", "char", "float"):
        v = e["v"]
        return ("c", int(v) if not isinstance(v, float) else v)
    if k == "str":
        return ("c", e["v"]) if e["v"] else ("empty",)
    if k == "null":
        return ("empty",)
    if k == "ref":
        if e.get("dk") == "enumc":
            return ("c", e["v"])
        if e.get("qn") in ("std::nullopt",) or e.get("n") == "nullopt":
            return ("empty",)
        return ("ref", e.get("qn") or e.get("n"))
    if k == "init":
        a = e.get("a") or []
        if not a:
            return ("zero",)
        return value(a[0]) if len(a) == 1 else None
    if k == "ctor":
        a = [x for x in e.get("args", []) if unwrap(x).get("k") != "defarg" and "allocator" not in str(unwrap(x).get("cls", ""))]
        if e["fn"] == "std::optional::(ctor)":
            if not a or value(a[0]) == ("empty",):
                return ("empty",)
            return value(a[0])
        if not a:
            return ("empty",)
        if len(a) == 1:
            return value(a[0])
        return None
    if k == "un" and e.get("op") == "-":
        v = value(e["a"])
        return ("c", -v[1]) if v and v[0] == "c" else None
    return None


def zeroish(v, t):
    return v in (("zero",), ("c", 0), ("empty",)) if "optional" not in t else v in (("zero",), ("empty",))


def same_default(ck, d, here, a, pyd, cd, t, known):
    if pyd is None or not known:
        return
    v, w = value(pyd), value(cd)
    if v is None or w is None:
        return
    if v == ("empty",) and "optional" not in t and unwrap(pyd).get("k") == "ref":
        return      # None for what cannot be None: the argument has to be given, or stands for what the factory makes of it
    if "optional" in t and w == ("zero",):
        w = ("empty",)
    ok = v == w or ("optional" not in t and zeroish(v, t) and zeroish(w, t))
    ck.ob("an argument that is not given means the default of C++", "%s %s" % (here, a), ok, "it is %s instead of %s" % (v[-1], w[-1]), d.where)


# ------------------------------------------------------------ types
MLIO = re.compile(r"mlio::[A-Za-z_0-9:]+")
NOTYPES = {"mlio::Intrusive_ptr", "mlio::stdx::span"}


def known_types(ck, m, B):
    known = set(B.classes) | set(B.enums)
    for d in B.defs:
        types = []
        if d.kind in ("def_readwrite", "def_readonly"):
            t = fnref(d.target)
            f = next((x for _, x in m.fields(d.cls) if t and x["n"] == t.get("n")), None) if d.cls in m.classes else None
            if f:
                types.append(f["t"])
        else:
            t = unwrap(d.target) if d.target else None
            if isinstance(t, dict) and t.get("k") == "lambda":
                types += [p["t"] for p in t["params"]] + [t.get("ret", "")]
            elif t is not None:
                r = fnref(t)
                f = m.resolve_call(r, d.f.tu) if r else None
                if f is not None:
                    types += [p["t"] for p in f.params] + ([f.ret] if d.init is None else [])
            if d.kind == "def_buffer":
                types = []
        here = "%s.%s" % (last_(d.cls), d.name) if d.cls else d.name
        for t in types:
            for x in MLIO.findall(t or ""):
                if x.startswith("pymlio"):
                    x = x
                if x in NOTYPES or x in known or "std::function" in (t or ""):
                    continue
                if x.replace("mlio::", "pymlio::", 1) in known and "pymlio" in t:
                    continue
                if x not in m.classes and not is_enum(m, x):
                    continue
                ck.ob("the types of what is bound are known to Python", here, False, "%s is not" % x, d.where)
        ck.ob("the types of what is bound are known to Python", here, True, "", d.where)


def is_enum(m, x):
    try:
        return bool(enumerators(m, x))
    except Exception:
        return False


# ------------------------------------------------------------ classes that Python may derive from
def asks(f):
    return [n for n in calls(f.body) if n["fn"] in ("pybind11::get_override", "pybind11::get_overload")]


def trampolines(ck, m):
    helpers = set()         # functions that look for an override on behalf of others
    for f in m.fns.values():
        if py(f) and f.cls and f.d.get("overrides"):
            for n in calls(f.body):
                g = m.resolve_call(n, f.tu)
                if g is not None and py(g) and not g.d.get("overrides") and asks(g):
                    helpers.add(g.id)
    for f in m.fns.values():
        if not py(f) or not f.cls or f.id in helpers:
            continue
        ns = [(f, n) for n in asks(f)]
        for c in calls(f.body):
            g = m.resolve_call(c, f.tu)
            if g is not None and g.id in helpers:
                ns += [(g, n) for n in asks(g)]
        for g, n in ns:
            s = next((lit(a) for a in n["args"] if lit(a) is not None), None)
            want = {"repr": ("__repr__", "repr")}.get(f.short, (f.short,))
            ck.ob("a Python override is found under its name", short(f.name), s in want, "it is looked for as %s" % s, at(g, n))
        if ns:
            ck.saw(f)
            over(ck, m, f, helpers)


def over(ck, m, f, helpers=()):
    """The override gets the parameters, and what it returns is returned."""
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.id not in helpers)
    rs = ck.interp_done(i, i.run(f))
    kept = set()            # fields that keep the result of the override
    for r in rs:
        c = override_call(r)
        for e in r.trace if c is not None else ():
            if e.kind in ("write", "lwrite") and isinstance(e.obj, tuple) and e.obj[:2] == ("f", ("obj", "this")) and (contains(e.args[0], c.extra) or from_(r, e.args[0], c.extra)):
                kept.add(e.obj)
    for r in rs:
        e = override_call(r)
        if r.outcome == "return" and f.ret not in (None, "void"):
            ck.ob("what C++ refers to is the object's own", short(f.name), "&" not in f.ret or not any(x.kind in ("write", "lwrite") and isinstance(x.obj, tuple) and x.obj[0] == "g" for x in r.trace),
                  "the result of the override is kept in a variable that all objects share", f.where())
        if e is None:
            if r.outcome == "return" and not any(contains(r.value, k) for k in kept):
                ck.ob("a Python override is called", short(f.name), False, "it returns without calling it", f.where())
            continue
        fl = Flow(r)
        for k, p in enumerate(f.params):
            src = set()
            for a in e.args:
                src |= fl.of(a)
            ck.ob("a Python override gets the arguments", "%s %s" % (short(f.name), p["n"]), k in src, "it is not passed on", f.where())
        if r.outcome == "return" and f.ret not in (None, "void"):
            ok = r.value is not None and (contains(r.value, e.extra) or from_(r, r.value, e.extra) or any(contains(r.value, k) for k in kept))
            ck.ob("what a Python override returns is returned", short(f.name), ok, "%s is returned" % show(r.value), f.where())


def override_call(r):
    c = [e for e in r.trace if e.kind == "call" and nm(e.name, "operator()") and "pybind11" in e.name]
    return c[-1] if c else None


def from_(r, v, src, depth=0):
    """Is v made from src?"""
    if depth > 8:
        return False
    if contains(v, src):
        return True
    for e in r.trace:
        if e.kind in ("call", "ctor", "make") and isinstance(e.extra, tuple) and contains(v, e.extra) and e.extra != v or \
                e.kind in ("call", "ctor", "make") and e.extra == v:
            for a in list(e.args) + [e.obj]:
                if isinstance(a, tuple) and a != v and from_(r, a, src, depth + 1):
                    return True
        if e.kind in ("write", "lwrite") and isinstance(v, tuple) and contains(v, e.obj) and isinstance(e.args[0], tuple) and e.args[0] != v:
            if contains(e.args[0], src):
                return True
    return False


# ------------------------------------------------------------ iterators
def iterators(ck, m):
    for f in m.fns.values():
        if not py(f) or f.short != "next" or not f.cls or "iterator" not in f.cls:
            continue
        i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: "/mlio-py/" not in fn.file)
        for r in ck.interp_done(i, i.run(f)):
            rd = [e for e in r.trace if e.kind == "call" and isinstance(e.name, str) and last_(e.name).startswith("read_")]
            ck.ob("an iterator reads one element at a time", short(f.name), len(rd) == 1, "it reads %d" % len(rd), f.where())
            if len(rd) != 1:
                continue
            fs = {}
            for e in r.trace:
                if e.kind == "fact" and isinstance(e.name, tuple) and e.name[0] == "has" and (contains(e.name, rd[0].extra) or from_(r, e.name[1], rd[0].extra)):
                    fs["has"] = e.args[0]
            if r.outcome == "return":
                ok = fs.get("has") is True and (contains(r.value, rd[0].extra) or from_(r, r.value, rd[0].extra))
                ck.ob("an iterator returns what was read and ends at the end", short(f.name), ok,
                      "%s is returned%s" % (show(r.value), "" if "has" in fs else " without a look at whether there is one"), f.where())
            else:
                ex = [e for e in r.trace if e.kind == "throw"]
                ok = fs.get("has") is False and ex and "stop_iteration" in str(ex[-1].name) + str(ex[-1].args) + str(r.value)
                ck.ob("an iterator returns what was read and ends at the end", short(f.name), ok, "it raises %s" % (ex[-1].name if ex else "something else"), f.where())


# ------------------------------------------------------------ the package
def package(ck, m, B):
    p = os.path.join(REPO, "src/mlio-py/mlio/__init__.py")
    if not os.path.exists(p):
        return
    tree = ast.parse(open(p).read())
    have = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and n.module == "mlio._core":
            for a in n.names:
                have[a.asname or a.name] = (a.name, n.lineno)
    for k, (v, l) in sorted(have.items()):
        ck.ob("the package calls things by their names", k, k == v, "it is %s" % v, "src/mlio-py/mlio/__init__.py:%d" % l)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign,)) and any(isinstance(t, ast.Name) and t.id in have for t in n.targets):
            ck.ob("the package calls things by their names", n.targets[0].id, False, "it is assigned", "src/mlio-py/mlio/__init__.py:%d" % n.lineno)
    names = {v[0] for v in B.classes.values()} | {v[0] for v in B.enums.values()} | {d.name for d in B.defs if d.cls is None}
    for x in sorted(names):
        if x.endswith("Iterator") or x in ("set_log_message_handler", "clear_log_message_handler", "set_log_level", "as_dlpack"):
            continue
        ck.ob("the package has everything", x, x in have, "it is not imported from mlio._core", "src/mlio-py/mlio/__init__.py")
    levels(ck, tree)


def levels(ck, tree):
    """LogLevel.X is logging.X."""
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or "log_level" not in f.name:
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.Eq):
                c = [x for x in (n.test.left, n.test.comparators[0]) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "LogLevel"]
                ret = n.body[0].value if n.body and isinstance(n.body[0], ast.Return) else None
                if c and isinstance(ret, ast.Attribute):
                    want = {"OFF": ("NOTSET",)}.get(c[0].attr, (c[0].attr,))
                    ck.ob("a log level of Python's logging is the one of that name", c[0].attr, ret.attr in want, "it is %s" % ret.attr,
                          "src/mlio-py/mlio/__init__.py:%d" % n.lineno)
