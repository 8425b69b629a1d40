"""Python code cannot make the library use memory that is not there, nor alter what is const.

The registrations of the binding are read from the type-checked syntax trees; the functions behind them, the overrides that call
into Python, and the constructors Python reaches are followed on all paths."""
import re

from util import *
from absint import Interp, show
from model import calls, walk, unwrap, targs, base_name
from checks import c29
from checks.c12 import known

ASSUMPTIONS = ["pybind11 and CPython do what their documentation says: a reference argument is never null, an Intrusive_ptr argument is null for None, "
               "py::keep_alive<0, 1> keeps the first argument alive as long as the result, and const is no obstacle for Python."]
BIND = "/mlio-py/mlio/core/"
R = {"null": "None is refused where an object is needed",
     "elem": "a dataset with None in it is refused",
     "open": "a data store written in Python opens a stream or fails",
     "count": "no more bytes arrive than were asked for",
     "ro": "memory that is const is shown read-only",
     "size": "a buffer is as large as its memory",
     "own": "what refers to memory keeps its owner alive",
     "iter": "an iterator keeps its container alive",
     "raw": "no function hands out bare pointers",
     "const": "what is const cannot be altered"}


def run(ck):
    m = ck.model("core", "py")
    scope = lambda f: f.body is not None and BIND in f.file
    B = c29.Binding(ck, m, scope)
    ck.need(B.classes, "registrations of classes")
    nulls(ck, m, B)
    elements(ck, m, B)
    overrides(ck, m)
    buffers(ck, m, B)
    owners(ck, m, B)
    iterators(ck, m, B)
    consts(ck, m, B)


def last_(q):
    return q.split("::")[-1]


def paths(ck, m, f, **kw):
    i = Interp(m, this_cls=f.cls, peel=0, opaque=kw.pop("opaque", lambda fn, call: False))
    ck.saw(f)
    return i, ck.interp_done(i, i.run(f, **kw))


# ------------------------------------------------------------ null arguments
def is_ptr(t):
    t = t.replace("const ", "").strip()
    return base_name(t) == "mlio::Intrusive_ptr" or re.match(r"mlio::[\w:<> ,]*\*$", t) is not None or re.match(r"pymlio::[\w:<> ,]*\*$", t) is not None


def made_by(m, d):
    """The functions a registration can reach: the constructors or the factory of an init, the function of a def."""
    if d.init is not None and d.target is None:
        ta = targs("x" + d.init["ta"][0]) if d.init.get("ta") else []
        for f in m.methods(d.cls):
            if f.is_ctor and f.body is not None and len(f.params) >= len(ta) and all(p.get("def") is not None for p in f.d["params"][len(ta):]) \
                    and all(plain(p["t"]) == plain(t) for p, t in zip(f.params, ta)):
                yield f
        return
    t = c29.fnref(d.target)
    if t is not None and t.get("fn"):
        f = m.resolve_call(t, d.f.tu)
        if f is not None and f.body is not None:
            yield f


def plain(t):
    return t.replace("const ", "").replace("&", "").replace(" ", "")


def nulls(ck, m, B):
    n = 0
    for d in B.defs:
        lam = d.target if isinstance(d.target, dict) and d.target.get("k") == "lambda" else None
        here = "%s.%s" % (last_(d.cls), d.name) if d.cls else str(d.name)
        if lam is not None:
            for k, p in enumerate(lam.get("params") or ()):
                if is_ptr(p["t"]):
                    i = Interp(m, this_cls=d.f.cls, peel=0, opaque=lambda fn, call: False)
                    rs = ck.interp_done(i, i.run_lambda(lam, d.f, setup=lambda st, p=p: i.write(st, ("v", 1, p["d"], p["n"]), ("null",), quiet=True)))
                    n += refused(ck, i, rs, here, p["n"], d.where)
            continue
        for f in made_by(m, d):
            for k, p in enumerate(f.params):
                if is_ptr(p["t"]) and not (k == 0 and not f.cls and d.cls and d.init is None):
                    args = [None] * len(f.params)
                    args[k] = ("null",)
                    i, rs = paths(ck, m, f, args=args)
                    n += refused(ck, i, rs, here, p["n"], f.where())
    ck.need(n > 0, "functions that take objects from Python")


def refused(ck, i, rs, here, name, where):
    bad = [r for r in rs if r.outcome == "return"]
    ck.ob(R["null"], "%s %s" % (here, name), not bad, "a path accepts a null pointer", where)
    return 1


# ------------------------------------------------------------ elements of containers
def elements(ck, m, B):
    """Structures whose field holds objects in a container: whoever keeps one looks at every element."""
    n = 0
    for T in sorted(B.classes):
        if T not in m.classes:
            continue
        fs = [x["n"] for _, x in m.fields(T) if base_name(x["t"]) in ("std::vector", "std::deque", "std::list") and "Intrusive_ptr<" in x["t"]]
        if not fs or not any(d.cls == T and d.init is not None for d in B.defs) or any(x for x in m.methods(T) if x.is_ctor and x.params and x.body is not None and not x.d.get("implicit") and plain(x.params[0]["t"]) != plain(T)):
            continue
        for C in sorted(m.classes):
            if not C.startswith("mlio::"):
                continue
            own = [x["n"] for c, x in m.fields(C) if c == C and plain(x["t"]) == plain(T)]
            if not own:
                continue
            for f in m.methods(C):
                if f.is_ctor and f.body is not None and any(plain(p["t"]).rstrip("&") == plain(T) for p in f.params):
                    n += looked_at(ck, m, f, fs[0])
    ck.need(n > 0, "the readers that take a dataset from Python")


def looked_at(ck, m, f, fld):
    i, rs = paths(ck, m, f)
    of = lambda t: mentions(t, lambda x: len(x) > 2 and x[0] in ("f", "fld") and x[2] == fld)
    el = lambda a: a[0] == "has" and mentions(a[1], lambda x: x[0] in ("e", "elt") and of(x))
    it, thrown = 0, False
    for r in rs:
        fs = facts(r.trace)
        if r.outcome == "throw":
            thrown = thrown or any(el(a) and not v for a, v in fs) or any(algo(e, of) for e in r.trace)
            continue
        if any(algo(e, of) for e in r.trace):
            it += 1
            continue
        # every element that was reached was found to be there
        for j, k, how in loop_segments(r.trace):
            seg = r.trace[j:k]
            if how == "iter" and any(a[0] in ("more", "pos", "eq", "eq0") and of(a) for a, v in facts(seg)):
                it += 1
                ck.ob(R["elem"], short(f.name), any(el(a) and v for a, v in facts(seg)), "an element is not looked at", f.where())
    ck.ob(R["elem"], short(f.name), it > 0 and thrown, "the elements of %s are not looked at" % fld, f.where())
    return 1


def algo(e, of):
    return e.kind == "call" and isinstance(e.name, str) and e.name.startswith("std::") and last_(e.name) in ("find", "find_if", "any_of", "all_of", "none_of", "count", "count_if") \
        and any(of(a) for a in e.args)


# ------------------------------------------------------------ what Python code answers
def overrides(ck, m):
    n = 0
    for f in sorted(m.fns.values(), key=lambda f: f.name):
        if f.body is None or BIND not in f.file or not f.d.get("overrides"):
            continue
        over = f.d["overrides"]
        if re.match(r"mlio::Intrusive_ptr<mlio::Input_stream>", f.ret or "") and f.short == "open_read":
            n += 1
            i, rs = paths(ck, m, f, opaque=lambda fn, call: BIND not in fn.file)
            ok = any(r.outcome == "return" for r in rs)
            for r in rs:
                if r.outcome == "return":
                    k = known(i, r, i.cond_has(r.value))
                    made = isinstance(r.value, tuple) and r.value[0] == "new"
                    ok = ok and (k is True or made)
            ck.ob(R["open"], short(f.name), ok, "a null pointer is returned", f.where())
        if f.short == "read" and len(f.params) == 1 and "span" in f.params[0]["t"].lower() and "long" in (f.ret or ""):
            n += 1
            i, rs = paths(ck, m, f, opaque=lambda fn, call: BIND not in fn.file)
            for r in rs:
                if r.outcome == "return":
                    ck.ob(R["count"], short(f.name), within(i, r), "%s bytes may have been read" % show(r.value)[:60], f.where())
    ck.need(n > 0, "streams and stores written in Python")


SIZES = ("size", "size_bytes")


def within(i, r):
    """The value returned does not exceed the size of the first argument."""
    if r.value == ("c", 0):
        return True
    for nm in sizes_of(r):
        c = i.cond_lt(nm, r.value)
        if known(i, r, c) is False or r.value == nm:
            return True
    v = r.value
    if isinstance(v, tuple) and v[0] == "m" and v[1] == "std::min":
        return any(a in sizes_of(r) for a in v[3])
    return False


def spans_of(r):
    """The first argument, its copies, and views of the whole of it."""
    out = {("obj", "arg0"), ("init", ("obj", "arg0"))}
    first = None
    for e in r.trace:
        if e.kind == "lwrite" and first is None and isinstance(e.args[0], tuple) and str(e.args[0]).find("out:") >= 0:
            first = e
            out.add(e.args[0])
        if e.kind in ("call", "ctor") and isinstance(e.name, str) and e.extra is not None and any(a in out for a in e.args) \
                and (last_(e.name) == "as_span" or "span::(ctor)" in e.name and len(e.args) == 1):
            out.add(e.extra)
    return out


def sizes_of(r):
    out, sp = set(), spans_of(r)

    def visit(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == "m" and isinstance(t[1], str) and last_(t[1]) in SIZES and t[2] in sp:
                out.add(t)
            for x in t:
                visit(x)
        elif isinstance(t, (list, frozenset)):
            for x in t:
                visit(x)
    for a, v in facts(r.trace):
        visit(a)
    visit(r.value)
    return out


# ------------------------------------------------------------ buffers shown to Python
def buffers(ck, m, B):
    n = 0
    for d in B.defs:
        if d.kind != "def_buffer" or d.target is None:
            continue
        here = last_(d.cls)
        for i, r in rs_of(ck, m, d):
            if r.outcome != "return":
                continue
            v = peel(r.value)
            if not (isinstance(v, tuple) and v and v[0] == "new" and "buffer_info" in str(v[1])):
                continue
            n += 1
            args = list(v[3:])
            ro = args[-1] if args and args[-1] in (("c", True), ("c", False), ("c", 0), ("c", 1)) and len(args) > 3 else ("c", False)
            c = const_memory(m, d, args[0] if args else None)
            ck.ob(R["ro"], here, not c or ro in (("c", True), ("c", 1)), "Python may write to it", d.where)
            if d.cls.startswith("mlio::") and c:
                s = [a for a in args if mentions(a, lambda t: t[0] == "m" and last_(str(t[1])) == "size")]
                src = owner(args[0])
                ok = bool(s) and all(owner(a) == src for a in s) and all(peel(a)[0] == "m" for a in s) and args[1] == ("c", 1)
                ck.ob(R["size"], here, ok, "its size is %s" % (", ".join(show(a)[:40] for a in args[1:])), d.where)
    ck.need(n > 0, "buffers")


MEMO = {}


def rs_of(ck, m, d):
    k = (id(m), d.where, d.kind, d.name)
    if k not in MEMO:
        MEMO[k] = rs_of_(ck, m, d)
    return MEMO[k]


def rs_of_(ck, m, d):
    i = None
    t = unwrap(d.target)
    if isinstance(t, dict) and t.get("k") == "lambda":
        i = Interp(m, this_cls=d.f.cls, peel=0, opaque=lambda fn, call: BIND not in fn.file)
        return [(i, r) for r in ck.interp_done(i, i.run_lambda(t, d.f))]
    q = c29.fnref(t)
    f = m.resolve_call(q, d.f.tu) if q else None
    if f is None or f.body is None:
        return []
    i, rs = paths(ck, m, f, opaque=lambda fn, call: BIND not in fn.file)
    return [(i, r) for r in rs]


def peel(t):
    while isinstance(t, tuple) and t and t[0] in ("cast", "addr", "*") and len(t) >= 2:
        t = t[-1]
    return t


def owner(t):
    """What the data or the size is asked of."""
    t = peel(t)
    return t[2] if isinstance(t, tuple) and len(t) > 2 and t[0] in ("m", "r") else None


def const_memory(m, d, ptr):
    """Whether the pointer is that of a function which hands out const memory."""
    names = set()

    def visit(t):
        if isinstance(t, tuple):
            if len(t) > 2 and t[0] in ("m", "r", "call") and isinstance(t[1], str) and "::" in t[1]:
                names.add(t[1])
            for x in t:
                visit(x)
    visit(ptr)
    nodes = [d.target]
    q = c29.fnref(d.target)
    if q and q.get("fn"):
        f = m.resolve_call(q, d.f.tu)
        nodes = [f.body] if f is not None and f.body is not None else nodes
    for nd in nodes:
        for n in walk(nd):
            if n.get("k") == "cast" and "const" in str(n.get("how", n.get("ck", n.get("op", "")))):
                return True
    for nm in names:
        if last_(nm) != "data":
            continue
        fs = [f for f in m.fns.values() if f.name == nm]
        if fs and all((f.ret or "").startswith("const ") or "const_pointer" in (f.ret or "") for f in fs):
            return True
    return False


# ------------------------------------------------------------ what refers to memory
REFERS = re.compile(r"(\*$|&$|_span|span<|view|iterator)")
OWNS = re.compile(r"^(pybind11::(object|buffer|buffer_info|handle_owner)$|mlio::Intrusive_ptr<|std::shared_ptr<|Py_buffer$)")


def owners(ck, m, B):
    n = 0
    for T in sorted(B.classes):
        if not T.startswith("pymlio::") or T not in m.classes:
            continue
        fl = [x for c, x in m.fields(T) if c == T]
        refs = [x for x in fl if REFERS.search(x["t"]) and not x["t"].startswith("std::vector")]
        if not refs:
            continue
        n += 1
        owns = [x["n"] for x in fl if OWNS.match(x["t"])]
        ck.ob(R["own"], last_(T), bool(owns), "%s may outlive what it refers to" % ", ".join(x["n"] for x in refs), "")
        # a copy refers to the same owner
        for f in m.methods(T):
            if f.body is not None and len(f.params) == 1 and plain(f.params[0]["t"]) == plain(T) and (f.is_ctor or f.short == "operator=") and not f.d.get("implicit"):
                i, rs = paths(ck, m, f)
                for r in rs:
                    if r.outcome == "return":
                        gets = lambda x: ("obj", "arg0") in roots(i, r, r.state.store.get(("f", ("obj", "this"), x["n"])))
                        refd = [x for x in refs if gets(x)]
                        own = [x for x in fl if x["n"] in owns and gets(x)]
                        ck.ob(R["own"], "a copy of " + last_(T), not refd or bool(own), "the copy refers to the memory only", f.where())
        # the owner is what the memory came from
        for d in B.defs:
            for i, r in (rs_of(ck, m, d) if d.target is not None and d.kind != "def_buffer" and last_(T) in (returned(m, d) or "").replace("&", " ").replace(">", " ").split("::")[-1].split() else ()):
                if r.outcome != "return":
                    continue
                v = r.value
                if not (isinstance(v, tuple) and v and v[0] == "agg"):
                    continue
                vals = dict(v[2])
                here = "%s.%s" % (last_(d.cls), d.name) if d.cls else d.name
                for x in refs:
                    if x["n"] not in vals:
                        continue
                    src = roots(i, r, vals[x["n"]])
                    ok = any(o in vals and roots(i, r, vals[o]) & src for o in owns)
                    ck.ob(R["own"], "%s of %s" % (last_(T), here), ok, "its owner is not what its memory belongs to", d.where)
    ck.need(n > 0, "classes that refer to memory of the library")


def returned(m, d):
    t = unwrap(d.target)
    if isinstance(t, dict) and t.get("k") == "lambda":
        return t.get("ret")
    q = c29.fnref(t)
    f = m.resolve_call(q, d.f.tu) if q and q.get("fn") else None
    return f.ret if f is not None else None


def roots(i, r, t):
    """The objects a value comes from."""
    out, done = set(), set()
    made = {}
    for e in r.trace:
        if e.kind in ("call", "ctor", "make") and isinstance(e.extra, tuple):
            made.setdefault(e.extra, e)

    def visit(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "obj":
                out.add(t)
                return
            if t in done:
                return
            done.add(t)
            if t in r.state.store:
                visit(r.state.store[t])
            if len(t) == 2 and t[0] == "t" and t in i.tmpval:
                visit(i.tmpval[t])
            e = made.get(t)
            if e is not None:
                visit(e.args)
                visit(e.obj)
            for x in t:
                visit(x)
        elif isinstance(t, (list, frozenset)):
            for x in t:
                visit(x)
    visit(t)
    return out


def iterators(ck, m, B):
    for d in B.defs:
        if d.kind == "def_buffer" or d.target is None:
            continue
        ret = returned(m, d)
        here = "%s.%s" % (last_(d.cls), d.name) if d.cls else str(d.name)
        if ret and re.search(r"pybind11::(iterator|typing::Iterator)", ret):
            keep = any(isinstance(unwrap(a), dict) and "keep_alive<0, 1>" in str(unwrap(a).get("cls", "")) for a in d.n["args"])
            ck.ob(R["iter"], here, keep, "the container may be gone before the iterator", d.where)
        if ret:
            r_ = ret.replace("const ", "").strip()
            bare = r_.endswith("*") and not r_.startswith(("_object", "PyObject", "char"))
            if bare:
                ck.ob(R["raw"], here, False, "it returns %s" % ret, d.where)
        ck.saw(d.f)


# ------------------------------------------------------------ const
def consts(ck, m, B):
    opaque = set()
    for f in m.fns.values():
        if f.body is not None and BIND in f.file:
            for n in calls(f.body):
                if last_(n["fn"]) == "bind_vector" or last_(n["fn"]) == "bind_map":
                    opaque.add((n.get("ta") or [""])[0])
    change = set(opaque)
    for d in B.defs:
        if d.cls is None:
            continue
        if d.kind in ("def_readwrite", "def_property"):
            change.add(d.cls)
        q = c29.fnref(d.target)
        if q and q.get("fn") and d.init is None and d.kind in ("def", "def_property_readonly"):
            f = m.resolve_call(q, d.f.tu)
            if f is not None and f.cls and not f.d.get("const") and not f.flag("static") and m.derives(d.cls, f.cls):
                change.add(d.cls)
    n = 0
    for d in B.defs:
        if d.kind in ("def_readwrite", "def_buffer", "def_property") or d.init is not None or d.target is None:
            continue
        here = "%s.%s" % (last_(d.cls), d.name) if d.cls else str(d.name)
        t = unwrap(d.target)
        q = c29.fnref(t)
        ret = None
        if d.kind == "def_readonly":
            ft = next((x["t"] for _, x in m.fields(d.cls) if q and x["n"] == q.get("n")), None)
            ret = "const %s &" % ft if ft else None
        elif isinstance(t, dict) and t.get("k") == "lambda":
            ret = t.get("ret")
        elif q and q.get("fn"):
            mm = re.match(r"(.*?)\s*\((?:\w|::|<|>| |,)*\*\)", str(t.get("t", "")))
            f = m.resolve_call(q, d.f.tu)
            ret = f.ret if f is not None and f.ret else (mm.group(1) if mm else None)
        if not ret:
            continue
        n += 1
        c = pointee(ret)
        ck.ob(R["const"], here, c is None or not any(same(c, x) for x in change), "it hands out a %s, which Python code can alter" % (c or ""), d.where)
    ck.need(n > 0, "functions that return something to Python")


def pointee(ret):
    """The class a returned const reference or pointer refers to."""
    r = ret.strip()
    if r.startswith("const ") and r.endswith(("&", "*")):
        return r[6:-1].strip()
    if base_name(r) == "mlio::Intrusive_ptr":
        t = targs(r)
        if t and t[0].startswith("const "):
            return t[0][6:].strip()
    return None


def same(a, b):
    return a.replace(" ", "") == b.replace(" ", "")
