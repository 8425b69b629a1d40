"""Python objects are touched only by a thread that holds the GIL, and a thread that may have to wait gives the GIL up first.

Every function of the bindings that is entered from C++ (overrides of Python classes, destructors, functions handed to the library) or
from Python (what the module registers) is followed on all its paths with the state of the GIL; what a path does to Python objects has to
happen while the GIL is held, and a call of the library from which a wait can be reached has to happen while it is not."""
import re
from util import *
from absint import Interp, show
from model import calls, walk, unwrap, targs
from checks.c29 import Binding, fnref, subterms

ASSUMPTIONS = ["pybind11 calls what is registered with the GIL held, converts arguments and results with the GIL held, and call_guard<gil_scoped_release> gives the GIL up for exactly the call",
               "gil_scoped_acquire and gil_scoped_release hold and give up the GIL for as long as the object lives",
               "waiting primitives are those of the table WAITS: condition variables, joins, the flow graph's wait_for_all, poll, select, nanosleep, read and open of the operating system"]
ACQ, REL = "pybind11::gil_scoped_acquire", "pybind11::gil_scoped_release"
WAITS = {"std::condition_variable::wait", "std::condition_variable::wait_for", "std::condition_variable::wait_until",
         "std::condition_variable_any::wait", "std::condition_variable_any::wait_for", "std::condition_variable_any::wait_until",
         "std::thread::join", "std::__basic_future::wait", "std::future::get", "std::this_thread::sleep_for", "std::this_thread::sleep_until",
         "tbb::detail::d1::graph::wait_for_all", "tbb::flow::graph::wait_for_all", "poll", "ppoll", "select", "pselect", "nanosleep", "clock_nanosleep",
         "usleep", "sleep", "read", "pread", "open"}
# of pybind11, what does not touch Python objects
PURE = re.compile(r"pybind11::(gil_scoped_|pybind11_fail|handle::(\(ctor\)|operator bool|ptr)|cast_error|value_error|index_error|stop_iteration|type_error|key_error)|"
                  r"(PyGILState_|PyEval_(Save|Restore)Thread|Py_IsInitialized|Py_IsFinalizing|_Py_IsFinalizing)")
PYOBJ = re.compile(r"pybind11::(object|function|str|bytes|list|dict|tuple|set|int_|float_|bool_|module_|buffer|buffer_info|iterator|iterable|memoryview|"
                   r"capsule|weakref|type|sequence|array|cpp_function|args|kwargs|detail::accessor)\b")
PYFIELD = re.compile(r"pybind11::(?!gil_)|\bPy_buffer\b|\b_object\b|\bPyObject\b")


def run(ck):
    m = ck.model("core", "py", "insights")
    global MODEL
    MODEL = m
    B = Binding(ck, m, lambda f: f.body is not None and py(f))
    W = Waits(m)
    from_cpp(ck, m, B)
    from_python(ck, m, B, W)
    destroyed(ck, m, B)
    readers(ck, m, B, W)


def py(f):
    return "/mlio-py/" in f.file


MODEL = None


def opaque(fn, call):
    """Followed are the functions of the bindings that have anything to do with Python or its GIL."""
    return not py(fn) or not relevant(fn)


def relevant(f, memo={}):
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = False
    r = f.body is not None and (f.short == "(dtor)" or any(rel(n, f.tu) for n in calls(f.body)))
    memo[f.id] = r
    return r


def rel(n, tu):
    fn = n.get("fn") or ""
    if fn.startswith("pybind11::") and not (PURE.match(fn) and "gil_" not in fn) or re.match(r"_?Py[A-Z_]\w*$", fn) or fn in WAITS:
        return True
    h = MODEL.resolve_call(n, tu)
    return h is not None and py(h) and relevant(h)


def touches(e):
    """Does this event touch Python objects?"""
    n = e.name if isinstance(e.name, str) else ""
    if e.kind == "call":
        return bool((n.startswith("pybind11::") or re.match(r"_?Py[A-Z_]\w*$", n)) and not PURE.match(n))
    if e.kind == "ctor":
        if n == "pybind11::error_already_set::(ctor)":
            return True
        return bool(PYOBJ.match(n) and n.endswith("::(ctor)") and e.args and not moved(e))
    if e.kind == "dtor":
        return bool(PYOBJ.match(n)) and not (e.args and isinstance(e.args[0], tuple) and e.args[0][:1] == ("moved",))
    return False


def moved(e):
    return any(isinstance(a, tuple) and a and a[0] == "moved" for a in e.args)


def walk_gil(r, held):
    """(event, state of the GIL when it happens); the state is True, False or None if it is not known."""
    st = [held]
    at = []          # the guards that live
    for e in r.trace:
        n = e.name if isinstance(e.name, str) else ""
        if e.kind == "ctor" and n in (ACQ + "::(ctor)", REL + "::(ctor)"):
            yield e, st[-1]
            if isinstance(e.obj, tuple):
                at.append(e.obj)
                st.append(n.startswith(ACQ))
            continue
        if e.kind == "dtor" and n in (ACQ, REL) and e.obj in at:
            k = len(at) - 1 - at[::-1].index(e.obj)
            del at[k:], st[k + 1:]
            continue
        if e.kind == "call" and n in ("PyGILState_Ensure", "PyEval_RestoreThread"):
            at.append(n)
            st.append(True)
            continue
        if e.kind == "call" and n in ("PyGILState_Release", "PyEval_SaveThread"):
            if at and at[-1] in ("PyGILState_Ensure", "PyEval_RestoreThread", "PyEval_SaveThread"):
                at.pop()
                st.pop()
            else:
                at.append(n)
                st.append(False)
            continue
        yield e, st[-1]


def check(ck, r, held, what, where, cpp=False):
    """One path; held: the state when it is entered."""
    bad = None
    n = 0
    for e, h in walk_gil(r, held):
        if e.kind == "ctor" and e.name == REL + "::(ctor)":
            ck.ob("the GIL is given up only by one who holds it", what, h is True, "it is not known to be held" if h is None else "it is given up already", where)
        if not touches(e):
            continue
        n += 1
        if h is not True and bad is None:
            bad = e
    ck.ob("Python objects are touched with the GIL", what, bad is None, "%s happens without it" % ((bad.name if bad.kind != "dtor" else "the end of a " + bad.name) if bad else ""), where)
    return n


# ------------------------------------------------------------ entered from C++
def from_cpp(ck, m, B):
    k = 0
    for f in sorted((f for f in m.fns.values() if py(f) and f.body is not None), key=lambda f: (f.file, f.line)):
        if f.d.get("overrides") or f.short == "operator()" and functor(m, f):
            i = Interp(m, this_cls=f.cls, peel=0, opaque=opaque)
            for r in ck.interp_done(i, i.run(f)):
                k += check(ck, r, None, short(f.name), f.where())
        for c, node in handed(m, f):
            i = Interp(m, this_cls=f.cls, peel=0, opaque=opaque)
            for r in ck.interp_done(i, i.run_lambda(node, f)):
                k += check(ck, r, None, "%s, the function handed to %s" % (short(f.name), short(c["fn"])), f.where())
    ck.need(k, "functions entered from C++ that touch Python objects")


def functor(m, f):
    """A call operator of a class of the bindings that the library may be given."""
    return f.cls is not None and any(PYFIELD.search(x[1]["t"]) for x in m.fields(f.cls))


def handed(m, f):
    """The lambdas that f hands to functions of the library, or to a thread."""
    for n in calls(f.body):
        fn = n.get("fn") or ""
        if not (fn.startswith("mlio::") or fn.startswith(("std::thread", "std::async", "std::function", "tbb::"))):
            continue
        if fn.startswith("std::function") and not fn.endswith("(ctor)"):
            continue
        for a in n.get("args", ()):
            x = unwrap(a)
            for y in ([x] if isinstance(x, dict) and x.get("k") == "lambda" else []) + [z for z in walk(a) if isinstance(z, dict) and z.get("k") == "lambda"]:
                yield n, y


# ------------------------------------------------------------ entered from Python
class Waits:
    """The functions of the library from which a wait can be reached."""

    def __init__(self, m):
        self.m, self.memo, self.edges = m, {}, {}

    def of(self, f):
        if f.id in self.memo:
            return self.memo[f.id]
        seen, work, res = set(), [(f, ())], None
        while work and res is None:
            g, p = work.pop(0)
            if g.id in seen or g.body is None:
                continue
            seen.add(g.id)
            for w, h in self.out(g):
                if w:
                    res = [short(x) for x in p + (g.name,)] + [w]
                    break
                work.append((h, p + (g.name,)))
        self.memo[f.id] = res
        return res

    def out(self, g):
        if g.id in self.edges:
            return self.edges[g.id]
        es = []
        for n in calls(g.body):
            if (n.get("fn") or "") in WAITS:
                es.append((n["fn"], None))
                continue
            es += [(None, h) for h in self.targets(n, g.tu)]
        for _, b in fields_dtors(self.m, g):
            es.append((None, b))
        self.edges[g.id] = es
        return es

    def targets(self, n, tu):
        t = []
        h = self.m.resolve_call(n, tu)
        if h is not None:
            t.append(h)
        if n.get("id"):
            t += [x for x in (self.m.fns.get(o) if isinstance(o, str) else o for o in self.m.overriders(n["id"])) if x is not None]
        # what Python overrides takes the GIL by itself
        return [x for x in t if not ("/mlio-py/mlio/core/" in x.file and x.d.get("overrides"))]


def fields_dtors(m, g):
    """The destructors that the end of an object runs besides its own: those of its bases."""
    if g.short != "(dtor)" or not g.cls:
        return
    for b in m.bases(g.cls):
        for x in m.methods(b) if hasattr(m, "methods") else ():
            if x.short == "(dtor)" and x.body is not None:
                yield b, x


def guarded(d):
    return any(isinstance(x, dict) and "call_guard" in str(x.get("cls", "")) + str(x.get("t", "")) + str(x.get("fn", "")) and "gil_scoped_release" in str(x.get("cls", "")) + str(x.get("t", "")) + str(x.get("fn", ""))
               for a in d.n["args"] for x in walk(a))


def from_python(ck, m, B, W):
    k = 0
    for d in B.defs:
        g = guarded(d)
        for t in (d.target, d.setter):
            t = unwrap(t)
            if not isinstance(t, dict):
                continue
            what = "%s%s" % (d.cls.split("::")[-1] + "." if d.cls else "", d.name)
            nodes, guards = inside(m, t, d.f.tu)
            if nodes is not None and not guards and not g:
                # the GIL is held all the time
                w = next(((n, w) for n, tu in nodes for w in [waits(W, n, tu)] if w), None)
                k += bool(w)
                ck.ob("a call that may wait gives the GIL up", what, not w, "%s may wait: %s" % (short(w[0]["fn"]), path(w[1])) if w else "", d.where)
                continue
            if nodes is not None and g and not guards and not any(rel(n, tu) for n, tu in nodes):
                # the GIL is given up all the time, and nothing has to do with Python
                k += any(waits(W, n, tu) for n, tu in nodes)
                ck.ob("Python objects are touched with the GIL", what, True, "", d.where)
                continue
            if t.get("k") == "lambda":
                i = Interp(m, this_cls=d.f.cls, peel=0, opaque=opaque)
                k += mine(ck, m, W, ck.interp_done(i, i.run_lambda(t, d.f)), g, what, d.where, d.f.tu)
                continue
            r = fnref(t)
            f = m.resolve_call(r, d.f.tu) if r is not None else None
            if f is not None and py(f) and f.body is not None:
                i = Interp(m, this_cls=f.cls, peel=0, opaque=opaque)
                k += mine(ck, m, W, ck.interp_done(i, i.run(f)), g, what, d.where, f.tu)
                continue
            fs = W.targets(r, d.f.tu) if r is not None else []
            w = next((w for w in (W.of(x) for x in fs) if w), None)
            if w:
                k += 1
                ck.ob("a call that may wait gives the GIL up", what, g, "%s may wait: %s" % (short(r.get("qn") or r.get("fn") or ""), path(w)), d.where)
    ck.need(k > 4, "registered functions from which a wait can be reached")


def inside(m, t, tu):
    """(the calls in a function of the bindings and in those that it calls, whether the state of the GIL changes in one of them)"""
    r = fnref(t) if t.get("k") != "lambda" else None
    if t.get("k") == "lambda":
        work = [((t.get("insts") or [t])[0].get("body") or t.get("body"), tu)]
    else:
        f = m.resolve_call(r, tu) if r is not None else None
        if f is None or not py(f) or f.body is None:
            return None, False
        work = [(f.body, f.tu)]
    nodes, seen, guards = [], set(), False
    while work:
        b, u = work.pop()
        for n in calls(b):
            fn = n.get("fn") or ""
            if fn.startswith((ACQ, REL, "PyGILState_", "PyEval_SaveThread", "PyEval_RestoreThread")):
                guards = True
            nodes.append((n, u))
            h = m.resolve_call(n, u)
            if h is not None and py(h) and h.body is not None and h.id not in seen:
                seen.add(h.id)
                work.append((h.body, h.tu))
    return nodes, guards


def waits(W, n, tu):
    if (n.get("fn") or "") in WAITS:
        return [n["fn"]]
    return next((w for w in (W.of(x) for x in W.targets(n, tu) if not py(x)) if w), None)


def mine(ck, m, W, rs, g, what, where, tu):
    """What is registered is a function of the bindings."""
    k = 0
    for r in rs:
        check(ck, r, not g, what, where)
        for e, h in walk_gil(r, not g):
            n = e.node if hasattr(e, "node") else None
            if e.kind != "call" or not isinstance(n, dict):
                continue
            if e.name in WAITS:
                w = [e.name]
            else:
                w = next((w for w in (W.of(x) for x in W.targets(n, tu)) if w), None)
            if w:
                k += 1
                ck.ob("a call that may wait gives the GIL up", what, h is False, "%s may wait: %s" % (short(e.name), path(w)), where)
    return k


def path(w):
    return " > ".join(w if len(w) < 6 else w[:2] + ["..."] + w[-3:])


# ------------------------------------------------------------ the end of objects
def destroyed(ck, m, B):
    """Objects that the library owns can end in any thread: what they hold of Python has to be given back with the GIL."""
    k = 0
    for c in sorted(m.classes):
        if not c.startswith("pymlio::"):
            continue
        fs = [x[1] for x in m.fields(c) if PYFIELD.search(x[1]["t"])]
        if not fs or c in B.classes and not any("Intrusive_ptr" in x or "shared_ptr" in x for x in B.classes[c][1]):
            continue
        ds = [f for f in m.fns.values() if f.short == "(dtor)" and f.cls == c and f.body is not None]
        name = c.split("::", 1)[1]
        if not ds:
            for x in fs:
                ck.ob("what is held of Python is given back with the GIL", "%s::%s" % (name, x["n"]), False, "it has no destructor that takes it", "")
            continue
        for f in ds[:1]:
            i = Interp(m, this_cls=f.cls, peel=0, opaque=opaque)
            for r in ck.interp_done(i, i.run(f)):
                if r.outcome != "return":
                    continue
                check(ck, r, None, name + "::(dtor)", f.where())
                for x in fs:
                    k += 1
                    ok = False
                    for e, h in walk_gil(r, None):
                        F = ("f", ("obj", "this"), x["n"])
                        use = e.kind in ("write", "lwrite") and e.obj == F or e.kind == "call" and (e.obj == F or any(a == F or F in list(subterms(a)) for a in e.args if isinstance(a, tuple)))
                        ok = ok or use and h is True
                    ck.ob("what is held of Python is given back with the GIL", "%s::%s" % (name, x["n"]), ok, "it is given back after the GIL is released, or not at all", f.where())
    ck.need(k, "objects of the library that hold something of Python")


def readers(ck, m, B, W):
    """The end of an object that Python owns: a wait in it happens with the GIL held."""
    for c in sorted(B.classes):
        name, extra, f, n = B.classes[c]
        ds = [x for x in m.fns.values() if x.short == "(dtor)" and x.body is not None and x.cls and (x.cls == c or m.derives(c, x.cls) or m.derives(x.cls, c)) and not py(x)]
        w = next((w for w in (W.of(x) for x in ds) if w), None)
        if any(x.cls == c for x in ds) or w:
            ck.ob("the end of an object does not wait with the GIL held", name, not w, "it may wait: %s" % path(w or []), "%s" % (ck_at(f, n)))


def ck_at(f, n):
    from checks.c29 import at
    return at(f, n)
