"""Functions that promise not to throw keep the promise: no exception leaves a noexcept function or a destructor, where it
would end the process.

The set of exception types every such function lets out is computed over the call graph with handler matching; a candidate
counts unless path analysis of the function shows that no feasible path throws."""
import excflow
from absint import AnalysisError
from model import walk, fn_nodes
from util import *

ASSUMPTIONS = ["Memory exhaustion is left out.", "Functions of the standard library throw only what their contract says; C functions do not throw.",
               "pybind11 calls may throw unless they only handle references or the interpreter lock."]
QUIET = ("pybind11::handle::", "pybind11::object::", "pybind11::gil_scoped", "pybind11::reinterpret_", "pybind11::none", "pybind11::error_already_set::", "pybind11::scoped_")


def py_extra(n):
    fn = n.get("fn") or ""
    if fn.startswith("pybind11::") and not n.get("nx") and not fn.startswith(QUIET):
        return "pybind11::error_already_set"
    return user_callable(n)


def user_callable(n):
    fn = n.get("fn") or ""
    if fn.startswith("std::function") and fn.endswith("operator()"):
        return "an exception of a caller's function"
    return None


def run(ck):
    for groups in (("core",), ("core", "py"), ("core", "insights")):
        m = ck.model(*groups)
        x = excflow.Exc(m, extra=py_extra if "py" in groups else user_callable)
        for f in m.fns.values():
            if f.body is None or not (f.noexcept or f.is_dtor):
                continue
            if groups != ("core",) and f.id in ck.model("core").fns:
                continue
            ck.saw(f.name)
            out = x.escapes(f)
            bad = {t: w for t, w in out.items() if not refuted(ck, m, f, t)}
            for t, w in bad.items():
                ck.ob("N1 nothing leaves a noexcept function", f.name, False, "%s can leave it: %s" % (t, excflow.path(w)), f.where())
            if not bad:
                ck.ob("N1 nothing leaves a noexcept function", f.name, True)
        # functions given to C code as callbacks
        for f in m.fns.values():
            if f.body is None or (groups != ("core",) and f.id in ck.model("core").fns):
                continue
            for n in fn_nodes(f):
                for lam in c_callbacks(n):
                    out = {}
                    x.changed, x.active = False, set()
                    x.node(lam.get("body"), f, frozenset(), out)
                    ck.ob("N2 nothing leaves a function called by C code", f.name, not out, "%s can leave the callback: %s" % (next(iter(out), None), excflow.path(next(iter(out.values()), ()))), f.where(lam["l"]))
    ck.need(len(ck.analysed) > 100, "noexcept functions")


def c_callbacks(n):
    """Lambdas converted to a function pointer for C code: assigned to a member or given to a C function."""
    def lam(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "icast", "un", "move", "call"):
            if e.get("k") == "call" and not str(e.get("fn", "")).startswith("(lambda"):
                if "operator " not in str(e.get("fn", "")):
                    return None
                e = e.get("obj")
            else:
                e = e.get("e") or e.get("obj")
        return e if isinstance(e, dict) and e.get("k") == "lambda" else None
    if n.get("k") == "bin" and n.get("op") == "=":
        r = n.get("b") or n.get("r")
        l = lam(r)
        if l and "(*" in str((n.get("a") or n.get("x") or {}).get("t", "(*")):
            yield l
    elif n.get("k") == "ctor" and n.get("fn", "").startswith("pybind11::capsule"):
        for a in n.get("args", ()):
            l = lam(a)
            if l:
                yield l


def refuted(ck, m, f, t):
    """No feasible path of f throws."""
    try:
        x = excflow.Exc(m)
        rs = paths(ck, m, f, this_cls=f.cls, max_paths=2000)
    except AnalysisError:
        return False
    if any(r.outcome == "throw" for r in rs):
        return False
    # the interpreter must have followed every throwing function: no opaque call may throw
    for r in rs:
        for e in r.trace:
            if e.kind == "call" and e.node is not None:
                fn = e.node.get("fn") or ""
                if py_extra(e.node) or (fn in excflow.LIB and excflow.LIB[fn]) or (fn.startswith("cv::") and short(fn) in excflow.CV):
                    return False
                g = m.resolve_call(e.node, f.tu) if e.node.get("id") else None
                if g is not None and g.body is not None and x.escapes(g) and not inlined(r.trace, g):
                    return False
    return True


def inlined(trace, g):
    return any(e.kind == "enter" and e.name == g.name for e in trace)
