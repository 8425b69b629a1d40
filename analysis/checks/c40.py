"""Errors of the C++ library arrive in Python as the exception of the same name, with message and cause.

The exceptions that Python knows are read from the paths of the module's initialisation; the translator of exceptions and the
function that translates causes are followed on all paths, one per handler, and the first handler that takes a class of errors must
make the Python exception of that class from that error."""
from util import *
from absint import Interp, show
from model import calls, walk, unwrap
from checks.c29 import key, subterms as all_

ASSUMPTIONS = ["pybind11 calls the translator with the exception that left the C++ code, and CPython's exception functions do what their documentation says."]
ROOT = "mlio::Mlio_error"
OS = "std::system_error"
RETHROW = ("std::rethrow_exception", "std::rethrow_if_nested")


def run(ck):
    m = ck.model("core", "py")
    errors = sorted({c for c in m.classes if c == ROOT or m.derives(c, ROOT)})
    ck.need(len(errors) > 1, "the classes of errors")
    names = registered(ck, m, errors)
    handled = errors + [OS]
    translator(ck, m, handled, names)
    causes(ck, m, handled, names)
    messages(ck, m, errors)
    kept(ck, m)


def subterms(t):
    return (x for x in all_(t) if isinstance(x, tuple) and len(x) > 1)


def py(f):
    return f.body is not None and "/mlio-py/mlio/core/" in f.file


def fns_calling(m, short):
    return [(f, n) for f in sorted((f for f in m.fns.values() if py(f)), key=lambda f: (f.file, f.line)) for n in calls(f.body) if (n.get("fn") or "").rsplit("::", 1)[-1] == short]


def own(m, c):
    return c.rsplit("::", 1)[-1]


# ---- which exceptions Python knows ---------------------------------------------------------------------------------------------

def exc_made(t):
    """('pybind11::exception' object) -> (name, base) of its constructor"""
    if isinstance(t, tuple) and t[:2] == ("new", "pybind11::exception") and len(t) >= 6:
        return t[4], t[5]
    return None


def text(t):
    """the string a term stands for"""
    for x in subterms(t):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "s":
            return x[1]
    return None


def registered(ck, m, errors):
    """name -> base (a name or a global of CPython), from the initialisation of the module"""
    fs = sorted({f.id for f, n in fns_calling(m, "register_exception_translator")} | {f.id for f in m.fns.values() if py(f) and f.short == "register_exceptions"})
    ck.need(fs, "the function that registers the exceptions")
    names = {}
    tables = set()
    for fid in fs:
        f = next(x for x in m.fns.values() if x.id == fid)
        ck.saw(f)
        i = Interp(m, peel=0, opaque=lambda fn, c: not py(fn))
        rs = [r for r in ck.interp_done(i, i.run(f)) if r.outcome == "return"]
        ck.ob("the exceptions are registered when the module is made", f.name, bool(rs), "the function never returns", f.file)
        for r in rs:
            made = {}
            held = {}       # object that a handle or pointer refers to -> name
            for e in r.trace:
                if e.kind == "ctor" and e.name.startswith("pybind11::exception::") or e.kind == "ctor" and e.name == "pybind11::exception":
                    got = exc_made(e.extra)
                    if got:
                        made[e.extra] = got[0][1] if got[0][0] == "s" else None
                        held[e.obj] = made[e.extra]
                        base = got[1]
                        b = base_of(base, made, held)
                        names.setdefault(made[e.extra], set()).add(b)
                elif e.kind == "call" and e.name.startswith("std::") and e.name.rsplit("::", 1)[-1] in ("emplace", "try_emplace", "insert", "insert_or_assign", "operator[]"):
                    k = text(e.args[0]) if e.args else None
                    x = [t for a in e.args for t in subterms(a) if isinstance(t, tuple) and t[:2] == ("new", "pybind11::exception")]
                    if x:
                        ck.ob("an exception is kept under its own name", "%s" % k, made.get(x[0]) == k, "the exception that Python calls %s is kept under the name %s" % (made.get(x[0]), k), "%s:%s" % (f.file, e.line))
                        tables.add(e.obj)
                        held[e.extra] = made.get(x[0])
                elif e.kind == "call" and e.name == "pybind11::handle::ptr":
                    src = next((v for k, v in held.items() if k is not None and (contains(e.obj, k) or contains(e.extra, k))), None) or next((n for t, n in made.items() if contains(e.obj, t)), None)
                    if src is None and isinstance(e.obj, tuple):
                        src = next((made[t] for t in subterms(i.tmpval.get(e.obj, ())) if t in made), None) if e.obj[0] == "t" else None
                    if src is None and isinstance(e.obj, tuple) and e.obj[0] == "e":
                        src = text(e.obj[2])
                    if src is not None:
                        held[e.extra] = src
    by = {key(n): n for n in names if n}
    out = {}
    for c in errors:
        n = by.get(key(own(m, c)))
        ck.ob("every class of errors has its exception in Python", own(m, c), n is not None, "no exception of that name is registered", c)
        if n is None:
            continue
        out[c] = n
        above = [b for b in m.bases(c) if b in errors and b != c]
        want = {"PyExc_RuntimeError"} if c == ROOT else {by.get(key(own(m, b))) for b in above if not any(x != b and m.derives(x, b) for x in above)}
        got = names[n]
        ck.ob("an exception derives from the one of its base class", n, len(got) == 1 and got <= want, "%s derives from %s and not from %s" % (n, ", ".join(map(str, sorted(map(str, got)))), " or ".join(map(str, want))), c)
    calledby = [f for f in m.fns.values() if py(f) and f.id not in fs and any(m.resolve_call(n, f.tu) is not None and m.resolve_call(n, f.tu).id in fs for n in calls(f.body))]
    ck.ob("the exceptions are registered when the module is made", "call", any("init" in f.name or "_core" in f.name or "module" in f.file for f in calledby), "nothing calls the function that registers them", "")
    return out


def base_of(t, made, held):
    for x in subterms(t):
        if isinstance(x, tuple) and x[0] == "g" and "PyExc_" in str(x[1]):
            return x[1].rsplit("::", 1)[-1]
        if x in held:
            return held[x]
        if x in made:
            return made[x]
    return None


# ---- translation ---------------------------------------------------------------------------------------------------------------

def may_throw(n):
    return n.get("fn") in RETHROW


def lam(f, n):
    for a in n.get("args", ()):
        for x in walk(a):
            if isinstance(x, dict) and x.get("k") == "lambda":
                return x
    return None


def translator(ck, m, handled, names):
    regs = fns_calling(m, "register_exception_translator")
    ck.ob("one translator", "register_exception_translator", len(regs) == 1, "%d translators are registered" % len(regs), "")
    nest = nesters(m)
    for f, n in regs:
        L = lam(f, n)
        g = None
        if L is None:
            g = next((m.resolve_call({"k": "call", "fn": x.get("n") or x.get("fn"), "id": x.get("id")}, f.tu) for a in n["args"] for x in walk(a) if isinstance(x, dict) and x.get("id") and x.get("k") in ("fnref", "ref", "fn")), None)
        ck.need(L is not None or g is not None, "the translator")
        i = Interp(m, peel=0, opaque=lambda fn, c: not py(fn) or fn.id in nest, may_throw=may_throw)
        rs = ck.interp_done(i, i.run_lambda(L, f) if L is not None else i.run(g))
        ck.saw(f)
        paths = by_handler(rs, L["body"] if L is not None else g.body)
        for c in handled:
            h, ps = first(m, paths, c)
            ck.ob("every class of errors is translated", own(m, c), h is not None, "no handler takes it", f.file)
            for r, k in ps if h else ():
                one(ck, m, i, f, c, h, r, k, names, nest, outer=None)


def by_handler(rs, body):
    """type of the first handler that takes the error -> [(path, index of the catch)], in the order of the handlers"""
    out = {h.get("t", "..."): [] for t in walk(body) if isinstance(t, dict) and t.get("k") == "try" for h in t["handlers"]}
    for r in rs:
        k = next((k for k, e in enumerate(r.trace) if e.kind == "catch"), None)
        if k is not None:
            out.setdefault(r.trace[k].name, []).append((r, k))
    return {t: ps for t, ps in out.items() if ps}


def first(m, paths, c):
    """the first handler that takes errors of class c; handlers come in the order of the program"""
    for t, ps in paths.items():
        if t == c or t == "..." or m.derives(c, t) or t in ("std::exception", "std::runtime_error") :
            return t, ps
    return None, ()


def caught(h, k, r):
    """the term that stands for the caught error"""
    e = r.trace[k]
    return e.args[0][2] if e.args and e.args[0][0] == "exc" and len(e.args[0]) > 2 else None


def nesters(m):
    return {f.id for f in m.fns.values() if py(f) and any(n.get("fn") == "std::rethrow_if_nested" for n in calls(f.body))}


def one(ck, m, i, f, c, h, r, k, names, nest, outer):
    """the events of the handler make the exception of class c from the error that was caught"""
    here = "%s: %s" % ("cause" if outer else "error", own(m, c))
    wh = "%s:%s" % (f.file, r.trace[k].line)
    v = caught(h, k, r)
    tr = r.trace[k:]
    made = [(j, e) for j, e in enumerate(tr) if e.kind == "call" and e.name.rsplit("::", 1)[-1] == "operator()" and "pybind11" in e.name]
    ck.ob("the error becomes one exception", here, len(made) == 1 and r.outcome == "return", "%d exceptions are made on the path" % len(made), wh)
    if len(made) != 1:
        return
    j, e = made[0]
    obj = e.extra
    typ = kind(i, e.extra[2] if e.extra[0] == "m" else e.obj, tr)
    if c == OS:
        ck.ob("the exception has the class of the error", here, typ == "PyExc_OSError", "the exception is made as %s" % typ, wh)
        code = [a for a in e.args if any(isinstance(t, tuple) and t[0] == "m" and t[1].endswith("::value") for t in subterms(a))]
        ck.ob("an error of the operating system has its code", here, len(e.args) == 2 and code == [e.args[0]] and derived(code[0], v, "::code"), "the code of the error is not the first argument", wh)
    else:
        ck.ob("the exception has the class of the error", here, typ == names.get(c), "the exception is made as %s" % typ, wh)
    msg = e.args[-1] if e.args else None
    ck.ob("the exception has the message of the error", here, len(e.args) == (2 if c == OS else 1) and derived(msg, v, "::what"), "the last argument is %s" % show(msg) if msg else "there is no message", wh)
    ids = [x for x in tr if x.kind == "call" and any(m_id(m, x, f) == n for n in nest)]
    good = [x for x in ids if len(x.args) == 2 and bare(x.args[0]) == bare(v) and same(i, x.args[1], obj)]
    ck.ob("the cause of an error is translated, too", here, len(good) == 1 and len(ids) == 1, "the causes of the error are not translated to the causes of its exception", wh)
    fin = [(q, x) for q, x in enumerate(tr) if x.kind == "call" and x.name in ("PyErr_SetObject", "PyException_SetCause", "PyErr_SetString", "PyErr_SetNone", "PyException_SetContext", "PyErr_Clear", "PyErr_Restore")]
    if outer is None:
        ok = len(fin) == 1 and fin[0][1].name == "PyErr_SetObject" and fin[0][0] > j
        ck.ob("the exception is raised", here, ok, "PyErr_SetObject is not called exactly once, after the exception was made", wh)
        if ok:
            a, b = fin[0][1].args
            ck.ob("the exception is raised", here + ": object", pointer(tr, b, obj, i, "ptr"), "another object is raised, or one that is not owned", wh)
            t = kind(i, a, tr)
            ck.ob("the exception is raised", here + ": type", t == typ or t in ("type",), "it is raised as %s" % t, wh)
    else:
        ok = len(fin) == 1 and fin[0][1].name == "PyException_SetCause" and fin[0][0] > j
        ck.ob("a cause is attached to the exception of the outer error", here, ok, "PyException_SetCause is not called exactly once, after the exception was made", wh)
        if ok:
            a, b = fin[0][1].args
            ck.ob("a cause is attached to the exception of the outer error", here + ": outer", outer in set(subterms(a)) or any(x.extra == a and (x.obj == outer) for x in tr if x.name == "pybind11::handle::ptr"), "it is attached to another object", wh)
            ck.ob("a cause is attached to the exception of the outer error", here + ": cause", pointer(tr, b, obj, i, "release"), "another object is attached, or the reference is not handed over", wh)


def m_id(m, e, f):
    n = e.node if isinstance(e.node, dict) else None
    g = m.resolve_call(n, e.fn.tu if getattr(e, "fn", None) is not None and hasattr(e.fn, "tu") else f.tu) if n else None
    return g.id if g is not None else None


def derived(t, v, last):
    """t is v.<last>() (perhaps with further accessors)"""
    return any(isinstance(x, tuple) and len(x) > 2 and x[0] == "m" and x[1].endswith(last) and bare(x[2]) == bare(v) for x in subterms(t))


def bare(t):
    """an object and its value at the beginning are the same here: nothing changes an error"""
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ("init", "addr", "*"):
        t = t[1]
    return t


def same(i, a, b):
    return a == b or isinstance(a, tuple) and a[0] in ("init", "copy", "moved") and same(i, a[1], b)


def pointer(tr, t, obj, i, how):
    """t is the pointer of the exception object, borrowed (ptr) or owned (release, inc_ref)"""
    owned = False
    seen = [t]
    ok = False
    for e in reversed(tr):
        if e.kind == "lwrite" and e.args and same(i, e.args[0], obj) and e.obj in seen:
            ok = True
        if e.kind == "call" and e.extra in seen and e.name.startswith("pybind11::"):
            s = e.name.rsplit("::", 1)[-1]
            if s == "release":
                owned = True
            seen.append(e.obj)
            if isinstance(e.obj, tuple) and e.obj[0] == "t" and e.obj in i.tmpval:
                seen.append(i.tmpval[e.obj])
        if e.kind == "call" and e.name == "pybind11::handle::inc_ref" and (e.obj in seen or same(i, e.obj, obj)):
            owned = True
        if e.kind == "call" and e.extra == obj and (obj in seen):
            ok = True
    return ok and owned == (how == "release")


def kind(i, t, tr=()):
    """name of the Python class that a term stands for"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, tuple):
            continue
        seen.add(x)
        for s in subterms(x):
            if isinstance(s, tuple) and s[0] == "g" and "PyExc_" in str(s[1]):
                return s[1].rsplit("::", 1)[-1]
            if s[0] == "e" and len(s) == 3 and text(s[2]):
                return text(s[2])
            if s[0] == "m" and s[1].rsplit("::", 1)[-1] in ("find", "at", "operator[]") and len(s) > 3 and text(s[3]):
                return text(s[3])
            if isinstance(s, tuple) and s[0] == "t" and s in i.tmpval:
                todo.append(i.tmpval[s])
        for e in tr:
            if e.kind == "call" and e.extra == x and e.name.startswith("pybind11::"):
                todo.append(e.obj)
            if e.kind == "lwrite" and e.obj == x and e.args:
                todo.append(e.args[0])
    return None


def causes(ck, m, handled, names):
    nest = nesters(m)
    ck.need(len(nest) == 1, "the function that translates causes")
    for fid in nest:
        f = next(x for x in m.fns.values() if x.id == fid)
        i = Interp(m, peel=0, opaque=lambda fn, c: not py(fn) or fn.id in nest, may_throw=may_throw)
        rs = ck.interp_done(i, i.run(f))
        ck.saw(f)
        for r in rs:
            n = [e for e in r.trace if e.name == "std::rethrow_if_nested"]
            ck.ob("the cause of the very error is looked for", f.name, len(n) == 1 and n[0].args[0] in (("init", ("obj", "arg0")), ("obj", "arg0")), "std::rethrow_if_nested is not called for the error", f.file)
        paths = by_handler(rs, f.body)
        for c in handled:
            h, ps = first(m, paths, c)
            ck.ob("every class of causes is translated", own(m, c), h is not None, "no handler takes it", f.file)
            for r, k in ps if h else ():
                one(ck, m, i, f, c, h, r, k, names, nest, outer=("obj", "arg1"))


# ---- messages and causes of the C++ errors --------------------------------------------------------------------------------------

def messages(ck, m, errors):
    """a message given to an error is its message"""
    for c in errors:
        for f in m.methods(c):
            if f.short != "(ctor)" or f.d.get("defaulted") or f.d.get("inits") is None:
                continue
            strs = [p for p in f.d.get("dparams") or f.params if "char" in p["t"] or "string" in p["t"]]
            if not strs:
                continue
            ok = any(x.get("inherited") or any(isinstance(y, dict) and y.get("k") == "ref" and y.get("d") in [p["d"] for p in strs] for y in walk(x.get("args", ())))
                     for x in walk(f.d["inits"]) if isinstance(x, dict) and x.get("k") == "ctor")
            ck.ob("an error keeps its message", own(m, c), ok, "the message is not handed to the base class", "%s:%s" % (f.file, f.d.get("l")))


def kept(ck, m):
    """an error that is thrown while another one is handled has that one as its cause"""
    for f in sorted((f for f in m.fns.values() if f.body is not None and ("/src/mlio/" in f.file or "/include/mlio/" in f.file)), key=lambda f: (f.file, f.line)):
        for t in walk(f.body):
            if not (isinstance(t, dict) and t.get("k") == "try"):
                continue
            for h in t["handlers"]:
                if h.get("t") != OS and any(isinstance(x, dict) and x.get("k") == "call" and x.get("fn") == "std::throw_with_nested" for x in walk(h["body"])):
                    ck.ob("a cause is of a class that Python knows", "%s: %s" % (f.name, h.get("t")), h.get("t") == ROOT or h.get("t") in m.classes and m.derives(h["t"], ROOT),
                          "a cause of a class that is not translated takes the place of the error", "%s:%s" % (f.file, h.get("l")))
                if not (h.get("t") == ROOT or h.get("t") in m.classes and m.derives(h["t"], ROOT)):
                    continue
                for x in walk(h["body"]):
                    if isinstance(x, dict) and x.get("k") == "throw" and x.get("e"):
                        ck.ob("an error keeps the one it was caused by", "%s: %s" % (f.name, h.get("t")), False, "an error is thrown from the handler without the one that is handled", "%s:%s" % (f.file, x.get("l")))
                    if isinstance(x, dict) and x.get("k") == "call" and x.get("fn") == "std::throw_with_nested":
                        ck.ob("an error keeps the one it was caused by", "%s: %s" % (f.name, h.get("t")), True, "", f.file)
