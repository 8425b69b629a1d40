"""Every data type is stored, exported to Python buffers and to DLPack, and imported, as the same kind of number.

The conversions are followed on all paths; what every path knows of the data type (or of the format of the buffer) is compared with
what it stores, answers or builds."""
import ast
import os
from util import *
from absint import Interp, show
from model import calls
from facts import REPO
from checks.c23 import meth, peel, results, enums, last

ASSUMPTIONS = ["The machine is the one of the build: 8-bit bytes, 64-bit pointers, LP64.",
               "pybind11::buffer_info(ptr, itemsize, format, size) describes a contiguous one-dimensional buffer."]

# the C++ type (spelled by the compiler), the width in bits, the DLPack code and the characters of Python's struct module
TYPES = {"size": ({"unsigned long"}, 64, 1, "qQNL"), "float16": ({"unsigned short"}, 16, 2, "e"), "float32": ({"float"}, 32, 2, "f"),
         "float64": ({"double"}, 64, 2, "d"), "int8": ({"signed char"}, 8, 0, "b"), "int16": ({"short"}, 16, 0, "h"),
         "int32": ({"int"}, 32, 0, "i"), "int64": ({"long", "long long"}, 64, 0, "ql"), "uint8": ({"unsigned char"}, 8, 1, "B"),
         "uint16": ({"unsigned short"}, 16, 1, "H"), "uint32": ({"unsigned int"}, 32, 1, "I"), "uint64": ({"unsigned long", "unsigned long long"}, 64, 1, "QL"),
         "string": (None, 64, None, "O")}
# every native format: (character, item size) -> data type
FORMATS = {("N", 8): "size", ("e", 2): "float16", ("f", 4): "float32", ("d", 8): "float64", ("b", 1): "int8", ("h", 2): "int16", ("i", 4): "int32",
           ("l", 4): "int32", ("l", 8): "int64", ("q", 8): "int64", ("n", 8): "int64", ("B", 1): "uint8", ("H", 2): "uint16", ("I", 4): "uint32",
           ("L", 4): "uint32", ("L", 8): "uint64", ("Q", 8): "uint64", ("O", 8): "string"}
OPTIONAL = {("n", 8), ("N", 8), ("l", 4), ("L", 4)}
FILES = ("/cpu_array.h", "/cpu_array.cc", "/data_type.h", "/dlpack.cc", "/py_buffer.cc", "/py_device_array.cc", "/py_device_array.h", "/device_array.h",
         "/tensor.h", "/tensor.cc")


def run(ck):
    m = ck.model("core", "py")
    E = enums(m, "mlio::Data_type")
    ck.need(E, "the data types")
    byk = {v: k for k, v in E.items()}
    for n in sorted(E):
        ck.ob("every data type is a known kind of number", n, n in TYPES, "the rules know no data type %s" % n, "include/mlio/data_type.h")
    storage(ck, m, E, byk)
    dlpack(ck, m, E, byk)
    exported(ck, m, E, byk)
    imported(ck, m, E, byk)
    names(ck, m, E, byk)
    numpy_(ck)
    scipy_(ck)


# ------------------------------------------------------------ helpers
def val(t):
    t = peel(t)
    if isinstance(t, tuple) and t and t[0] == "some":
        t = peel(t[1])
    if isinstance(t, tuple) and t:
        if t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool):
            return t[1]
        if t[0] == "enum":
            return t[2]
        if t[0] == "new" and len(t) == 4:
            return val(t[3])
    return None


def pins(fs, pred):
    """(value, excluded values) of the term for which pred holds"""
    v, no = None, set()
    for a, b in fs:
        if a[0] == "eq0" and len(a[2]) == 1 and a[2][0][1] in (1, -1) and pred(a[2][0][0]):
            x = -a[1] * a[2][0][1]
            if b:
                v = x
            else:
                no.add(x)
    return v, no


def run_fn(ck, m, f, inline=FILES, opaque=lambda fn: False, **o):
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: opaque(fn) or not fn.file.endswith(inline) and "/include/mlio/" not in fn.file, **o)
    return i, ck.interp_done(i, i.run(f))


def fns(m, name, pred=lambda f: True):
    seen, out = set(), []
    for f in m.fns.values():
        if f.short == name and f.body is not None and pred(f) and (f.file, f.line, f.id) not in seen:
            seen.add((f.file, f.line, f.id))
            out.append(f)
    return sorted(out, key=lambda f: f.id)


def element(cls, kind="vector"):
    """T of mlio::Cpu_array<std::vector<T, …>>"""
    k = cls.find(kind + "<")
    if k < 0:
        return None
    s, depth = cls[k + len(kind) + 1:], 0
    for n, ch in enumerate(s):
        if ch == "<":
            depth += 1
        elif ch == ">":
            if depth == 0:
                return s[:n].strip()
            depth -= 1
        elif ch == "," and depth == 0:
            return s[:n].strip()
    return None


def stored_as(n, t):
    w = TYPES[n][0] if n in TYPES else ()
    return t is not None and (t in w if w is not None else "basic_string" in t or t == "std::string")


def array_made(r):
    """(class, data type, container) of the array a path makes"""
    v = peel(r.value)
    if isinstance(v, tuple) and v and v[0] == "addr":
        v = v[1]
    if not (isinstance(v, tuple) and v and v[0] == "heap"):
        return None
    dt = co = None
    for e in evs(r.trace, "initf"):
        if e.obj[0] == "f" and e.obj[1] == v:
            if e.name == "data_type_":
                dt = e.args[0]
            elif e.name == "container_":
                co = e.args[0]
    return v[1], dt, co


# ------------------------------------------------------------ arrays
def storage(ck, m, E, byk):
    gs = fns(m, "make_cpu_array", lambda f: "/src/mlio/" in f.file)
    ck.need(gs, "make_cpu_array")
    for g in gs:
        at, w = short(g.name), g.where()
        i, rs = run_fn(ck, m, g)
        seen = set()
        for r in rs:
            k, no = pins(facts(r.trace), lambda t: peel(t) == ("obj", "arg0"))
            if r.outcome != "return":
                ck.ob("an array of every data type can be made", at, k not in byk, "no array of type %s is made" % byk.get(k), w)
                continue
            a = array_made(r)
            ck.ob("a new array is one of the memory of the CPU", at, a is not None and "Cpu_array<" in a[0], "it makes %s" % show(r.value)[:80], w)
            if a is None:
                continue
            ck.ob("only data types that exist have arrays", at, k in byk, "an array is made for an unknown data type", w)
            if k not in byk:
                continue
            n = byk[k]
            seen.add(n)
            ck.ob("the elements of a %s array have its type" % n, at, stored_as(n, element(a[0])), "they are %s" % element(a[0]), w)
            ck.ob("a %s array says so" % n, at, val(a[1]) == k or peel(a[1]) == ("obj", "arg0"), "its data type is %s" % show(a[1])[:50] if a[1] else "it is not set", w)
            c = peel(a[2]) if a[2] else None
            ok = isinstance(c, tuple) and c[0] == "new" and len(c) > 3 and peel(c[3]) == ("obj", "arg1")
            ok = ok or isinstance(c, tuple) and c[0] == "mut" and any(last(e.name) in ("resize", "assign") and e.args and peel(e.args[0]) == ("obj", "arg1") for e in evs(r.trace, "call"))
            ck.ob("an array has the size asked for", at, ok, "it has %s" % show(a[2])[:80] if a[2] else "nothing in it", w)
        for n in sorted(E):
            ck.ob("an array of every data type can be made", at, n in seen, "none of type %s" % n, w)
    # containers wrapped as arrays
    n = 0
    for g in fns(m, "wrap_cpu_array"):
        i, rs = run_fn(ck, m, g)
        for r in rs:
            a = array_made(r)
            if r.outcome != "return" or a is None:
                continue
            k = val(a[1]) if a[1] else None
            t = element(a[0]) or element(a[0], "Py_buffer_container")
            n += 1
            ck.ob("a wrapped container has the element type of its data type", "wrap_cpu_array %s" % (t or "")[:40], k in byk and stored_as(byk[k], t), "%s elements are called %s" % (t, byk.get(k, k)), g.where())
    ck.ob("containers are wrapped as arrays", "wrap_cpu_array", n > 0, "no use of it was found", "include/mlio/cpu_array.h")
    # buffers as containers
    for c in sorted(x for x in m.classes if x.startswith("pymlio::Py_buffer_container")):
        for g in m.methods(c):
            if g.body is None or g.short not in ("begin", "cbegin", "data", "end", "cend", "size"):
                continue
            i, rs = run_fn(ck, m, g)
            for r in rs:
                v = peel(r.value)
                if g.short in ("end", "cend"):
                    t = terms_of(v)
                    ok = t is not None and t[0] == 0 and {last_field(x) for x, k in t[1]} == {"data_", "size_"} and all(k == 1 for x, k in t[1])
                else:
                    ok = last_field(v) == ("size_" if g.short == "size" else "data_")
                ck.ob("a wrapped buffer has the items it was given", short(g.name), ok, "it answers %s" % show(v)[:60], g.where())
    # accessors
    for c in sorted(x for x in m.classes if x.startswith("mlio::Cpu_array")):
        for g in m.methods(c):
            if g.body is None or g.short not in ("data", "size", "empty", "data_type", "clone", "device"):
                continue
            i, rs = run_fn(ck, m, g, opaque=lambda fn: g.short == "clone" and "/mlio-py/" in fn.file)
            at = "%s %s" % (short(g.name), (element(c) or "")[:20])
            for r in rs:
                if r.outcome != "return":
                    continue
                v = peel(r.value)
                if g.short == "data_type":
                    ck.ob("an array answers its own data type", at, names_in(v, lambda s: s == "data_type_"), "it answers %s" % show(v)[:60], g.where())
                elif g.short in ("data", "size"):
                    ck.ob("an array answers its own %s" % g.short, at, (meth(v, g.short) is not None or last_field(v) == g.short + "_") and names_in(v, lambda s: s == "container_"), "it answers %s" % show(v)[:60], g.where())
                elif g.short == "clone":
                    a = array_made(r)
                    ok = a is not None and a[1] is not None and names_in(a[1], lambda s: s == "data_type_") and copies_container(r.trace, a[2])
                    ck.ob("a copy of an array has its data type and elements", at, ok, "it makes %s" % (show(a[2])[:80] if a and a[2] else show(v)[:60]), g.where())


def last_field(v):
    while isinstance(v, tuple) and v and v[0] in ("init", "fld", "f"):
        if v[0] != "init":
            return v[2]
        v = v[1]
    return None


def copies_container(T, c):
    c = peel(c) if c else None
    own = lambda t: names_in(t, lambda s: s == "container_")
    for e in T:
        if e.kind in ("ctor", "make", "call") and (last(e.name) in ("assign", "(ctor)", "vector", "insert") or e.kind == "make") and len(e.args) >= 2:
            for a, b in zip(e.args, e.args[1:]):
                if meth(peel(a), "begin", "cbegin", "data") is not None and own(a) and meth(peel(b), "end", "cend") is not None and own(b) and peel(a)[2] == peel(b)[2]:
                    return True
        if e.kind == "call" and last(e.name) == "copy" and len(e.args) >= 3 and meth(peel(e.args[0]), "begin", "cbegin") is not None and own(e.args[0]) and meth(peel(e.args[1]), "end", "cend") is not None:
            return True
    return isinstance(c, tuple) and c[0] in ("init", "f", "new") and own(c) and not names_in(c, lambda s: s.startswith("std::vector::"))


# ------------------------------------------------------------ DLPack
def dlpack(ck, m, E, byk):
    vs = [f for f in fns(m, "visit") if f.file.endswith("/dlpack.cc") and f.params]
    ck.need(vs, "the tensors that DLPack takes")
    dense = [f for f in vs if "Dense_tensor" in f.params[0]["t"]]
    ck.ob("DLPack takes dense tensors", "as_dlpack", len(dense) == 1, "no visit of dense tensors was found", "src/mlio/integ/dlpack.cc")
    for g in vs:
        if g in dense:
            continue
        i, rs = run_fn(ck, m, g)
        ok = not any(r.outcome == "return" for r in rs)
        ck.ob("tensors that are not dense are refused", short(g.name), ok, "%s is converted to DLPack" % g.params[0]["t"], g.where())
    for g in dense:
        at, w = short(g.name), g.where()
        i, rs = run_fn(ck, m, g)
        seen = set()
        for r in rs:
            dt = lambda t: names_in(t, lambda s: s in ("data_type_",)) or meth(peel(t), "data_type") is not None
            k, no = pins(facts(r.trace), dt)
            if r.outcome != "return":
                ck.ob("every type of number can be converted to DLPack", at, k is None or byk.get(k) in (None, "string") or not refused(r, byk, k), "tensors of type %s are refused" % byk.get(k), w)
                continue
            n = byk.get(k)
            ck.ob("only numbers are converted to DLPack", at, n is not None and n != "string", "a tensor of %s is converted" % (n or "unknown type"), w)
            if n is None or n == "string":
                continue
            seen.add(n)
            managed(ck, g, r, n, at, w)
        for n in sorted(set(E) - {"string"}):
            ck.ob("every type of number can be converted to DLPack", at, n in seen, "tensors of type %s are always refused" % n, w)
    for g in fns(m, "as_dlpack", lambda f: f.file.endswith("/dlpack.cc")):
        i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short in ("accept", "visit"))
        at, w = short(g.name), g.where()
        n = 0
        for r in rs:
            if r.outcome != "return":
                continue
            n += 1
            v, no = pins(facts(r.trace), lambda t: peel(t) == ("obj", "arg1"))
            ck.ob("only the version of DLPack that is built in is answered", at, v is not None, "any version is accepted", w)
            a = [e for e in evs(r.trace, "call") if last(e.name) == "accept"]
            ck.ob("DLPack is given the tensor that was asked for", at, len(a) == 1 and a[0].obj == ("obj", "arg0"), "another tensor is visited", w)
            op = a[0].args[0] if a and a[0].args else None
            ok = names_in(r.value, lambda s: s == "mt") or mentions(r.value, lambda t: isinstance(t, tuple) and t and t[0] == "r" and "accept" in str(t[1]))
            ck.ob("the converted tensor is handed over", at, ok, "it answers %s" % show(r.value)[:60], w)
        ck.ob("tensors can be converted to DLPack", at, n > 0, "it always throws", w)


def refused(r, byk, k):
    """the path throws because of the data type (it learns nothing else that could be the reason)"""
    fs = facts(r.trace)
    return not any(names_in(a, lambda s: "kind" in s or "Device" in s or s in ("dev",)) for a, v in fs)


def made_by(T, x):
    """the call that yielded a value, as a term"""
    if isinstance(x, tuple) and x and x[0] == "r":
        e = next((e for e in T if e.kind == "call" and e.extra == x), None)
        if e is not None and e.obj is not None:
            o = next((d.args[0] for d in T if d.kind == "deref" and d.obj == e.obj and d.args), None)
            return ("m", e.name, (e.obj, made_by(T, o)), e.args)
    return x


def managed(ck, g, r, n, at, w):
    T = r.trace
    F = {}
    root = set()
    for e in T:
        if e.kind == "write" and isinstance(e.obj, tuple) and e.obj and e.obj[0] == "f":
            F[e.name, e.obj[1][2] if e.obj[1][0] == "f" else ""] = e
    def got(name):
        c = [e for (a, b), e in F.items() if a == name and not (name == "mt" and e.obj[1] == ("obj", "this"))]
        return c[0].args[0] if c else None
    for (a, b), e in list(F.items()):
        if isinstance(e.args[0], tuple) and e.args[0] and e.args[0][0] == "agg" and a in ("dl_tensor", "mt"):
            for k, v in e.args[0][2]:
                F.setdefault((k, a), type("W", (), {"args": (v,), "obj": e.obj, "name": k})())
                if isinstance(v, tuple) and v and v[0] == "agg":
                    for k2, v2 in v[2]:
                        F.setdefault((k2, k), type("W", (), {"args": (v2,), "obj": e.obj, "name": k2})())
    arg = ("obj", "arg0")
    t = got("dtype")
    d = dict(t[2]) if isinstance(t, tuple) and t and t[0] == "agg" else {k: got(k) for k in ("bits", "code", "lanes")}
    types, bits, code, _ = TYPES[n]
    ok = d.get("code") is not None and val(d["code"]) == code
    ck.ob("the elements of a %s tensor are the kind of number they are" % n, at, ok, "DLPack is told the code %s" % (show(d["code"]) if d.get("code") is not None else "of nothing"), w)
    ok = d.get("bits") is not None and val(d["bits"]) == bits
    ck.ob("the elements of a %s tensor have their width" % n, at, ok, "DLPack is told %s bits" % (show(d["bits"]) if d.get("bits") is not None else "no"), w)
    ck.ob("every element is one number", at, d.get("lanes") is not None and val(d["lanes"]) == 1, "DLPack is told another number of lanes", w)
    x = got("data")
    x = made_by(T, x)
    ok = x is not None and meth(peel(x), "data") is not None and (names_in(x, lambda s: s == "data_") or mentions(x, lambda t: meth(t, "data") is not None and t[2] == arg)) and mentions(x, lambda t: t == arg)
    ck.ob("DLPack is given the elements", at, ok, "it is given %s" % (show(x)[:80] if x is not None else "nothing"), w)
    x = got("ndim")
    ok = x is not None and meth(peel(x), "size") is not None and names_in(x, lambda s: s in ("shape_", "shape", "mlio::Tensor::shape")) and mentions(x, lambda t: t == arg)
    ok = ok or x is not None and meth(peel(x), "size") is not None and names_in(x, lambda s: s in ("strides_", "mlio::Tensor::strides")) and mentions(x, lambda t: t == arg)
    ck.ob("DLPack is given the number of dimensions", at, ok, "it is given %s" % (show(x)[:80] if x is not None else "nothing"), w)
    for nm_, fld in (("shape", "shape_"), ("strides", "strides_")):
        x = peel(got(nm_)) if got(nm_) is not None else None
        none = next((v for a, v in facts(T) if a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1 and meth(peel(a[2][0][0]), "size") is not None and names_in(a[2][0][0], lambda s: s == fld)), None)
        ok = x is not None and (meth(x, "data") is not None and names_in(x, lambda s: s == fld) and mentions(x, lambda t: t == arg) or x == ("null",) and none is True)
        ck.ob("DLPack is given the %s" % nm_, at, ok, "it is given %s" % (show(x)[:80] if x is not None else "nothing"), w)
    x = got("byte_offset")
    ck.ob("the first element is at the beginning", at, x is None or val(x) == 0, "there is an offset of %s bytes" % (show(x)[:40] if x is not None else ""), w)
    # ownership
    own = next((e for e in T if e.kind == "write" and e.obj == ("f", ("obj", "this"), "mt")), None)
    x = peel(own.args[0]) if own else None
    ctx = x[1][1] if isinstance(x, tuple) and x and x[0] == "addr" and isinstance(x[1], tuple) and x[1][0] == "f" else None
    obj = ctx[1] if isinstance(ctx, tuple) and ctx and ctx[0] == "*" else ("addr", ctx) if ctx is not None else None
    ck.ob("the structure handed over is the one that was filled", at, ctx is not None and x[1][2] == "mt", "it hands over %s" % (show(x)[:60] if x else "nothing"), w)
    mc = got("manager_ctx")
    ck.ob("the structure knows what it keeps", at, mc is not None and peel(mc) == peel(obj), "its context is %s" % (show(mc)[:60] if mc is not None else "not set"), w)
    keeps = False
    for e in T:
        if e.kind in ("write", "movector", "lwrite") and isinstance(e.obj, tuple) and e.obj and e.obj[0] == "f" and e.name == "tensor" and e.args and mentions(e.args[0], lambda t: t == arg):
            keeps = e.args[0]
    wr = [e for e in T if e.kind in ("call", "enter") and last(e.name) == "wrap_intrusive"]
    give = [e for e in T if e.kind == "ctor" and "Intrusive_ptr::" in e.name and e.args and mentions(e.args[0], lambda t: t == arg)]
    ok = keeps is not False and all(len(e.args) < 2 or e.args[1] in (("c", True), ("c", 1)) for e in give) and (not wr or all(len(e.args) < 2 or e.args[1] in (("c", True), ("c", 1)) for e in wr if e.kind == "call"))
    ck.ob("the structure keeps the tensor", at, ok, "the tensor is not kept alive, or is given away without a reference of its own", w)
    rel = [e for e in T if e.kind == "release"]
    freed = [e for e in T if e.kind == "dtor" and "unique_ptr" in e.name and e.args and e.args[0] != ("null",) and mentions(e.args[0], lambda t: isinstance(t, tuple) and t and t[0] == "new" and "context" in str(t[1]))]
    ck.ob("the structure outlives the call", at, not freed, "it is deleted before the function returns", w)
    dl = got("deleter")
    ck.ob("the structure can be deleted", at, dl is not None and peel(dl) != ("null",), "it has no deleter", w)
    if dl is not None:
        deleter(ck, g, dl, at, w)


def deleter(ck, g, dl, at, w):
    lam = []
    mentions(dl, lambda t: isinstance(t, tuple) and t and t[0] == "lambda" and lam.append(t) and False)
    m = ck.model("core", "py")
    if lam:
        rs = lambda_paths(ck, m, lam[0][3].node, g, opaque=lambda f, call: True, peel=0)
    else:
        fn = next((f for f in m.fns.values() if f.body is not None and f.file == g.file and names_in(dl, lambda s: s == f.name)), None)
        if fn is None:
            return
        j = Interp(m, this_cls=None, peel=0, opaque=lambda f, call: True)
        rs = ck.interp_done(j, j.run(fn))
    for r in rs:
        if r.outcome != "return":
            continue
        de = [e for e in r.trace if e.kind in ("delete", "del")]
        null = any(a[0] == "has" and v is False and names_in(a, lambda s: s == "manager_ctx") for a, v in facts(r.trace))
        ok = null or any(names_in(e.args or e.obj, lambda s: s == "manager_ctx") or mentions((e.args, e.obj), lambda t: isinstance(t, tuple) and len(t) == 2 and t == ("obj", "arg0")) for e in de)
        ck.ob("deleting the structure lets go of the tensor", at, ok, "its context is not deleted", w)
        ck.ob("the structure is deleted once", at, len(de) <= 1, "it is deleted %d times" % len(de), w)


# ------------------------------------------------------------ Python buffers
def exported(ck, m, E, byk):
    gs = [f for f in m.fns.values() if f.body is not None and "/mlio-py/" in f.file and f.ret and "buffer_info" in f.ret and f.params]
    arr = [f for f in gs if "device_array" in f.params[0]["t"].lower()]
    den = [f for f in gs if "Dense_tensor" in f.params[0]["t"]]
    ck.need(arr and den, "the Python buffers of arrays and dense tensors")
    for g in arr:
        at, w = short(g.name), g.where()
        i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short in ("data", "make_or_get_string_buffer"))
        seen = set()
        for r in rs:
            if r.outcome != "return":
                continue
            k, no = pins(facts(r.trace), lambda t: meth(peel(t), "data_type") is not None or names_in(t, lambda s: s == "data_type_"))
            v = peel(r.value)
            if not (isinstance(v, tuple) and v[0] == "new" and "buffer_info" in v[1] and len(v) >= 7):
                ck.ob("an array is a Python buffer", at, False, "it answers %s" % show(v)[:80], w)
                continue
            n = byk.get(k)
            if n is None:
                # a type that does not exist: no path can get here
                ck.ob("every data type has a format of its own", at, set(byk) <= no, "a data type is not told from the others", w)
                continue
            seen.add(n)
            ptr, isz, fmt, size = (peel(x) for x in v[3:7])
            types, bits, code, fmts = TYPES.get(n, (None, None, None, ""))
            while isinstance(fmt, tuple) and fmt[0] == "new" and len(fmt) > 3:
                fmt = peel(fmt[3])
            f = fmt[1] if isinstance(fmt, tuple) and fmt[0] == "s" else chr(val(fmt)) if val(fmt) is not None else None
            ok = f is not None and f.lstrip("@=") in set(fmts) and len(f) <= 2
            ck.ob("the items of a %s buffer are said to be what they are" % n, at, ok, "their format is %r" % f, w)
            ck.ob("the items of a %s buffer have their size" % n, at, val(isz) == bits // 8, "their size is %s" % show(isz), w)
            ck.ob("a buffer has the elements of its array", at, ptr is not None and (meth(ptr, "data") is not None and ptr[2] == ("obj", "arg0") or mentions(ptr, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "r" and last(str(t[1])) == "data")),
                  "it begins at %s" % show(ptr)[:60], w)
            ok = meth(size, "size") is not None and mentions(size, lambda t: t == ("obj", "arg0"))
            ck.ob("a buffer has as many items as its array", at, ok, "it has %s" % show(size)[:60], w)
        for n in sorted(E):
            ck.ob("arrays of every data type are Python buffers", at, n in seen, "none of type %s" % n, w)
    for g in den:
        dense_buffer(ck, m, g)


def dense_buffer(ck, m, g):
    at, w = short(g.name) + "(Dense_tensor)", g.where()
    i, rs = run_fn(ck, m, g)
    n = 0
    for r in rs:
        if r.outcome != "return":
            continue
        T = r.trace
        n += 1
        v = peel(r.value)
        if isinstance(v, tuple) and v[0] == "new" and "buffer_info" in str(v[1]) and len(v) >= 9:
            # (ptr, itemsize, format, ndim, shape, strides)
            ck.ob("the buffer of a tensor has its dimensions", at, names_in(v[6], lambda s: s == "shape_"), "it has %s" % show(v[6])[:60], w)
            continue
        # the buffer of the data, described anew
        nd = [e for e in T if e.kind in ("lwrite", "write") and e.name == "ndim"]
        ok = bool(nd) and meth(peel(nd[-1].args[0]), "size") is not None and names_in(nd[-1].args[0], lambda s: s in ("shape_", "strides_", "shape"))
        ck.ob("the buffer of a tensor has its number of dimensions", at, ok, "it is %s" % (show(nd[-1].args[0])[:60] if nd else "the one of its data"), w)
        for fld, src in (("shape", "shape_"), ("strides", "strides_")):
            ok, why = described(i, T, fld, src)
            ck.ob("the buffer of a tensor has its %s" % fld, at, ok, why, w)
    ck.ob("dense tensors are Python buffers", at, n > 0, "it always throws", w)


def described(i, T, fld, src):
    """the vector `fld` of the buffer is emptied and then gets every element of the tensor's vector (times the size of an item)"""
    here = lambda L: isinstance(L, tuple) and L and L[0] == "f" and L[2] == fld
    of = lambda t: names_in(t, lambda s: s == src)
    item = lambda t: names_in(t, lambda s: s == "itemsize")
    fresh = [k for k, e in enumerate(T) if e.kind == "call" and here(e.obj) and last(e.name) in ("clear",)]
    # whole assignments
    for k, e in enumerate(T):
        if e.kind == "call" and here(e.obj) and last(e.name) == "assign" and len(e.args) == 2 and of(e.args[0]) and of(e.args[1]):
            return (fld == "shape", "the strides are not those of items")
    if not fresh:
        sized = [k for k, e in enumerate(T) if e.kind == "call" and here(e.obj) and last(e.name) == "resize" and e.args and meth(peel(e.args[0]), "size") is not None]
        built = [e for e in T if e.kind in ("lwrite", "write") and here(e.obj) and e.name == fld and not (isinstance(e.args[0], tuple) and e.args[0] and e.args[0][0] in ("mut", "r", "init", "fld"))]
        if not sized and not built:
            return False, "it is the one of its data"
        fresh = sized or [0]
    any_loop = False
    for j, k, how in loop_segments(T):
        seg = T[j:k]
        if how == "iter":
            w = [e for e in seg if e.kind == "call" and here(e.obj) and last(e.name) in ("push_back", "emplace_back")]
            w2 = [e for e in seg if e.kind in ("write", "lwrite") and isinstance(e.obj, tuple) and e.obj and e.obj[0] in ("e", "elt") and here(e.obj[1])]
            for e in w + w2:
                any_loop = True
                x = peel(e.args[0])
                if not of(x):
                    return False, "an element is %s" % show(x)[:60]
                fs = factors(x)
                el = [t for t in fs if isinstance(t, tuple) and t and t[0] in ("elt", "e") and of(t)]
                it = [t for t in fs if isinstance(t, tuple) and item(t)]
                if len(el) != 1 or len(it) != (fld == "strides") or len(fs) != len(el) + len(it):
                    return False, "an element is %s" % show(x)[:60]
            if w and len(w) != 1:
                return False, "an element is pushed %d times" % len(w)
            if (any(of(e.name) and e.name[0] == "more" for e in seg if e.kind == "fact")) and not (w or w2):
                return False, "an element is left out"
    more = [e for e in T if e.kind == "fact" and (e.name[0] == "more" and of(e.name[1]) or e.name[0] in ("pos", "eq0") and of(e.name))]
    if not more and not any(e.kind == "call" and last(e.name) in ("transform", "copy") and any(of(a) for a in e.args) for e in T):
        return False, "it does not get the %s of the tensor" % fld
    return True, ""


def factors(t):
    t = peel(t)
    while isinstance(t, tuple) and t and t[0] == "init" and len(t) == 2:
        t = peel(t[1])
    if isinstance(t, tuple) and t and t[0] == "op" and t[1] == "*":
        return [x for y in t[2:] for x in factors(y)]
    if isinstance(t, tuple) and t and t[0] == "lin" and t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1:
        return factors(t[2][0][0])
    return [t]


def imported(ck, m, E, byk):
    gs = [f for f in m.fns.values() if f.body is not None and "/mlio-py/" in f.file and f.ret and "optional<" in f.ret and "Data_type" in f.ret and f.params and "buffer_info" in f.params[0]["t"]]
    ck.need(len(gs) == 1, "the data type of a Python buffer")
    g = gs[0]
    at, w = short(g.name), g.where()
    i, rs = run_fn(ck, m, g)
    seen = set()
    fmt = lambda t: names_in(t, lambda s: s == "format")
    char = lambda k: (lambda t: isinstance(peel(t), tuple) and len(peel(t)) > 2 and fmt(t) and (peel(t)[0] in ("e", "elt") and peel(t)[2] == ("c", k)
                      or meth(peel(t), "operator[]", "at") is not None and peel(t)[3] == (("c", k),) or k == 0 and meth(peel(t), "front") is not None))
    length = lambda t: meth(peel(t), "size", "length") is not None and fmt(t)
    for r in rs:
        if r.outcome != "return":
            continue
        v = peel(r.value)
        if v == ("null",) or isinstance(v, tuple) and v[0] == "new" and len(v) == 3:
            continue
        k = val(v)
        n = byk.get(k)
        fs = facts(r.trace)
        ln, no = pins(fs, length)
        # a size known not to be 0 and not above 2 and not 2 is 1
        c0, _ = pins(fs, char(0))
        c1, _ = pins(fs, char(1))
        up = any(a[0] == "pos" and b is False and len(a[2]) == 1 and length(a[2][0][0]) and a[1] in (-2, -1) for a, b in fs)
        if ln is None and up and 0 in no and 2 in no:
            ln = 1
        two = ln == 2
        ch = c1 if two else c0
        pre = c0 if two else None
        ck.ob("the format of a buffer is one character, or one after a byte order", at, ln in (1, 2), "formats of other lengths are accepted", w)
        if two:
            ck.ob("the items of a buffer are in the byte order of the machine", at, pre is not None and chr(pre) in "@=<", "the byte order %r is accepted" % (chr(pre) if pre is not None else "(any)"), w)
        isz, _ = pins(fs, lambda t: names_in(t, lambda s: s == "itemsize"))
        key = (chr(ch) if ch is not None and 0 < ch < 256 else None, isz)
        ck.ob("a buffer of items %s is taken for what it is" % (key[0] or "?"), at, n is not None and FORMATS.get(key) == n, "items of format %r and size %s are taken as %s" % (key[0], key[1], n or show(v)), w)
        seen.add(key)
    for key in sorted(FORMATS):
        if key not in OPTIONAL:
            ck.ob("buffers of every number the library knows are taken", at, key in seen, "items of format %r and size %d are refused" % key, w)
    made(ck, m, g, E, byk)


def made(ck, m, dtf, E, byk):
    gs = [f for f in m.fns.values() if f.body is not None and "/mlio-py/" in f.file and f.short == "make_device_array" and f.params]
    ck.need(len(gs) == 1, "the arrays made of Python buffers")
    g = gs[0]
    at, w = short(g.name), g.where()
    dense = [f for f in m.fns.values() if f.body is not None and f.file == g.file and f.ret == "bool" and len(f.params) == 1 and "buffer_info" in f.params[0]["t"]]
    ids = {dtf.id} | {f.id for f in dense}
    i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.id in ids)
    cpy = {}
    seen = {True: set(), False: set()}
    for r in rs:
        T = r.trace
        if r.outcome != "return":
            continue
        fs = facts(T)
        k, no = pins(fs, lambda t: names_in(t, lambda s: s == dtf.name))
        n = byk.get(k)
        a = array_made(r)
        ck.ob("a Python buffer becomes an array of the CPU", at, a is not None, "it makes %s" % show(r.value)[:60], w)
        if a is None:
            continue
        ck.ob("the array of a buffer has the type of its items", at, n is not None and val(a[1]) == k, "items of type %s become %s" % (n, byk.get(val(a[1]) if a[1] else None)), w)
        el = element(a[0]) or element(a[0], "Py_buffer_container")
        if n is None:
            continue
        ck.ob("the elements of a buffer of %s have their type" % n, at, stored_as(n, el), "they are %s" % el, w)
        d = [e for e in evs(T, "call") if any(e.name == f.name for f in dense)]
        ok = bool(d) and any(atom[0] == "has" and v and atom[1] == e.extra for e in d for atom, v in fs) or any(names_in(atom, lambda s: s == "strides") for atom, v in fs)
        ck.ob("only contiguous buffers are taken", at, ok, "the strides of the buffer are not looked at", w)
        own = "vector<" in a[0]
        cp = next((v for atom, v in fs if atom[0] == "has" and peel(atom[1]) == ("obj", "arg1")), None)
        seen.setdefault(cp, set()).add(n)
        ck.ob("a copy is made when it is asked for", at, own if cp else cp is False, "the buffer itself is used", w)
        rq = [e for e in evs(T, "call") if last(e.name) == "request"]
        info = rq[-1].extra if rq else None
        ck.ob("the array is one of the buffer given", at, len(rq) == 1 and rq[0].obj == ("obj", "arg0"), "another buffer is used", w)
        if own:
            ok, why = copied_all(T, info, n)
            ck.ob("a copy has every item of the buffer", at, ok, why, w)
        else:
            c = a[2]
            fl = {e.name: e.args[0] for e in T if e.kind == "initf" and e.name in ("data_", "size_", "info_")}
            ok = names_in(fl.get("data_"), lambda s: s == "ptr") and names_in(fl.get("size_"), lambda s: s == "size") if len(fl) == 3 else False
            ck.ob("a wrapped buffer is the memory of the buffer", at, ok, "it is %s" % (show(fl.get("data_"))[:50] if fl else show(c)[:50]), w)
            keeps = len(fl) == 3 and (mentions(fl["info_"], lambda t: t == info) or isinstance(fl["info_"], tuple))
            ck.ob("a wrapped buffer is kept", at, keeps, "the Python buffer is released", w)
            ck.ob("a buffer that is written to is asked for as such", at, bool(rq) and bool(rq[0].args) and rq[0].args[0] in (("c", True), ("c", 1)), "a read-only buffer may be used in place", w)
            ck.ob("strings are not used in place", at, n != "string", "a buffer of objects is used as one of strings", w)
    for n in sorted(E):
        ck.ob("buffers of every data type can be copied", at, n in seen[True], "those of type %s are refused" % n, w)
        if n != "string":
            ck.ob("buffers of every type of number can be used in place", at, n in seen[False], "those of type %s are refused" % n, w)
    for f in dense:
        contiguous(ck, m, f)


def copied_all(T, info, n):
    ptr = lambda t: names_in(t, lambda s: s == "ptr")
    size = lambda t: names_in(t, lambda s: s == "size")
    for e in T:
        if n != "string" and e.kind in ("call", "ctor", "make") and len(e.args) >= 2 and last(e.name) in ("assign", "(ctor)", "copy", "copy_n", "vector", "insert"):
            a, b = e.args[0], e.args[1]
            if ptr(a) and not size(a):
                if last(e.name) == "copy_n":
                    return size(b), "not all items are copied"
                if ptr(b) and size(b):
                    t = peel(b)
                    terms = terms_of(t)
                    ok = terms is not None and terms[0] == 0 and len(terms[1]) == 2 and all(c == 1 for _, c in terms[1])
                    return ok, "the items up to %s are copied" % show(b)[:80]
    if n == "string":
        more = False
        for j, k, how in loop_segments(T):
            seg = T[j:k]
            if how == "iter":
                p = [e for e in seg if e.kind == "call" and last(e.name) in ("push_back", "emplace_back")]
                p = p or [e for e in seg if e.kind in ("write", "lwrite") and isinstance(e.obj, tuple) and e.obj and e.obj[0] in ("e", "elt")]
                if len(p) != 1:
                    return False, "an item is not copied"
        return any(e.kind == "fact" and size(e.name) or e.kind == "loop" for e in T), "the items are not copied"
    return False, "no copy of the items is made"


def terms_of(t):
    if isinstance(t, tuple) and t and t[0] == "lin":
        return t[1], t[2]
    if isinstance(t, tuple) and t and t[0] == "op" and t[1] == "+" and len(t) == 4:
        return 0, ((t[2], 1), (t[3], 1))
    return None


def contiguous(ck, m, f):
    """accepted only with every dimension and stride taken into account"""
    i, rs = run_fn(ck, m, f)
    at, w = short(f.name), f.where()
    for r in rs:
        if r.outcome != "return":
            continue
        v = peel(r.value)
        if v in (("c", False), ("c", 0)):
            continue
        fs = facts(r.trace)
        none = any(a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1 and b and names_in(a, lambda s: s == "size") and not names_in(a, lambda s: s in ("shape", "strides")) for a, b in fs)
        if none:
            continue
        for j, k, how in loop_segments(r.trace):
            if how != "iter":
                continue
            sf = facts(r.trace[j:k])
            one = any(a[0] == "eq0" and a[1] in (1, -1) and b and names_in(a, lambda s: s == "shape") for a, b in sf)
            stepped = any(names_in(a, lambda s: s == "strides") for a, b in sf)
            used = any(e.kind in ("lwrite", "iter") and (names_in(e.args, lambda s: s == "strides") or e.extra and names_in(tuple(e.extra.values()) if isinstance(e.extra, dict) else e.extra, lambda s: s == "strides")) for e in r.trace[j:k + 1])
            ck.ob("every stride of a buffer is looked at", at, one or stepped or used, "a dimension is accepted whatever its stride", w)
        ok = v not in (("c", True), ("c", 1)) or any(names_in(a, lambda s: s == "size") or names_in(a, lambda s: s in ("strides",)) for a, b in fs)
        ck.ob("a buffer with gaps is refused", at, ok, "it is accepted whatever its strides", w)


# ------------------------------------------------------------ names
def names(ck, m, E, byk):
    for g in fns(m, "operator<<", lambda f: len(f.params) == 2 and f.params[1]["t"].split("::")[-1].strip() == "Data_type"):
        at, w = "operator<<(Data_type)", g.where()
        i, rs = run_fn(ck, m, g)
        seen = {}
        for r in rs:
            k, no = pins(facts(r.trace), lambda t: peel(t) == ("obj", "arg1"))
            if k not in byk:
                continue
            out = "".join(t[1] for e in evs(r.trace, "call") if last(e.name) == "operator<<" for t in e.args if isinstance(t, tuple) and t and t[0] == "s")
            ck.ob("data type %s is called by its name" % byk[k], at, out == byk[k], "it is printed as %r" % out, w)
            seen[byk[k]] = True
        for n in sorted(E):
            ck.ob("every data type has a name", at, n in seen, "%s is not told from others" % n, w)
        break
    seen = {}
    for f in m.fns.values():
        if f.body is None or "/mlio-py/" not in f.file:
            continue
        for nd in calls(f.body, "pybind11::enum_::value"):
            if "mlio::Data_type" not in nd.get("cls", ""):
                continue
            s = next((a["v"] for a in nd["args"] if a.get("k") == "str"), None)
            e = next((a["qn"] for a in nd["args"] if a.get("k") == "ref" and a.get("dk") == "enumc"), None)
            if s is not None and e is not None:
                n = e.split("::")[-1]
                ck.ob("Python's DataType.%s is the one of C++" % s, short(f.name), s == n.upper(), "it is %s" % n, "%s:%s" % (f.file.split("/repo/")[-1], nd.get("l")))
                seen[n] = True
    for n in sorted(E):
        ck.ob("Python has every data type", "DataType", n in seen, "%s is missing" % n, "src/mlio-py/mlio/core/tensor.cc")


# ------------------------------------------------------------ numpy
def numpy_(ck):
    p = os.path.join(REPO, "src/mlio-py/mlio/integ/numpy.py")
    if not os.path.exists(p):
        return
    tree = ast.parse(open(p).read())
    for fn in tree.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "DenseTensor":
                kw = {k.arg: k.value for k in c.keywords}
                pos = dict(zip(("shape", "data", "strides", "copy"), c.args))
                pos.update(kw)
                where = "src/mlio-py/mlio/integ/numpy.py:%d" % c.lineno
                st = pos.get("strides")
                txt = ast.unparse(expand(fn, st)) if st is not None else None
                if txt is None:
                    ck.ob("a NumPy array keeps its layout", fn.name, False, "its strides are not passed on", where)
                else:
                    ck.ob("a NumPy array keeps its layout", fn.name, ".strides" in txt and ("itemsize" in txt or "nbytes" in txt) and ("//" in txt or "divmod" in txt), "its strides are passed on as %s" % txt, where)
                sh = pos.get("shape")
                ck.ob("a NumPy array keeps its shape", fn.name, sh is not None and ".shape" in ast.unparse(expand(fn, sh)), "its shape is %s" % (ast.unparse(sh) if sh else "not passed on"), where)
                cp = pos.get("copy")
                inplace = isinstance(cp, ast.Constant) and cp.value is False
                ck.ob("converting a NumPy array copies it, wrapping does not", fn.name, inplace == fn.name.startswith("as_"), "copy is %s" % (ast.unparse(cp) if cp else "the default"), where)


def expand(fn, x):
    """the expression with local variables that are assigned once written out"""
    asg = {}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            asg.setdefault(s.targets[0].id, []).append(s.value)

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            v = asg.get(n.id)
            return self.visit(v[0]) if v and len(v) == 1 and isinstance(n.ctx, ast.Load) else n
    import copy
    return T().visit(copy.deepcopy(x))


def scipy_(ck):
    p = os.path.join(REPO, "src/mlio-py/mlio/integ/scipy.py")
    if not os.path.exists(p):
        return
    file = "src/mlio-py/mlio/integ/scipy.py:%d"
    for fn in ast.parse(open(p).read()).body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        if fn.name == "to_coo_matrix":
            for rank in (1, 2):
                made = [c for c, env in straight(fn.body, {}, rank) if isinstance(c.func, ast.Name) and c.func.id == "coo_matrix"]
                ck.ob("a sparse tensor of rank %d can be converted" % rank, fn.name, bool(made), "no matrix is made", file % fn.lineno)
                for c in made:
                    a = c.args[0] if c.args else None
                    if not (isinstance(a, ast.Tuple) and len(a.elts) == 2 and isinstance(a.elts[1], ast.Tuple) and len(a.elts[1].elts) == 2):
                        continue
                    r, cl = (indices(x) for x in a.elts[1].elts)
                    ok = cl == {0} and r <= {0} if rank == 1 else r == {0} and cl == {1}
                    ok = ok and not (rank == 1 and r and "zeros" not in ast.unparse(a.elts[1].elts[0]))
                    ck.ob("a sparse tensor of rank %d keeps its coordinates" % rank, fn.name, ok, "its rows are %s, its columns %s" % (ast.unparse(a.elts[1].elts[0])[:60], ast.unparse(a.elts[1].elts[1])[:60]), file % c.lineno)
        else:
            for c, env in straight(fn.body, {}, 2):
                if isinstance(c.func, ast.Name) and c.func.id == "CooTensor" and len(c.args) >= 3 and isinstance(c.args[2], (ast.List, ast.Tuple)) and len(c.args[2].elts) == 2:
                    r, cl = (ast.unparse(x) for x in c.args[2].elts)
                    ok = ".row" in r and ".col" not in r and ".col" in cl and ".row" not in cl and ".data" in ast.unparse(c.args[1]) and ".shape" in ast.unparse(c.args[0])
                    ck.ob("a sparse matrix keeps its coordinates", fn.name, ok, "its tensor has %s and %s" % (r[:50], cl[:50]), file % c.lineno)


def indices(x):
    return {c.args[0].value for c in ast.walk(x) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "indices" and c.args and isinstance(c.args[0], ast.Constant)}


def straight(body, env, rank):
    """the calls made on the way through the statements for a tensor of that rank, with variables written out"""
    out = []
    done = False
    for s in body:
        if done:
            break
        if isinstance(s, ast.If):
            t = truth(write_out(s.test, env), rank)
            branches = [s.body] if t is True else [s.orelse] if t is False else [s.orelse, s.body]
            for b in branches:
                got = straight(b, env, rank)
                out += got
                if t is True and b and isinstance(b[-1], (ast.Return, ast.Raise)):
                    done = True
                if t is None and b is branches[0]:
                    continue
            continue
        for c in ast.walk(s):
            if isinstance(c, ast.Call):
                out.append((write_out(c, env), env))
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            env[s.targets[0].id] = write_out(s.value, env)
        if isinstance(s, (ast.Return, ast.Raise)):
            done = True
    return out


def write_out(x, env):
    import copy

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            return env.get(n.id, n) if isinstance(n.ctx, ast.Load) else n
    return T().visit(copy.deepcopy(x))


def truth(t, rank):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = truth(t.operand, rank)
        return None if v is None else not v
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance":
        return True
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        def ev(x):
            if isinstance(x, ast.Constant) and isinstance(x.value, int):
                return x.value
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and "shape" in ast.unparse(x):
                return rank
            return None
        a, b = ev(t.left), ev(t.comparators[0])
        if a is not None and b is not None:
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}.get(type(t.ops[0]))
    return None
