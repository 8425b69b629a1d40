"""Errors of reading data come out as data reader errors that say which store and what is wrong.

Which types of exceptions get out of the functions that read instances and their data is decided by exception-flow analysis; what
the errors say, by all paths of the functions that make them."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type, walk, fn_nodes
from checks.c20 import exc_type
from checks.c08 import batch_decoders, is_log
import excflow
import re

ASSUMPTIONS = ["Streams, stores and readers implemented by the user throw what the library's own throw.", "Memory exhaustion is left out."]
DRE = "mlio::Data_reader_error"
INST = "mlio::Instance"
ARG = "std::invalid_argument"


def run(ck):
    m = ck.model("core")
    e = excflow.Exc(m)
    # the record readers are made by the data readers, through a function object
    made = set()
    for f in m.fns.values():
        if f.short == "make_record_reader" and f.body is not None:
            made |= set(e.escapes(f))
    e = excflow.Exc(m, extra=lambda n: sorted(made) if n.get("op") == "()" and "std::function" in (n.get("fn") or "") and "Record_reader" in repr(n.get("cls")) else None)
    fam = lambda t: e.is_a(t, DRE)
    cores = [f for f in m.fns.values() if f.short == "read_instance_core" and f.body is not None and reads_records(m, f)]
    ck.need(cores, "the function that reads the records of the stores")
    bits = m.method(INST, "bits")
    ck.need(bits, "Instance::bits")
    for f in cores + [bits]:
        for t, wit in e.escapes(f).items():
            ck.ob("T1 reading data fails with data reader errors only", f.name + " " + t, fam(t) or t == ARG, "%s gets out: %s" % (t, via(wit)), f.where())
        ck.ob("T1 reading data fails with data reader errors only", f.name, True, "", f.where())
    o = excflow.Exc(m, opaque=lambda g: g.cls == INST)
    for c in sorted(m.concrete("mlio::Parallel_data_reader")) or ():
        f = m.method(c, "infer_schema")
        if f is None or f.body is None:
            continue
        for t, wit in o.escapes(f).items():
            ok = t in (ARG, "mlio::Not_supported_error") or o.is_a(t, "mlio::Schema_error")
            ck.ob("T2 inferring the schema fails with schema errors only", f.name + " " + t, ok, "%s gets out: %s" % (t, via(wit)), f.where())
        ck.ob("T2 inferring the schema fails with schema errors only", f.name, True, "", f.where())
        d = m.method(c, "decode")
        for t, wit in (o.escapes(d).items() if d is not None and d.body is not None else ()):
            ck.ob("T3 decoding fails with data reader errors only", d.name + " " + t, t == ARG or fam(t), "%s gets out: %s" % (t, via(wit)), d.where())
    for f in sorted({g.id: g for g in m.fns.values() if g.body is not None and g.cls and (g.cls == INST or g.cls in {x.cls for x in cores}) and not g.flag("defaulted")}.values(), key=lambda g: g.name):
        errors(ck, m, f, e)
    family(ck, m, e)


def via(wit):
    return " > ".join("%s:%s" % (short(x[0]), x[1]) for x in wit)


def reads_records(m, f):
    return any(x.cls == f.cls and any(n.get("k") == "call" and short(n.get("fn") or "") == "read_record" for n in fn_nodes(x)) for x in m.fns.values() if x.body is not None)


def steps(m, g):
    """what may fail inside a function of the readers: everything that reads from a store, a stream or a record reader"""
    def may(call):
        fn = call.get("fn") or ""
        return short(fn) in ("open_read", "read", "read_record", "size", "seek") and fn.startswith("mlio::") and not fn.startswith("mlio::Memory") or call.get("op") == "()"
    return may


def errors(ck, m, g, ex):
    """what the data reader errors of the function say"""
    if not any(n.get("k") == "throw" or n.get("k") == "call" and "throw_with_nested" in (n.get("fn") or "") or n.get("k") == "try" for n in fn_nodes(g)):
        return
    others = {x.id for x in m.fns.values() if x.cls == g.cls and x.id != g.id and x.short != "handle_errors"}
    i = Interp(m, this_cls=g.cls, peel=0, opaque=lambda fn, call: fn.id in others or not (fn.cls == g.cls), may_throw=steps(m, g))
    rs = ck.interp_done(i, i.run(g))
    w = g.where()
    seen = {}
    kinds = {}
    for r in rs:
        if r.outcome != "throw":
            continue
        t = exc_type(r)
        if t is None or not ex.is_a(t, DRE):
            continue
        mk = [e for e in r.trace if e.kind == "ctor" and isinstance(e.name, str) and e.name.startswith(t)] or [e for e in r.trace if e.kind == "throw"]
        fm = [e for e in r.trace if e.kind == "call" and short(e.name) == "format"]
        if not fm:
            ck.ob("M1 the error names the store", g.name, False, "the message of the %s is fixed" % short(t), w)
            continue
        msg = fm[-1]
        text = next((a[1] for a in msg.args if a[0] == "s"), "")
        named = any(names_in(a, lambda s: s.endswith("Data_store::id")) for a in msg.args)
        ck.ob("M1 the error names the store", g.name, named, "the message does not say which store: %s" % text[:60], "%s line %s" % (w, msg.line))
        which_store(ck, m, g, r, msg, i)
        nested = any(e.kind in ("call", "throw", "ctor") and "nested" in str(e.name) for e in r.trace) or any(e.kind == "throw" and "nested" in repr(e.extra) for e in r.trace)
        code = errno_known(r, m)
        c = [e.name for e in r.trace if e.kind == "catch"]
        if c and not code:
            kinds.setdefault(text, set()).add(c[-1])
        for what in code:
            seen.setdefault(what, set()).add(text)
        if not code:
            ck.ob("M3 the cause of an error is kept", g.name, nested or not any(e.kind == "catch" for e in r.trace), "the exception it was caused by is lost: %s" % text[:60], "%s line %s" % (w, msg.line))
    for text, cs in kinds.items():
        ck.ob("M6 different errors are told apart", g.name, len(cs) == 1, "%s are reported alike: %s" % (" and ".join(sorted(short(x) for x in cs)), text[:60]), w)
        if re.search("corrupt", text, re.I) and "large" not in text and "mlio::Record_too_large_error" in m.classes:
            alike = [x for x in cs if ex.is_a("mlio::Record_too_large_error", x.rstrip("+")) and not x.startswith("std::")]
            ck.ob("M6 different errors are told apart", g.name, not alike, "a record that is too large is reported as corrupt: %s" % text[:60], w)
    for n in fn_nodes(g):
        if n.get("k") != "try":
            continue
        before = []
        for h in n.get("handlers") or n.get("catches") or ():
            t = base_name(strip_type(h.get("t") or h.get("et") or "")) or None
            if t and t != "...":
                ck.ob("M7 every handler can be reached", "%s %s" % (g.name, short(t)), not any(ex.is_a(t, b) for b in before), "an earlier handler takes its exceptions", "%s line %s" % (w, h.get("l")))
                before.append(t)
    handled = any(n.get("k") == "call" and short(n.get("fn") or "") in ("open_read",) or n.get("k") == "call" and n.get("op") == "()" and "std::function" in (n.get("cls") or "") for n in fn_nodes(g))
    if not handled:
        return
    for what, rx in (("no_such_file_or_directory", r"exist|found|missing|no such"), ("permission_denied", r"permi|denied|access|allow")):
        texts = seen.get(what)
        ck.ob("M2 a store that is missing or not readable is reported as such", "%s %s" % (g.name, what), bool(texts), "no error is made for it", w)
        for x in texts or ():
            ck.ob("M2 a store that is missing or not readable is reported as such", "%s %s" % (g.name, what), bool(re.search(rx, x, re.I)), "the message says something else: %s" % x[:60], w)


def store_fields(m, c):
    return [f["n"] for _, f in m.fields(c, inherited=False) if "Data_store" in f.get("t", "") and "vector" not in f["t"] and "iterator" not in f["t"] and "function" not in f["t"]]


def nullable(m, c, name, memo={}):
    """does some method of the class leave the member null?"""
    k = (id(m), c, name)
    if k not in memo:
        L = ("f", ("obj", "this"), name)
        memo[k] = False
        for g in m.methods(c):
            if g.body is None or g.is_ctor or g.is_dtor or g.flag("defaulted") or not any(n.get("k") == "mem" and n.get("f") == name for n in fn_nodes(g)):
                continue
            if any(r.state.store.get(L) == NULL for r in Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: True).run(g)):
                memo[k] = True
    return memo[k]


def which_store(ck, m, g, r, msg, i):
    """the store that the message names is the one that was being read"""
    ids = [e for e in r.trace if e.kind == "call" and e.name == "mlio::Data_store::id" and any(contains(a, e.extra) for a in msg.args)]
    for e in ids:
        o = e.extra[2]
        own = []
        for n in store_fields(m, g.cls):
            L = ("f", ("obj", "this"), n)
            own.append((n, r.state.store.get(L, ("init", L))))
        if not own:
            continue
        D = dict(facts(r.trace))
        nulls = [n for n, v in own if v == NULL or D.get(("has", v)) is False]
        hit = [(n, v) for n, v in own if contains(o, v)]
        if hit:
            n, v = hit[0]
            L = ("f", ("obj", "this"), n)
            ok = n not in nulls and (v != ("init", L) or D.get(("has", v)) is True or not nullable(m, g.cls, n))
            ck.ob("M4 the store that is named exists", g.name, ok, "there is no current store once the data has ended", "%s line %s" % (g.where(), e.line))
        else:
            ck.ob("M5 the store that is named is the current one", g.name, bool(nulls), "another store than the current one is named (%s)" % show(o)[:60], "%s line %s" % (g.where(), e.line))


def errno_known(r, m):
    """the kinds of operating system errors the path's decisions establish"""
    out = set()
    for a, v in facts(r.trace):
        if not v:
            continue
        for n in ("no_such_file_or_directory", "permission_denied"):
            if mentions_enum(a, n, m):
                out.add(n)
    return out


def mentions_enum(a, n, m):
    return n in repr(a) or {"no_such_file_or_directory": "('c', 2)", "permission_denied": "('c', 13)"}[n] in repr(a)


def family(ck, m, ex):
    """the classes of errors a caller can rely on"""
    for t in ("mlio::Invalid_instance_error", "mlio::Schema_error"):
        if t in m.classes:
            ck.ob("T4 the errors of the readers are data reader errors", t, ex.is_a(t, DRE), "it is not a data reader error", "include/mlio")
    ck.ob("T4 the errors of the readers are data reader errors", DRE, ex.is_a(DRE, "std::exception"), "it is not a standard exception", "include/mlio")

