"""Operating-system resources are released exactly once, on every path, and do not leak into child processes.

Every call that acquires a descriptor, mapping, heap block, traversal, converter, inflater state or Python buffer is traced on
all paths of its function - including those on which something that is called afterwards throws - until the resource is owned
by an object whose destructor releases it, or is released.  Destructors, moves and overwrites of the owners are checked the
same way; descriptors must be close-on-exec and the files of memory blocks unlinked at once."""
from util import *
from absint import show, NULL, Interp
from model import fn_nodes, strip_type, targs, base_name

ASSUMPTIONS = ["The constructor of an exception object and memory exhaustion are not considered as failing steps."]

# acquiring function -> (how the handle is found, releasing functions, value of an invalid handle, C functions that consume the old handle)
RET, ARG0, ARG1 = "ret", 0, 1
ACQ = {
    "open": (RET, ("close",)), "openat": (RET, ("close",)), "creat": (RET, ("close",)), "mkstemp": (RET, ("close",)), "mkostemp": (RET, ("close",)),
    "dup": (RET, ("close",)), "memfd_create": (RET, ("close",)),
    "iconv_open": (RET, ("iconv_close",)), "fts_open": (RET, ("fts_close",)), "opendir": (RET, ("closedir",)), "fopen": (RET, ("fclose",)),
    "mmap": (RET, ("munmap",)), "mremap": (RET, ("munmap",)),
    "malloc": (RET, ("free",)), "realloc": (RET, ("free",)), "calloc": (RET, ("free",)),
    "inflateInit2_": (ARG0, ("inflateEnd",)), "inflateInit_": (ARG0, ("inflateEnd",)),
    "PyObject_GetBuffer": (ARG1, ("PyBuffer_Release",)),
}
CONSUMES = {"realloc": 0, "mremap": 0}
RELEASES = {r for _, rs in ACQ.values() for r in rs}
LENGTH = {"mmap": 1, "mremap": 2}
CLOEXEC = 0o2000000
FLAGS = {"open": 1, "openat": 2, "mkostemp": 1, "memfd_create": None}
FD_CLOEXEC_OTHERS = {"creat", "mkstemp", "dup", "pipe", "fopen", "opendir"}


def run(ck):
    m = ck.model("core", "py")
    owners = find_owners(ck, m)
    ck.need(len(owners) >= 6, "classes whose destructor releases a resource (found %s)" % sorted(owners))
    for c in sorted(owners):
        check_owner(ck, m, c, owners)
    acquire(ck, m, owners)


# ---------------------------------------------------------------- owners

def opts():
    return dict(may_throw=throws)


def throws(call):
    """May this (opaque) step throw?  C functions and everything declared noexcept do not; exception objects do not count."""
    fn = call.get("fn") or ""
    if "::" not in fn or call.get("nx"):
        return False
    sh = short(fn)
    if sh == "(ctor)":
        c = fn[:-8]
        if c.endswith(("_error", "bad_alloc", "error_code", "error_condition", "exception")) or c in ("std::allocator", "std::basic_string_view"):
            return False
        return bool(call.get("args"))
    if fn.startswith(("std::move", "std::forward", "std::get", "std::min", "std::max", "std::generic_category", "std::make_error_code", "fmt::")):
        return False
    if sh in ("data", "size", "begin", "end", "front", "back", "empty", "c_str", "get", "is_open", "operator bool", "count", "(dtor)", "swap", "ptr",
              "operator==", "operator!=", "operator[]"):
        return False
    return True


def find_owners(ck, m):
    """{class: {member: (release function, length member or None)}} from the destructors."""
    out = {}
    for c in sorted(m.classes):
        d = next((f for f in m.methods(c) if f.is_dtor and f.body is not None), None)
        if d is None:
            continue
        rs = paths(ck, m, d, this_cls=c)
        for r in rs:
            for e in r.trace:
                if e.kind == "call" and e.name in RELEASES and e.args:
                    L = member_of(e.args[0], e.locs[0] if e.locs else None)
                    if L is not None and L[1] == ("obj", "this"):
                        ln = member_of(e.args[1], None) if e.name == "munmap" and len(e.args) > 1 else None
                        out.setdefault(c, {})[L[2]] = (e.name, ln[2] if ln else None)
    return out


def member_of(v, loc):
    """The member location whose value (or address) v is."""
    if v[0] == "init" and v[1][0] == "f":
        return v[1]
    if v[0] == "f":
        return v
    if v[0] == "addr" and v[1][0] == "f":
        return v[1]
    if loc is not None and loc[0] == "f":
        return loc
    return None


def invalid(i, r, v):
    """Is v known on path r to be no live handle?"""
    known = dict(facts(r.trace))
    for a, pol in [i.cond_has(v, True), i.cond_eq(v, ("c", -1)), i.cond_eq(v, ("c", 0))]:
        if isinstance(a, bool):
            if a == pol:
                return True
            continue
        d = known.get(a)
        d = i.decide(r.state, a) if d is None else d
        if d is not None and d == pol and not (v[0] == "init" and a[0] == "eq0" and a[1] == 0 and "fd" in show(v)):
            return True
    return v == NULL or v in (("c", -1), ("c", 0))


def check_owner(ck, m, c, owners):
    info = m.cls(c)
    sm = info.get("special") or info
    ck.ob("R4 an owner is not copied", c, bool(info.get("copy_ctor_deleted")) and bool(info.get("copy_assign_deleted")), "it can be copied, and both copies would release the resource", "")
    d = next(f for f in m.methods(c) if f.is_dtor and f.body is not None)
    for mem, (rel, ln) in owners[c].items():
        i = Interp(m, this_cls=c)
        for r in ck.interp_done(i, i.run(d)):
            n = sum(1 for e in r.trace if e.kind == "call" and e.name == rel and e.args and member_of(e.args[0], e.locs[0] if e.locs else None) == this_field(mem))
            if n == 0:
                dead = invalid(i, r, ("init", this_field(mem)))
                ck.ob("R3 the destructor releases what is held", c + " " + mem, dead or r.outcome != "return", "a path of the destructor does not release it (%s)" % fact_texts(r.trace), d.where())
            else:
                ck.ob("R3 the destructor releases what is held", c + " " + mem, n == 1, "it is released %d times" % n, d.where())
            if ln:
                bad = [e for e in r.trace if e.kind == "call" and e.name == "munmap" and e.args[1] != ("init", this_field(ln))]
                ck.ob("R7 the whole mapping is released", c + " " + mem, not bad, "the length is not that of the mapping", d.where())
        # moves
        for f in m.methods(c):
            if f.body is None and not f.flag("defaulted"):
                continue
            mv = f.params and len(f.params) == 1 and "&&" in f.params[0]["t"] and base_name(f.params[0]["t"]) == c
            if not mv or not (f.is_ctor or f.short == "operator="):
                continue
            if f.flag("deleted"):
                continue
            if f.flag("defaulted") or f.body is None:
                ft = next((x["t"] for _, x in m.fields(c) if x["n"] == mem), "")
                smart = base_name(ft) not in ("int", "void", "") and "*" not in ft and not ft.startswith(("int", "unsigned", "long"))
                ck.ob("R5 a moved-from owner holds nothing", f.name, smart, "the defaulted move leaves the handle in both objects", f.where())
                continue
            i = Interp(m, this_cls=c)
            for r in ck.interp_done(i, i.run(f)):
                src = [k for k, v in r.state.store.items() if k[0] == "f" and k[2] == mem and k[1] != ("obj", "this") and k[1][0] != "v"]
                mine = r.state.store.get(this_field(mem))
                got = mine is not None and mine[0] == "init" and mine[1][0] == "f" and mine[1][2] == mem and mine[1] != this_field(mem)
                cleared = any(r.state.store[k] in (NULL, ("c", -1), ("c", 0)) for k in src)
                ck.ob("R5 a moved-from owner holds nothing", f.name, got and cleared, "the source still holds the handle after the move", f.where())
                if not f.is_ctor:
                    old = ("init", this_field(mem))
                    rel_ = any(e.kind == "call" and e.name == rel and e.args and e.args[0] == old for e in r.trace)
                    ck.ob("R6 an overwritten handle is released first", f.name, rel_ or invalid(i, r, old), "the handle held so far is lost", f.where())


# ---------------------------------------------------------------- acquisitions

def direct(f, names):
    for n in fn_nodes(f):
        if n.get("k") == "call" and n.get("fn") in names or n.get("k") == "ref" and n.get("dk") == "func" and n.get("qn") in names:
            yield n


def acquire(ck, m, owners):
    todo = [(f, 0) for f in sorted(m.fns.values(), key=lambda f: (f.name, f.file, f.line)) if f.body is not None and any(True for _ in direct(f, set(ACQ) | FD_CLOEXEC_OTHERS))]
    ck.need(len(todo) >= 8, "functions that acquire resources (found %d)" % len(todo))
    seen, used = set(), set()
    while todo:
        f, depth = todo.pop(0)
        if f.id in seen:
            continue
        seen.add(f.id)
        up = judge(ck, m, f, owners, used, depth)
        if up:
            cs = [g for g in m.fns.values() if g.body is not None and any(n.get("k") in ("call", "ctor") and m.resolve_call(n, g.tu) is f for n in fn_nodes(g))]
            if cs:
                todo += [(g, depth + 1) for g in sorted(cs, key=lambda g: (g.name, g.file, g.line))]
            else:
                ck.ob("R1 a resource has an owner", "%s %s" % (f.name, sorted(up)[0]), False, "the handle leaves the function without an owner", f.where())
    ck.need(len(used) >= 6, "acquiring functions (found %s)" % sorted(used))


RAW = ("*", "int", "void", "long", "iconv_t", "unsigned")


def raw_type(t):
    t = (t or "").replace("const ", "").strip()
    return t.endswith("*") or t in ("int", "long", "iconv_t", "libiconv_t", "::iconv_t") or "iconv_t" in t


def judge(ck, m, f, owners, used, depth):
    i = Interp(m, this_cls=f.cls, peel=1, max_paths=40000, may_throw=throws)
    rs = ck.interp_done(i, i.run(f))
    up = set()
    for r in rs:
        tr = r.trace
        for k, e in enumerate(tr):
            if e.kind != "call":
                continue
            if e.name in FD_CLOEXEC_OTHERS:
                ck.ob("R8 descriptors are close-on-exec", "%s %s" % (f.name, e.name), False, "%s gives a descriptor that child processes inherit" % e.name, where(e))
            if e.name not in ACQ:
                continue
            used.add(e.name)
            name = "%s %s" % (f.name, e.name)
            w = where(e)
            if e.name in FLAGS:
                fl = e.args[FLAGS[e.name]] if FLAGS[e.name] is not None and FLAGS[e.name] < len(e.args) else None
                if fl is not None and fl[0] == "c":
                    ck.ob("R8 descriptors are close-on-exec", name, bool(fl[1] & CLOEXEC), "the descriptor is inherited by child processes", w)
                elif f.params and mentions(fl, lambda t: t == ("v",) or isinstance(t, tuple) and t and t[0] in ("arg", "p")) and depth < 3:
                    up.add(e.name)
                else:
                    ck.ob("R8 descriptors are close-on-exec", name, contains(fl, ("c", CLOEXEC)), "the flags %s do not show that the descriptor is close-on-exec" % show(fl), w)
            how, rel = ACQ[e.name]
            h = e.extra if how == RET else e.args[how]
            if failed(i, r, e):
                continue
            if e.name in ("mkostemp", "mkstemp"):
                un = [x for x in tr[k + 1:] if x.kind == "call" and x.name in ("unlink", "unlinkat")]
                ck.ob("R9 a temporary file is removed", name, bool(un), "the file stays behind (%s)" % ("when a later step fails" if r.outcome == "throw" else "on return"), w)
                if un:
                    a, b = roots(e.args[0]) | roots_l(e), roots(un[0].args[0]) | roots_l(un[0])
                    ck.ob("R9 a temporary file is removed", name, bool(a & b), "another path is removed", w)
            # released later, or consumed
            gone = 0
            for x in tr[k + 1:]:
                if x.kind == "call" and (x.name in rel or x.name in CONSUMES and not failed(i, r, x) and x is not e) and x.args and x.args[CONSUMES.get(x.name, 0)] == h:
                    gone += 1
                if x.kind == "dtor" and x.args and x.args[0] == h and isinstance(x.name, str) and x.name in ("std::unique_ptr", "std::shared_ptr"):
                    gone += deleter_releases(m, tr, h, rel)
                elif x.kind == "dtor" and x.args and contains(x.args[0], h) and owner_of(m, owners, x.name, rel):
                    gone += 1
            if gone:
                ck.ob("R2 a resource is released once", name, gone == 1, "it is released %d times" % gone, w)
                kept = keepers(r, h, how)
                kept = [L for L in kept if L[0] == "f" and root_this(L)]
                ck.ob("R2 a resource is released once", name, not kept, "it is released but stays in %s" % ", ".join(show(L) for L in kept), w)
                continue
            kept = [L for L in keepers(r, h, how) if root_this(L)]
            if kept:
                L = kept[0]
                cls = holder(m, f, L)
                own = cls in owners and L[2] in owners[cls] and owners[cls][L[2]][0] in rel
                ck.ob("R1 a resource has an owner", name, own, "it is kept in %s, whose class does not release it with %s" % (show(L), "/".join(rel)), w)
                if f.is_ctor and r.outcome == "throw" and len(path_of(L)) == 1 and cls == f.cls:
                    ck.ob("R1 a resource has an owner", name, False, "the constructor throws afterwards, so that the destructor does not release it", w)
                if e.name in LENGTH and own and r.outcome == "return":
                    ln = owners[cls][L[2]][1]
                    LL = L[:2] + (ln,)
                    ck.ob("R7 the whole mapping is released", name, r.state.store.get(LL, ("init", LL)) == e.args[LENGTH[e.name]], "the length kept is not the length mapped", w)
                continue
            if r.outcome == "return" and r.value is not None and contains(r.value, h):
                if raw_type(f.ret) and not f.virtual and depth < 3:
                    up.add(e.name)
                else:
                    held = not raw_type(f.ret)
                    if base_name(f.ret) in ("std::unique_ptr", "std::shared_ptr"):
                        held = deleter_releases(m, tr, h, rel) == 1
                    ck.ob("R1 a resource has an owner", name, held, "the handle is handed out without an owner that releases it", w)
                continue
            if how != RET and r.outcome == "throw":
                ck.ob("R1 a resource has an owner", name, False, "it is not released when a later step fails", w)
                continue
            ck.ob("R1 a resource has an owner", name, False, "it is neither released nor owned %s" % ("when a later step fails" if r.outcome == "throw" else "at the end"), w)
        overwritten(ck, m, i, f, r, owners)
    return up


def owner_of(m, owners, c, rel, d=0):
    """Is c a class that owns (itself or through a member) something that is released with rel?"""
    if c in owners and any(r in rel for r, _ in owners[c].values()):
        return True
    return d < 4 and c in m.classes and any(owner_of(m, owners, base_name(x["t"]), rel, d + 1) for _, x in m.fields(c))


def only_ctors_call(m, f):
    cs = [g for g in m.methods(f.cls) if g.body is not None and any(n.get("k") == "call" and m.resolve_call(n, g.tu) is f for n in fn_nodes(g))]
    return bool(cs) and all(g.is_ctor for g in cs)


def roots(t):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "v":
                out.add(x)
            for y in x:
                go(y)
    go(t)
    return out


def roots_l(e):
    return {y for L in e.locs for y in roots(L)} if e.locs else set()


def path_of(L):
    out = []
    while L[0] in ("f", "e"):
        out.append(L[2])
        L = L[1]
    return out


def root_this(L):
    while L[0] in ("f", "e"):
        L = L[1]
    return L == ("obj", "this")


def keepers(r, h, how):
    if how != RET:
        t = h[1] if h[0] == "addr" else h
        return [t] if isinstance(t, tuple) and t and t[0] == "f" else []
    return [L for L, v in r.state.store.items() if v == h and L[0] == "f"]


def holder(m, f, L):
    """The class that declares the member L."""
    c = f.cls
    for n in reversed(path_of(L)[1:]):
        t = next((x["t"] for _, x in m.fields(c) if x["n"] == n), None)
        if t is None:
            return None
        c = base_name(t)
    for k, x in m.fields(c):
        if x["n"] == L[2]:
            return k if isinstance(k, str) else c
    return c


def failed(i, r, e):
    """Did the acquisition fail on this path?"""
    from checks.c13 import CONV, failing
    if e.name in CONV:
        if e.name in ("inflateInit2_", "inflateInit_"):
            a, pol = i.cond_eq(e.extra, ("c", 0))
            d = dict(facts(r.trace)).get(a)
            return d is not None and d != pol
        if CONV[e.name][0] == "-1" and e.name == "PyObject_GetBuffer":
            a, pol = i.cond_eq(e.extra, ("c", 0))
            d = dict(facts(r.trace)).get(a)
            if d is not None:
                return d != pol
        return failing(i, r, e) is True
    return False


def deleter_releases(m, tr, h, rel):
    for e in tr:
        if e.kind == "ctor" and e.name in ("std::unique_ptr::(ctor)", "std::shared_ptr::(ctor)") and e.args and e.args[0] == h:
            t = targs(e.node.get("cls") or e.node.get("t") or "")
            if len(t) < 2:
                return 0
            d = base_name(t[1])
            for c in [d] + [k for k in m.classes if k.endswith("::" + short(d))]:
                for g in m.methods(c):
                    if g.short == "operator()" and g.body is not None and any(n.get("k") == "call" and n.get("fn") in rel for n in fn_nodes(g)):
                        i = Interp(m, this_cls=c)
                        ok = True
                        for r in i.run(g):
                            n = sum(1 for x in r.trace if x.kind == "call" and x.name in rel)
                            null = any(a[0] in ("has", "eq0") and (v is False if a[0] == "has" else v) for a, v in facts(r.trace))
                            ok &= n == 1 or null
                        return 1 if ok else 0
            return 0
    return 0


def overwritten(ck, m, i, f, r, owners):
    """A member that holds a handle is given a new value only when the old one is released or was none."""
    if f.is_ctor or f.cls not in owners or only_ctors_call(m, f):
        return
    for mem, (rel, ln) in owners[f.cls].items():
        L = this_field(mem)
        old = ("init", L)
        ws = [k for k, e in enumerate(r.trace) if e.kind == "write" and e.obj == L and e.args[0] != old]
        if not ws:
            # released without being forgotten
            n = sum(1 for e in r.trace if e.kind == "call" and e.name == rel and e.args and e.args[0] == old)
            if n and not f.is_dtor:
                ck.ob("R2 a resource is released once", f.name + " " + mem, False, "it is released but kept, and will be released again", f.where())
            continue
        if f.is_dtor:
            continue
        n = sum(1 for e in r.trace if e.kind == "call" and e.args and (e.name == rel and e.args[0] == old or e.name in CONSUMES and e.args[CONSUMES[e.name]] == old and not failed(i, r, e)))
        ok = n == 1 or n == 0 and (invalid(i, r, old) or ln and invalid(i, r, ("init", this_field(ln))))
        ck.ob("R6 an overwritten handle is released first", f.name + " " + mem, ok, "the handle held so far is %s (%s)" % ("lost" if n == 0 else "released %d times" % n, fact_texts(r.trace)), where(r.trace[ws[0]]))
        for e in r.trace:
            if e.kind == "call" and e.name in ("munmap", "mremap") and e.args[0] == old and ln:
                ck.ob("R7 the whole mapping is released", f.name + " " + mem, e.args[1] == ("init", this_field(ln)), "the length is not that of the mapping", where(e))
