"""Operating-system and library failures surface: a failed call is reported to the caller as an error, with the cause that
the failed call left behind, and a call that succeeded is never reported as failed.

For every call of a C function with a failure convention, all paths of the containing function (callees inlined, and the
callers instead where a helper only hands the raw result on) are enumerated.  A path on which the call may have failed must
end with an exception, repeat the call, or be one of the documented exceptions; an error code that is built from errno must
be read while errno still belongs to a call that failed on that path."""
from util import *
from absint import show, NULL
from model import fn_nodes

ASSUMPTIONS = ["The C library functions follow their documented failure conventions.",
               "Calls that only release something (close, munmap, unlink, ...), only give a hint (posix_fadvise) or only wait (nanosleep) need no error handling."]

# function -> (convention, errno values on which returning normally is right, sets errno)
EINVAL, E2BIG, EINTR, EAGAIN = 22, 7, 4, 11
CONV = {
    "open": ("-1", (), True), "openat": ("-1", (), True), "creat": ("-1", (), True), "mkstemp": ("-1", (), True), "mkostemp": ("-1", (), True),
    "memfd_create": ("-1", (), True), "dup": ("-1", (), True), "pipe": ("-1", (), True), "poll": ("-1", (), True),
    "read": ("-1", (), True), "pread": ("-1", (), True), "write": ("-1", (), True), "lseek": ("-1", (), True),
    "fstat": ("-1", (), True), "stat": ("-1", (), True), "lstat": ("-1", (), True), "ftruncate": ("-1", (), True), "select": ("-1", (), True),
    "posix_fallocate": ("nz", (), False), "fallocate": ("-1", (), True),
    "iconv_open": ("-1", (), True), "iconv": ("-1", (EINVAL, E2BIG), True),
    "mmap": ("-1", (), True), "mremap": ("-1", (), True),
    "fts_open": ("null", (), True), "fopen": ("null", (), True), "fdopen": ("null", (), True), "opendir": ("null", (), True),
    "realloc": ("null", (), False), "malloc": ("null", (), False), "calloc": ("null", (), False), "aligned_alloc": ("null", (), False),
    "pthread_sigmask": ("nz", (), False), "sigprocmask": ("-1", (), True), "pthread_create": ("nz", (), False),
    "inflate": ((-3, 2, -4), (), False), "inflateInit2_": ((-4, -6), (), False), "inflateInit_": ((-4, -6), (), False),
    "PyObject_GetBuffer": ("-1", (), False),
}
NEUTRAL = {"__errno_location", "free", "strlen", "memcpy", "memset", "memmove", "memcmp", "strcmp", "strncmp", "isspace", "sigfillset", "sigemptyset",
           "strnatcmp", "fnmatch"}


def failing(i, r, e):
    """Can the call e have failed on path r?  (True: certainly, None: possibly, False: no)"""
    conv = CONV[e.name][0]
    v = e.extra
    if v is None:
        return None
    if conv == "-1":
        conds = [i.cond_eq(v, ("c", -1))]
    elif conv == "null":
        a = i.cond_has(v)
        conds = [(a[0], not a[1])]
    elif conv == "nz":
        a = i.cond_eq(v, ("c", 0))
        conds = [(a[0], not a[1])]
    else:
        conds = [i.cond_eq(v, ("c", c)) for c in conv]
    out = []
    known = dict(facts(r.trace))
    for atom, pol in conds:
        if isinstance(atom, bool):
            out.append(atom == pol)
            continue
        d = known.get(atom)
        if d is None:
            d = i.decide(r.state, atom)
        if d is None and not i.feasible(r.state, atom, pol):
            d = not pol
        out.append(None if d is None else d == pol)
    if all(x is False for x in out):
        return False
    return True if len(out) == 1 and out[0] else None


def impossible(i, r, e):
    """Does the path assume a negative result other than -1?"""
    if CONV[e.name][0] != "-1" or e.extra is None or failing(i, r, e) is not False:
        return False
    lt = i.cond_lt(e.extra, ("c", 0))
    d = dict(facts(r.trace)).get(lt[0])
    d = i.decide(r.state, lt[0]) if d is None else d
    return d is not None and d == lt[1]


def nonzero(i, r, e):
    a, pol = i.cond_eq(e.extra, ("c", 0))
    d = dict(facts(r.trace)).get(a)
    return d is not None and d != pol


def errno_term(e):
    return ("*", e.extra)


def err_facts(tr, lo, hi):
    """errno values asserted between two trace positions: {value: truth} for terms read after position lo"""
    out = {}
    for e in tr[lo:hi]:
        if e.kind == "fact" and e.name[0] == "eq0" and len(e.name[2]) == 1 and mentions(e.name, is_errno):
            c = e.name[2][0][1]
            v = -e.name[1] if c == 1 else e.name[1]
            out[v] = out.get(v) or e.args[0]
    return out


def is_errno(t):
    return isinstance(t, tuple) and any(isinstance(x, str) and x.startswith("__errno_location") for x in t)


def clobbers(e):
    """May the event change errno?"""
    if e.kind != "call" or not isinstance(e.name, str):
        return False
    if "::" not in e.name:
        return e.name not in NEUTRAL
    return e.name.startswith("mlio::logger::") or e.name.startswith("fmt::") or e.name.startswith("std::this_thread::")


def direct(f, names):
    for n in fn_nodes(f):
        if n.get("k") == "call" and n.get("fn") in names or n.get("k") == "ref" and n.get("dk") == "func" and n.get("qn") in names:
            yield n


def run(ck):
    m = ck.model("core", "py")
    todo = []
    for f in sorted(m.fns.values(), key=lambda f: (f.name, f.file, f.line)):
        if f.body is None:
            continue
        names = {n.get("fn") or n.get("qn") for n in direct(f, CONV)}
        fts = any(True for _ in direct(f, ("fts_read",)))
        if names or fts:
            todo.append((f, names, 0))
    ck.need(len(todo) >= 12, "functions that call the operating system (found %d)" % len(todo))
    seen = set()
    used = set()
    while todo:
        f, names, depth = todo.pop(0)
        if f.id in seen:
            continue
        seen.add(f.id)
        up = judge(ck, m, f, names, depth, used)
        if up:
            cs = [g for g in m.fns.values() if g.body is not None and any(n.get("k") in ("call", "ctor") and m.resolve_call(n, g.tu) is f for n in fn_nodes(g))]
            if cs:
                todo += [(g, names, depth + 1) for g in sorted(cs, key=lambda g: (g.name, g.file, g.line))]
            else:
                ck.ob("S1 a failed call is reported", f.name + " " + sorted(up)[0], False, "it may fail without an error being reported, and no caller looks at the result", f.where())
    ck.need(len(used) >= 12, "C functions with a failure convention (found %s)" % sorted(used))


def judge(ck, m, f, names, depth, used):
    from absint import Interp
    i = Interp(m, this_cls=f.cls, peel=1, max_paths=20000)
    rs = ck.interp_done(i, i.run(f))
    found = set()
    up = set()
    for r in rs:
        tr = r.trace
        if any(e.kind == "call" and e.name in CONV and impossible(i, r, e) for e in tr):
            continue
        calls_ = [(k, e) for k, e in enumerate(tr) if e.kind == "call" and e.name in CONV]
        state = {}
        for k, e in calls_:
            state[k] = failing(i, r, e)
        for n, (k, e) in enumerate(calls_):
            found.add(e.name)
            used.add(e.name)
            w = where(e)
            name = "%s %s" % (f.name, e.name)
            if state[k] is False:
                ck.ob("S1 a failed call is reported", name, True, "", w)
                continue
            again = [k2 for k2, e2 in calls_[n + 1:] if e2.name == e.name and e2.line == e.line]
            ok = r.outcome == "throw" or bool(again)
            if not ok:
                nxt = again[0] if again else len(tr)
                ef = err_facts(tr, k, nxt)
                ok = any(ef.get(v) for v in CONV[e.name][1])
            if not ok and r.outcome == "return" and not f.virtual and depth < 3 and returns_result(m, f, r, e):
                up.add(e.name)
                continue
            ck.ob("S1 a failed call is reported", name, ok, "when the call fails the function can still return normally (%s)" % fact_texts(tr), w)
        fts_rules(ck, m, i, f, r, tr)
        # error codes built from errno
        for k, e in enumerate(tr):
            if e.kind != "call" or e.name != "__errno_location":
                continue
            j = k - 1
            prev = None
            while j >= 0:
                if clobbers(tr[j]):
                    prev = (j, tr[j])
                    break
                j -= 1
            t = ("*", e.extra)
            used_in = [x for x in tr[k:] if x.kind == "ctor" and x.name == "std::error_code::(ctor)" and any(same_errno(a, e.extra) for a in x.args)]
            name = f.name + " errno"
            w = where(e)
            if prev is None:
                # errno belongs to a call of the caller (a helper that validates a result)
                if used_in and not f.params and depth == 0 and not any(True for _ in calls_):
                    continue
                continue
            pj, pe = prev
            if pe.name == "fts_read":
                continue
            if pe.name == "nanosleep":
                ck.ob("S3 errno is read before anything else can change it", name, not used_in, "errno is used after %s may have changed it" % pe.name, w)
                continue
            if pe.name not in CONV or not CONV[pe.name][2]:
                if pe.name == "close" and closes_failed(pe, tr, pj):
                    continue
                if used_in or pe.name not in ("close", "unlink", "munmap"):
                    ck.ob("S3 errno is read before anything else can change it", name, False, "errno is read after %s may have changed it" % pe.name, w)
                continue
            ck.ob("S3 errno is read before anything else can change it", name, True, "", w)
            if used_in and r.outcome == "throw":
                ck.ob("S4 only a failed call is reported", name, state[pj] is not False, "the error code is that of a call that did not fail (%s)" % pe.name, w)
        # the cause is the failed call's
        if r.outcome == "throw" and calls_:
            th = [x for x in tr if x.kind == "ctor" and x.name == "std::system_error::(ctor)"]
            last_k, last = calls_[-1]
            if th and state[last_k] is True or th and state[last_k] is None and (CONV[last.name][0] == "nz" or nonzero(i, r, last)):
                src = th[-1].args[0] if th[-1].args else None
                name = "%s %s" % (f.name, last.name)
                if CONV[last.name][2]:
                    ck.ob("S5 the reported cause is the failed call's", name, mentions(src, is_errno), "the error code is %s, not errno" % show(src), where(th[-1]))
                elif CONV[last.name][0] == "nz":
                    ck.ob("S5 the reported cause is the failed call's", name, contains(src, last.extra), "the error code is %s, not what %s returned" % (show(src), last.name), where(th[-1]))
    for n in names - found:
        # a reference that no path calls (a function pointer handed on to something opaque)
        ck.ob("S1 a failed call is reported", "%s %s" % (f.name, n), False, "the call is not on any analysed path: its result cannot be seen to be checked", f.where())
    return up


def same_errno(a, x):
    return mentions(a, lambda t: t == x or t == ("*", x))


def closes_failed(pe, tr, pj):
    """close() of what a failed open left behind, or of the descriptor that the opened one replaces (which leaves errno alone)."""
    return pe.fn is not None and pe.fn.cls is not None and "File_descriptor" in pe.fn.cls


def returns_result(m, f, r, e):
    """Is what f returns the call's raw result or depends on nothing but it (a helper that leaves the decision to its caller)?"""
    if r.value is None:
        return False
    return contains(r.value, e.extra) or (f.ret in ("bool", "_Bool") and r.value in (("c", 0), ("c", False)))


def fts_rules(ck, m, i, f, r, tr):
    ks = [k for k, e in enumerate(tr) if e.kind == "call" and e.name == "fts_read"]
    for n, k in enumerate(ks):
        e = tr[k]
        end = ks[n + 1] if n + 1 < len(ks) else len(tr)
        a, pol = i.cond_has(e.extra)
        known = dict(facts(tr))
        null = known.get(a)
        null = None if null is None else null != pol
        name = f.name + " fts_read"
        if null is True:
            if r.outcome == "return":
                seen = err_facts(tr, k, end)
                ck.ob("S6 a traversal that ends early is reported", name, seen.get(0) is True, "the end of the traversal is taken for its success without errno being looked at", where(e))
            continue
        done = any(x.kind in ("iter",) for x in tr[k:end]) or r.outcome == "return" or n + 1 < len(ks)
        if not done or null is None and r.outcome == "throw":
            continue
        info = [t for t in terms_of(tr[k:end]) if isinstance(t, tuple) and len(t) == 3 and t[0] == "f" and t[2] == "fts_info" and contains(t, e.extra)]
        term = ("init", info[0]) if info else None
        for code, label in ((4, "FTS_DNR"), (7, "FTS_ERR"), (10, "FTS_NS")):
            ok = False
            for t in ([info[0], ("init", info[0])] if info else []):
                at, p = i.cond_eq(t, ("c", code))
                if isinstance(at, bool):
                    continue
                v = known.get(at)
                if v is None and not i.feasible(r.state, at, p):
                    v = not p
                if v is not None and v != p:
                    ok = True
            ck.ob("S7 an entry that cannot be read is reported", "%s %s" % (f.name, label), ok, "an entry of kind %s can be passed over" % label, where(e))


def terms_of(evs_):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "f" and t not in out:
                out.append(t)
            for x in t:
                go(x)
    for e in evs_:
        if e.kind == "fact":
            go(e.name)
    return out
