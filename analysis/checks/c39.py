"""Failing system calls are noticed, and reported with the error code they set.

All functions that make system calls (or calls of C libraries that fail like these) are followed on all paths: what the path's
decisions establish about the result tells whether the call failed, and where the error code is taken tells whose it is."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type, walk, fn_nodes
from checks.c12 import known
from checks.c20 import exc_type

ASSUMPTIONS = ["The C library's functions fail as their manual pages say; freeing memory and C++ library functions leave errno alone."]
# how a call says that it failed
MINUS1 = {"open", "open64", "openat", "creat", "fstat", "stat", "lstat", "ftruncate", "truncate", "lseek", "read", "pread", "write", "mkostemp", "mkstemp", "iconv_open", "iconv", "mmap",
          "mremap", "sysinfo", "dup", "dup2", "pipe", "select", "poll", "fcntl", "ioctl", "socket", "fsync", "rename", "mkdir", "sysctl", "msync", "mprotect", "mlock", "temp_failure_retry"}
ZERO_OK = {"fstat", "stat", "lstat", "ftruncate", "truncate", "sysinfo", "mkdir", "rename", "fsync", "msync", "mprotect", "mlock", "sysctl"}
NULLS = {"fts_open", "fopen", "opendir", "realloc", "malloc", "calloc", "fdopen", "fts_read", "readdir"}
AMBIGUOUS = {"fts_read", "readdir"}        # null also at the end: errno tells
MAKES = {"open", "open64", "openat", "creat", "mkostemp", "mkstemp", "dup", "socket", "accept"}
# error codes that tell of no failure: try again, the thing is there already, more room or data are needed
HARMLESS = {"read": (11, 4), "pread": (11, 4), "write": (11, 4), "mkdir": (17,), "iconv": (7, 22), "select": (4,), "poll": (4,), "temp_failure_retry": (4, 11)}
# zlib: results a program can get that are neither success nor end of stream nor lack of progress
FATAL = {"inflate": {-3: "corrupt data", 2: "a missing dictionary", -4: "lack of memory"}, "inflateInit2_": {-4: "lack of memory", -6: "a wrong version"}}
RULES = {"C": "S1 the result of a system call is looked at", "I": "S2 a failed system call is not taken for a success", "E": "S3 a failure is reported with its own error code",
         "F": "S4 a success is not reported as a failure", "Z": "S6 errors of the decompression are noticed"}


def cname(n):
    f = n.get("fn") or ""
    if "::" not in f:
        return f if not n.get("op") else None
    return "temp_failure_retry" if short(f) == "temp_failure_retry" else None


def run(ck):
    m = ck.model("core")
    table = MINUS1 | NULLS
    done = 0
    for g in sorted(m.fns.values(), key=lambda x: x.name):
        if g.body is None or not in_library(g) or short(g.name) == "temp_failure_retry":
            continue
        cs = {cname(n) for n in fn_nodes(g) if n.get("k") == "call"} & table
        if cs:
            done += 1
            calls(ck, m, g)
    ck.need(done >= 5, "the functions that make system calls")
    retry(ck, m)
    zlib(ck, m)


def in_library(g):
    return "/src/mlio/" in g.file or "/include/mlio/" in g.file


def event_name(e):
    if e.kind != "call" or not isinstance(e.name, str):
        return None
    if "::" not in e.name:
        return e.name
    return "temp_failure_retry" if short(e.name) == "temp_failure_retry" else None


def status(i, r, name, v):
    """True: it failed, False: it succeeded, None: nothing is known"""
    if name in NULLS:
        k = known(i, r, i.cond_has(v))
        return None if k is None else not k
    for c in (i.cond_eq(v, ("c", -1)), i.cond_lt(v, ("c", 0))):
        k = known(i, r, c)
        if k is not None:
            return k
    if name in ZERO_OK:
        k = known(i, r, i.cond_eq(v, ("c", 0)))
        if k is not None:
            return not k
    k = known(i, r, i.cond_lt(("c", 0), v))
    if k:
        return False
    k = known(i, r, i.cond_eq(v, ("c", 0)))
    if k and name not in ZERO_OK:
        return False
    return None


def touches_errno(e):
    """might the step change errno? (the C library's functions and whatever writes to a file, such as the logger)"""
    n = event_name(e)
    if n is not None:
        return n not in ("__errno_location", "free", "strlen", "memcpy", "memset", "memcmp", "strcmp", "operator new", "operator delete") and not n.startswith("operator") and not n.startswith("__builtin")
    return e.kind == "call" and e.name.startswith(("mlio::logger::", "std::this_thread", "mlio::File_descriptor::"))


def calls(ck, m, g):
    i = Interp(m, this_cls=g.cls, peel=0, opaque=lambda fn, call: fn.name.startswith("mlio::logger") or fn.short == "temp_failure_retry")
    rs = ck.interp_done(i, i.run(g))
    w = g.where()
    good = [r.value for r in rs if r.outcome == "return" and not any(status(i, r, event_name(e), e.extra) for e in r.trace if event_name(e) in MINUS1 | NULLS)]
    for r in rs:
        tr = r.trace
        sys_ = [(k, e, event_name(e)) for k, e in enumerate(tr) if event_name(e) in MINUS1 | NULLS]
        for n, (k, e, name) in enumerate(sys_):
            line = "%s line %s" % (w, e.line)
            con = "%s %s" % (g.name, name)
            st = status(i, r, name, e.extra)
            later = sys_[n + 1:]
            if st is None:
                passed = contains(r.value, e.extra) if isinstance(r.value, tuple) else False
                looked = any(contains(a, e.extra) for a, x in facts(tr))
                ck.ob(RULES["C"], con, passed or r.outcome == "throw", "a failure is not told from a success" if looked else "nothing checks whether it failed", line)
                continue
            if not st:
                if r.outcome == "throw" and not later and takes_errno(tr[k:]) and exc_type(r) == "std::system_error":
                    ck.ob(RULES["F"], con, False, "it succeeded but an error is thrown with the error code of an earlier call", line)
                else:
                    ck.ob(RULES["F"], con, True, "", line)
                continue
            asked = [x for x, v in facts(tr[k:]) if names_in(x, lambda s: s == "__errno_location")]
            again = [x for _, _, x in later if x == name]
            if r.outcome == "return":
                codes = {x[1] if x[2][0][1] == -1 else -x[1] for x, v in facts(tr[k:]) if v and x[0] == "eq0" and len(x[2]) == 1 and names_in(x, lambda s: s == "__errno_location")}
                fine = any(c in HARMLESS.get(name, ()) for c in codes)
                ok = fine or bool(again) or told(r, good)
                if name in AMBIGUOUS:
                    ok = bool(asked)
                ck.ob(RULES["I"], con, ok, "it failed but the function goes on as if it had not", line)
            elif r.outcome == "throw":
                ck.ob(RULES["I"], con, True, "", line)
            if r.outcome == "throw" and exc_type(r) == "std::system_error" and not later:
                er = [j for j in range(k, len(tr)) if event_name(tr[j]) == "__errno_location"]
                code = [x for x in tr[k:] if x.kind in ("throw", "ctor") and "system_error" in str(x.name)]
                own = any(names_in(a, lambda s: s == "__errno_location") for x in code for a in x.args)
                ck.ob(RULES["E"], con, bool(er) and (own or not code), "it is reported without its error code", line)
            # whoever asks for errno must do so before anything else changes it
            for j in range(k + 1, len(tr)):
                if event_name(tr[j]) == "__errno_location":
                    bad = [x for x in tr[k + 1:j] if touches_errno(x) and not (name in MAKES and replaced(x))]
                    ck.ob(RULES["E"], con, not bad, "errno is asked for only after %s, which may change it" % (short(bad[0].name) if bad else ""), line)
                    break
                if event_name(tr[j]) in MINUS1 | NULLS:
                    break


def takes_errno(tr):
    return any(event_name(e) == "__errno_location" for e in tr)


def replaced(e):
    """closing what the object held before it took what a call makes: there is nothing to close when the call is made"""
    return event_name(e) == "close" and len(e.args) == 1 and isinstance(e.args[0], tuple) and not mentions(e.args[0], lambda t: t[0] == "r" and t[1] in MAKES)


def told(r, good):
    """the caller can tell the result from that of a success"""
    v = r.value
    return isinstance(v, tuple) and v[0] in ("c", "null", "zero", "none") and v not in good or v == NULL and NULL not in good


# -- the retry helper, zlib, threads
def retry(ck, m):
    for g in m.fns.values():
        if short(g.name) != "temp_failure_retry" or g.body is None:
            continue
        i = Interp(m, peel=0)
        rs = ck.interp_done(i, i.run(g))
        for r in rs:
            if r.outcome != "return":
                continue
            v = r.value
            m1 = known(i, r, i.cond_eq(v, ("c", -1))) if isinstance(v, tuple) else None
            err = [(a, x) for a, x in facts(r.trace) if names_in(a, lambda s: s == "__errno_location")]
            intr = [x for a, x in err if a[0] == "eq0" and a[1] in (-4, 4)]
            ck.ob("S5 an interrupted call is repeated", g.name, m1 is False or bool(intr) and intr[-1] is False, "the result of an interrupted call is returned", g.where())


def zlib(ck, m):
    """the results of zlib other than success and end of stream are errors"""
    for g in sorted(m.fns.values(), key=lambda x: x.name):
        if g.body is None or not in_library(g):
            continue
        if not any(n.get("k") == "call" and n.get("fn") in FATAL for n in fn_nodes(g)):
            continue
        i = Interp(m, this_cls=g.cls, peel=0)
        for r in ck.interp_done(i, i.run(g)):
            zs = [e for e in r.trace if e.kind == "call" and e.name in FATAL]
            for e in zs:
                con = "%s %s" % (g.name, e.name)
                line = "%s line %s" % (g.where(), e.line)
                if r.outcome == "return":
                    for c, t in FATAL[e.name].items():
                        ck.ob(RULES["Z"], con + " " + t, known(i, r, i.cond_eq(e.extra, ("c", c))) is False, "%s may be taken for a success" % t, line)
                elif r.outcome == "throw" and e is zs[-1]:
                    ck.ob(RULES["Z"], con, not any(known(i, r, i.cond_eq(e.extra, ("c", c))) for c in (0, 1)), "an error is thrown although nothing failed", line)
