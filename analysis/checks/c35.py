"""What several threads may use at the same time is not changed without synchronisation.

Which memory every function of the library may write is computed bottom-up over the call graph (effects.py): assignments, calls of member
functions that are not const, and arguments taken by non-const reference, with the place expressed through the object, the parameters, the
captured variables and the globals. Places several threads share - globals, what the concurrent decoders and loop bodies reach, the objects
a const member function promises to leave alone - may only be written atomically, thread-locally or with a lock that every access takes."""
from effects import Effects, Unit, guarded, is_sync, ATOMIC, NONE
from model import walk, unwrap, base_name, calls
from util import short

ASSUMPTIONS = ["containers, smart pointers and std::function of the standard library may be read by several threads at once, as the standard says",
               "initialize(), initialize_aws_sdk(), deallocate_aws_sdk() and set_memory_allocator() are called while nothing else uses the library",
               "a stream, a reader, an iterator, an instance and a batch of instances are used by one thread at a time",
               "different elements of a container that are selected by an index are not the same element (the properties of the parsers decide which"
               " element a row writes)"]
SETUP = {"mlio::initialize", "mlio::initialize_aws_sdk", "mlio::deallocate_aws_sdk", "mlio::set_memory_allocator"}
SINGLE = {"mlio::Input_stream", "mlio::Data_reader", "mlio::Instance", "mlio::Instance_batch", "mlio::Record_reader", "mlio::Text_encoding"}
HIDDEN = {"strtok", "localtime", "gmtime", "asctime", "ctime", "strerror", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "setlocale",
          "tmpnam", "ttyname", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "getlogin", "ecvt", "fcvt", "gcvt", "hsearch", "hcreate", "wcstombs", "mbstowcs",
          "wctomb", "mblen", "mbtowc", "mbrlen", "setenv", "putenv", "unsetenv", "chdir", "fchdir", "umask", "signal", "inet_ntoa", "gethostbyname", "ptsname",
          "getdate", "l64a", "crypt", "dlerror", "catgets", "nl_langinfo"}


def run(ck):
    m = ck.model("core")
    own = [f for f in m.fns.values() if f.body is not None and library(f)]
    ck.need(len(own) > 100, "the functions of the library")
    E = Effects(m)
    globals_(ck, m, E, own)
    bodies(ck, m, E, own)
    decoders(ck, m, E, own)
    handed_out(ck, m, E, own)
    const_methods(ck, m, E, own)
    hidden(ck, m, own)


def library(f):
    return "/src/mlio/" in f.file or "/include/mlio/" in f.file and "/usr/" not in f.file


def unit(f):
    return Unit(f, f.body, f.params, [x for x in f.d.get("inits", ()) if isinstance(x, dict)])


def text(root, path):
    n = {"this": "this object", "p": "argument", "g": "", "cap": ""}.get(root[0], root[0])
    if root[0] == "g":
        n = str(root[1])
    elif root[0] == "cap":
        n = str(root[2] or "a captured variable")
    elif root[0] == "p":
        n = "argument %d" % root[1]
    return ".".join([n] + [p for p in path if p not in ("[]", "()", "*")])


# -- globals

def global_of(n, u):
    """The key of a global or static local variable an expression names directly."""
    if n.get("k") != "ref" or n.get("tls"):
        return None
    if n.get("dk") == "global":
        return (n.get("qn") or n.get("n"),)
    if n.get("dk") == "slocal":
        return (n.get("qn") or n.get("n"), n.get("d"), u.f.tu)
    v = u.vars.get(n.get("d"))
    if v is not None and v.get("static"):
        return (v.get("n"), n.get("d"), u.f.tu)
    return None


def exempt_type(m, n, u):
    t = str(n.get("t", ""))
    if is_sync(t) or t.startswith("const "):
        return True
    q = n.get("qn") or n.get("n")
    g = m.globals.get(q)
    if g is not None and (g.get("tls") or g.get("constexpr") or str(g.get("t", "")).startswith("const ")):
        return True
    v = u.vars.get(n.get("d"))
    return bool(v is not None and (v.get("tls") or str(v.get("t", "")).startswith("const ")))


def globals_(ck, m, E, own):
    acc = {}          # key -> [(function, node, held, kind)]
    units = {f.id: unit(f) for f in own}
    entry = Entry(m, own)
    for f in own:
        u = units[f.id]
        ck.saw(f)
        atomic = set()
        for n, held in list(guarded(f.body)) + [(x, NONE) for i in u.inits for x in walk(i.get("e"))]:
            if n.get("k") == "call" and short(str(n.get("fn", ""))) in ATOMIC:
                for a in n.get("args") or ():
                    for x in walk(a):
                        atomic.add(id(x))
                s = short(str(n["fn"]))
                for a in (n.get("args") or ())[:1]:
                    for x in walk(a):
                        k = global_of(x, u)
                        if k and not exempt_type(m, x, u):
                            acc.setdefault(k, []).append((f, x, held, "atomic" if "load" in s else "atomic-write"))
            elif n.get("k") == "ref" and id(n) not in atomic:
                k = global_of(n, u)
                if k and not exempt_type(m, n, u) and own_global(m, n):
                    acc.setdefault(k, []).append((f, n, held, "use"))
        inherited = set()
        for c in list(calls(f.body)):
            g = m.resolve_call(c, f.tu) if c.get("id") else None
            for t in ([g] + list(m.overriders(g.id)) if g is not None and c.get("virt") else [g]):
                if t is not None and t.body is not None and t is not f:
                    inherited |= {(w.root, w.path, w.fn.id, w.node.get("l")) for w in E.summary(t) if w.root[0] == "g"}
        for w in E.writes(u):
            if w.root[0] == "g" and (w.root, w.path, w.fn.id, w.node.get("l")) not in inherited:
                k = (w.root[1],) if w.root[2] is None else (w.root[1], w.root[2], w.root[3])
                acc.setdefault(k, []).append((f, w.node, w.locked, "write"))
    for k, uses in sorted(acc.items(), key=lambda x: str(x[0])):
        live = [x for x in uses if x[0].name not in SETUP]
        if not any(x[3] in ("write", "atomic-write") for x in live):
            continue
        g = m.globals.get(k[0])
        if g is not None and (g.get("tls") or is_sync(g.get("t", ""))):
            continue
        if len(k) == 1 and not any(x[3] in ("use", "atomic", "atomic-write") for x in uses):
            continue
        atomics = [x for x in live if x[3].startswith("atomic")]
        plain = [x for x in live if not x[3].startswith("atomic")]
        if atomics:
            bad = plain
            common = NONE
        else:
            helds = [(x, x[2] | entry.held(x[0])) for x in plain]
            common = frozenset.intersection(*[h for _, h in helds])
            bad = [] if common else [x for x, h in helds if not h] or [helds[0][0]]
        f, node = (bad[0][0], bad[0][1]) if bad else (live[0][0], live[0][1])
        ck.ob("C35.global", k[0], not bad,
              "%s is shared by all threads, is changed, and %s uses it %s" % (k[0], f.name, "without the atomic functions the other uses need" if atomics else
                                                                          "without a lock that every other use holds"), f.where(node.get("l")))


def own_global(m, n):
    g = m.globals.get(n.get("qn") or n.get("n"))
    if n.get("dk") == "global":
        return str(n.get("qn", "")).startswith("mlio::") or g is not None and "/src/mlio/" in str(g.get("file", ""))
    return True


class Entry:
    """The mutexes every caller of a function holds."""

    def __init__(self, m, own):
        self.sites = {}
        self.memo = {}
        for f in own:
            for n, held in guarded(f.body):
                if n.get("k") in ("call", "ctor") and n.get("id"):
                    g = m.resolve_call(n, f.tu)
                    if g is not None:
                        self.sites.setdefault(g.id, []).append((f, held))

    def held(self, f, depth=0):
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = NONE
        s = self.sites.get(f.id)
        if s and depth < 6:
            self.memo[f.id] = frozenset.intersection(*[h | self.held(g, depth + 1) for g, h in s])
        return self.memo[f.id]


# -- code that several threads run at once

def lambdas(n):
    for x in walk(n):
        if x.get("k") == "lambda":
            yield x


def lambda_units(f, x):
    ins = x.get("insts")
    if ins:
        return [Unit(f, i.get("body"), i.get("dparams")) for i in ins]
    return [Unit(f, x.get("body"), x.get("params"))]


def bodies(ck, m, E, own):
    n = 0
    for f in own:
        vars_ = {v["d"]: v for v in walk(f.body) if v.get("k") == "var" and "d" in v}
        for c in calls(f.body):
            q = str(c.get("fn", ""))
            if not (q.startswith("tbb::") and "parallel_" in q or q.startswith("std::async")):
                continue
            for a in c.get("args") or ():
                x = unwrap(a)
                if isinstance(x, dict) and x.get("k") == "ref" and x.get("d") in vars_:
                    x = vars_[x["d"]].get("init")
                for l in lambdas(x):
                    n += 1
                    bad = []
                    for u in lambda_units(f, l):
                        for w in E.writes(u):
                            if shared_write(m, w) and "[]" not in w.path:
                                bad.append(w)
                    ck.saw(f)
                    w = bad[0] if bad else None
                    ck.ob("C35.parallel-body", f.name, not bad,
                          "the loop body %s runs on several threads changes %s, which they share" % (f.name, text(w.root, w.path)) if w else "",
                          w.where() if w else f.where(l.get("l")))
    ck.need(n, "the loops that run on several threads")


def shared_write(m, w):
    if w.locked or w.root[0] not in ("this", "g", "cap"):
        return False
    if w.root[0] == "g":
        g = m.globals.get(w.root[1])
        if g is not None and (g.get("tls") or is_sync(g.get("t", ""))):
            return False
        return not w.fn.file.startswith("/usr/")
    return True


def decoders(ck, m, E, own):
    n = 0
    for f in own:
        if f.short != "decode" or "mlio::Parallel_data_reader" not in m.bases(f.cls):
            continue
        n += 1
        bad = [w for w in E.summary(f) if w.root[0] in ("this", "g") and shared_write(m, w)]
        w = bad[0] if bad else None
        ck.saw(f)
        ck.ob("C35.decode", f.name, not bad, "batches are decoded by several threads at once and %s changes %s" % (f.name, text(w.root, w.path)) if w else "",
              w.where() if w else f.where(0))
    ck.need(n, "the decoders of the parallel readers")


def handed_out(ck, m, E, own):
    """Function objects a function returns are called by whoever holds a copy of them, in particular by all decoders."""
    n = 0
    for f in own:
        if base_name(str(f.d.get("ret") or f.d.get("rt") or "").replace("const ", "")) not in ("std::function",):
            continue
        for l in lambdas(f.body):
            n += 1
            bad = []
            for u in lambda_units(f, l):
                bad += [w for w in E.writes(u) if shared_write(m, w) and w.root[0] == "cap"]
            w = bad[0] if bad else None
            ck.saw(f)
            ck.ob("C35.function-object", f.name, not bad,
                  "the function object %s returns changes %s, which the threads that call it share" % (f.name, text(w.root, w.path)) if w else "",
                  w.where() if w else f.where(l.get("l")))


# -- const member functions of objects that may be shared

def const_methods(ck, m, E, own):
    n = 0
    for f in own:
        if not f.id.startswith("_ZNK") and not f.d.get("const"):
            continue
        if f.cls is None or set(m.bases(f.cls)) & SINGLE or base_name(f.cls) in SINGLE or f.cls in SINGLE:
            continue
        n += 1
        ck.saw(f)
        bad = [w for w in E.summary(f) if w.root == ("this",) and w.path and not w.locked and mine(m, f, w)]
        w = bad[0] if bad else None
        ck.ob("C35.const", f.name, not bad, "%s is const, so several threads may call it at once, and changes %s" % (f.name, text(w.root, w.path)) if w else "",
              w.where() if w else f.where(0))
    ck.need(n > 50, "the const member functions of the library")


def mine(m, f, w):
    """A field of the object itself, not of something it points to."""
    for c, fd in m.fields(f.cls) or ():
        if fd.get("n") == w.path[0]:
            t = str(fd.get("t", ""))
            if is_sync(t):
                return False
            if len(w.path) > 1 and (t.rstrip().endswith(("*", "&")) or base_name(t).endswith("_ptr")):
                return False
            return True
    return False


def hidden(ck, m, own):
    n = 0
    for f in own:
        for c in calls(f.body):
            q = str(c.get("fn", ""))
            s = q[5:] if q.startswith("std::") else q
            if s in HIDDEN and c.get("obj") is None:
                n += 1
                ck.ob("C35.hidden-state", "%s in %s" % (s, f.name), False, "%s keeps its result or its state in memory that all threads share" % s, f.where(c.get("l")))
    ck.ob("C35.hidden-state", "the library", True, "", "")
