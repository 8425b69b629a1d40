"""Which memory a function may write, in terms of what it was given: its parameters, its object, variables it captured, globals.

A flow-insensitive summary per function, computed over the call graph: every assignment, increment, call of a member function that is not
const and argument taken by non-const reference is a write of the place its expression is rooted in; calls of functions of the repository
contribute their own summaries with the roots replaced by what the call passes (all overriders for virtual calls)."""
from model import walk, unwrap, fn_nodes, base_name, kids
from util import short

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
# hand out a place in the object without changing it
ACCESS = {"begin", "end", "data", "operator[]", "at", "front", "back", "get", "find", "value", "operator*", "operator->", "rbegin", "rend", "cbegin", "cend", "c_str",
          "lower_bound", "upper_bound", "native_handle", "load", "operator()", "operator bool"}
SYNC = ("std::atomic", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable", "std::once_flag", "std::__atomic", "tbb::spin_mutex",
        "std::timed_mutex")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
# take the place as the one to be changed (or read) atomically
ATOMIC = {"atomic_load", "atomic_store", "atomic_exchange", "atomic_load_explicit", "atomic_store_explicit", "atomic_exchange_explicit",
          "atomic_compare_exchange_strong", "atomic_compare_exchange_weak", "call_once"}
PASS = {"get", "move", "forward", "begin", "end", "addressof", "as_const", "ref", "tie"}


MAPS = {"std::map", "std::unordered_map"}


def is_sync(t):
    t = str(t).replace("const ", "").replace("volatile ", "").strip()
    return t.startswith(SYNC)


def reflike(t):
    t = str(t).strip()
    return t.endswith("&") or t.endswith("*") or t.endswith("*const")


class Write:
    __slots__ = ("root", "path", "node", "fn", "locked", "via")

    def __init__(self, root, path, node, fn, locked, via=()):
        self.root, self.path, self.node, self.fn, self.locked, self.via = root, path, node, fn, locked, via

    def key(self):
        return (self.root, self.path, self.fn.id, self.node.get("l"), self.locked)

    def where(self):
        return self.fn.where(self.node.get("l"))


class Unit:
    """A function body or the body of a lambda."""

    def __init__(self, f, body, params, inits=()):
        self.f, self.body, self.inits = f, body, inits
        self.params = {p["d"]: (i, p) for i, p in enumerate(params or ()) if "d" in p}
        self.vars = {}
        for n in list(walk(body)) + [x for e in inits for x in walk(e.get("e"))]:
            if n.get("k") == "var" and "d" in n:
                self.vars[n["d"]] = n
            elif n.get("k") == "lambda":
                for p in n.get("params") or ():
                    if "d" in p:
                        self.vars.setdefault(p["d"], dict(p, lparam=True))
                for ins in n.get("insts") or ():
                    for p in ins.get("dparams") or ():
                        if "d" in p:
                            self.vars.setdefault(p["d"], dict(p, lparam=True))
        for n in walk(body):
            if n.get("k") == "frange" and isinstance(n.get("var"), dict) and "d" in n["var"]:
                self.vars[n["var"]["d"]] = dict(n["var"], range=n.get("range"))
        self.depth = 0


class Effects:
    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.fieldtype = {}

    # -- places
    def root(self, e, u, k=0):
        """(root, path) of the place an expression denotes; None for a temporary."""
        if k > 40:
            return None
        e = unwrap(e)
        if not isinstance(e, dict):
            return None
        t = e.get("k")
        if t == "this":
            return ("this",), ()
        if t == "ref":
            if e.get("tls"):
                return ("local", e.get("d")), ()
            if e.get("dk") in ("global", "slocal"):
                return ("g", e.get("qn") or e.get("n"), e.get("d") if e.get("dk") == "slocal" else None, u.f.tu if e.get("dk") == "slocal" else None), ()
            d = e.get("d")
            if d in u.params:
                i, p = u.params[d]
                return (("p", i), ()) if reflike(p["t"]) else (("local", d), ())
            v = u.vars.get(d)
            if v is None:
                return (("cap", d, e.get("n")), ()) if d is not None else None
            if v.get("static"):
                return ("g", v.get("n"), d, u.f.tu), ()
            if v.get("lparam"):
                return ("lparam", d), ()
            if v.get("range") is not None:
                if not reflike(v.get("t", "")):
                    return ("local", d), ()
                r = self.root(v["range"], u, k + 1)
                return (r[0], r[1] + ("[]",)) if r else None
            if reflike(v.get("t", "")) and v.get("init") is not None:
                return self.root(v["init"], u, k + 1)
            return ("local", d), ()
        if t == "mem":
            r = self.root(e.get("b"), u, k + 1)
            return (r[0], r[1] + (e["f"],)) if r else None
        if t == "index":
            r = self.root(e.get("a"), u, k + 1)
            return (r[0], r[1] + ("[]",)) if r else None
        if t == "un" and e.get("op") in ("*", "&", "++", "--"):
            r = self.root(e.get("a"), u, k + 1)
            a = unwrap(e.get("a"))
            if r and e["op"] == "*" and isinstance(a, dict) and a.get("k") == "mem":
                return r[0], r[1] + ("*",)
            return r
        if t == "addr":
            return self.root(e.get("e"), u, k + 1)
        if t == "cond":
            return self.root(e.get("a"), u, k + 1) or self.root(e.get("b"), u, k + 1)
        if t == "bin" and e.get("op") in ASSIGN:
            return self.root(e.get("a"), u, k + 1)
        if t == "bin" and e.get("op") in ("+", "-") and str(e.get("t", "")).rstrip().endswith("*"):
            return self.root(e.get("a"), u, k + 1)
        if t == "call":
            if not (reflike(e.get("t", "")) or e.get("lv")) and short(str(e.get("fn", ""))) not in ACCESS and e.get("op") not in ("[]", "*", "->"):
                # a value: a handle by value (span, iterator) still refers to its source only when it is an access
                return None
            if e.get("obj") is not None:
                r = self.root(e["obj"], u, k + 1)
                if r is None:
                    return None
                g = self.m.resolve_call(e, u.f.tu) if e.get("id") else None
                f = returned_field(g)
                return r[0], r[1] + ((f,) if f else ("[]",) if e.get("op") in ("[]", "*", "->") or short(str(e.get("fn"))) in ACCESS else ("()",))
            if e.get("args"):
                r = self.root(e["args"][0], u, k + 1)
                return (r[0], r[1] + ("[]",)) if r else None
            return None
        return None

    # -- writes
    def writes(self, u):
        """The writes of a unit, with those of what it calls."""
        out = {}

        def add(r, node, fn, locked, via=()):
            if r is None or r[0][0] == "local":
                return
            w = Write(r[0], r[1], node, fn, locked, via)
            out.setdefault(w.key(), w)

        for n, locked in guarded(u.body):
            self.node(n, u, add, locked)
        for e in u.inits:
            for n in walk(e.get("e")):
                self.node(n, u, add, NONE)
        return list(out.values())

    def target(self, e, u):
        """The place that changes when the expression is assigned: a pointer that is a variable of the function changes itself, not what it
        points to."""
        x = unwrap(e)
        if isinstance(x, dict) and x.get("k") == "ref":
            d = x.get("d")
            v = u.vars.get(d) or (u.params[d][1] if d in u.params else None)
            if v is not None and not v.get("static") and not str(v.get("t", "")).strip().endswith("&") and v.get("range") is None:
                return ("local", d), ()
        return self.root(e, u)

    def node(self, n, u, add, locked):
        k = n.get("k")
        if k == "bin" and n.get("op") in ASSIGN:
            if not is_sync(n["a"].get("t", "")):
                add(self.target(n["a"], u), n, u.f, locked)
        elif k == "un" and n.get("op") in ("++", "--"):
            if not is_sync(n["a"].get("t", "")):
                add(self.target(n["a"], u), n, u.f, locked)
        elif k in ("call", "ctor"):
            self.call(n, u, add, locked)

    def call(self, n, u, add, locked):
        name = str(n.get("fn", ""))
        args = n.get("args") or []
        g = self.m.resolve_call(n, u.f.tu) if n.get("id") else None
        targets = []
        if g is not None and n.get("virt"):
            targets = [x for x in [g] + list(self.m.overriders(g.id)) if x.body is not None]
        elif g is not None and g.body is not None:
            targets = [g]
        if targets and "/src/" in targets[0].file + "/src/" and self.own(targets[0]):
            for t in targets:
                for w in self.summary(t):
                    r = self.subst(w, n, args, u)
                    if r is not None:
                        add(r, w.node, w.fn, w.locked | locked, w.via + (u.f,))
            return
        s = short(name)
        if k_sync(n):
            return
        if s in ATOMIC or s in PASS:
            return
        if n.get("k") == "call" and n.get("op") == "[]" and n.get("obj") is not None and not n.get("const") and base_name(str(n.get("cls", "") or n.get("own", ""))) in MAPS:
            add(self.root(n["obj"], u), n, u.f, locked)     # may insert
        if n.get("k") == "call" and n.get("obj") is not None and not n.get("const") and not n.get("static") and s not in ACCESS and n.get("op") not in ("[]", "*", "->", "()"):
            o = n["obj"]
            if not is_sync(o.get("t", "")):
                add(self.root(o, u), n, u.f, locked)
        for i in n.get("mut") or ():
            if i < len(args) and not is_sync(args[i].get("t", "")) and base_name(str(n.get("cls", ""))) not in LOCKS:
                a = unwrap(args[i])
                if n.get("k") == "ctor":
                    continue        # bound, not changed
                add(self.target(a, u), n, u.f, locked)

    def own(self, f):
        return not f.file.startswith("/usr/") and "/contrib/insights/hll/xx" not in f.file

    def summary(self, f):
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = []
        u = Unit(f, f.body, f.params, [x for x in f.d.get("inits", ()) if isinstance(x, dict)])
        ws = [w for w in self.writes(u) if w.root[0] in ("this", "p", "g")]
        if f.is_ctor or f.is_dtor:
            # a constructor writes its own fresh object, but also what its pointers lead to
            ws = [w for w in ws if w.root != ("this",) or self.through(f, w.path)]
        self.memo[f.id] = ws
        return ws

    def through(self, f, path):
        return bool(path) and self.is_pointer(f.cls, path[0], len(path) > 1)

    def is_pointer(self, cls, field, beyond=True):
        """Does writing there - the field, or beyond it - write what the field refers to?"""
        key = (cls, field, beyond)
        if key not in self.fieldtype:
            r = False
            for c, fd in self.m.fields(cls) or ():
                if fd.get("n") == field:
                    r = reflike(fd.get("t", "")) and (beyond or str(fd.get("t", "")).strip().endswith("&"))
            self.fieldtype[key] = r
        return self.fieldtype[key]

    def subst(self, w, n, args, u):
        if w.root[0] == "g":
            return w.root, w.path
        if w.root[0] == "p":
            i = w.root[1]
            if i >= len(args):
                return None
            r = self.root(args[i], u)
            return (r[0], r[1] + w.path) if r else None
        # the object
        o = n.get("obj")
        if n.get("k") == "ctor":
            f = w.path[0] if w.path else None
            a = self.bound(n, f, u, len(w.path) > 1)
            return (a[0], a[1] + w.path[1:]) if a else None
        if o is None:
            return None
        r = self.root(o, u)
        if r is None:
            return None
        if r[0][0] == "local" and w.path:
            v = u.vars.get(r[0][1])
            init = unwrap(v.get("init")) if v else None
            if isinstance(init, dict) and init.get("k") == "ctor":
                a = self.bound(init, w.path[0] if not r[1] else r[1][0], u, len(w.path) + len(r[1]) > 1)
                if a:
                    return a[0], a[1] + (w.path[1:] if not r[1] else r[1][1:] + w.path)
        return r[0], r[1] + w.path

    def bound(self, ctor, field, u, beyond):
        """The place a pointer or reference field of an object made there refers to."""
        if field is None:
            return None
        g = self.m.resolve_call(ctor, u.f.tu) if ctor.get("id") else None
        if g is None:
            return None
        ps = {p["d"]: i for i, p in enumerate(g.params) if "d" in p}
        for x in g.d.get("inits", ()):
            if isinstance(x, dict) and (x.get("f") or x.get("n") or x.get("field")) == field and self.is_pointer(g.cls, field, beyond):
                gu = Unit(g, g.body or {"k": "block", "s": []}, g.params)
                r = self.root(x.get("e"), gu)
                if r and r[0][0] == "p" and r[0][1] < len(ctor.get("args") or ()):
                    b = self.root(ctor["args"][r[0][1]], u)
                    return (b[0], b[1] + r[1]) if b else None
        return None


def k_sync(n):
    return is_sync(n.get("cls", "")) or is_sync(n.get("own", ""))


def returned_field(g):
    """The field a function of the repository returns a reference to."""
    if g is None or g.body is None:
        return None
    rs = [x for x in walk(g.body) if x.get("k") == "return"]
    if len(rs) != 1:
        return None
    e = unwrap(rs[0].get("e"))
    while isinstance(e, dict) and e.get("k") in ("un", "addr"):
        e = unwrap(e.get("a") or e.get("e"))
    if isinstance(e, dict) and e.get("k") == "mem" and isinstance(e.get("b"), dict) and unwrap(e["b"]).get("k") == "this":
        return e["f"]
    return None


NONE = frozenset()


def mutexes(v):
    """The names of the mutexes a lock variable takes."""
    out = set()
    for n in walk(v.get("init")):
        if n.get("k") == "ref" and "mutex" in str(n.get("t", "")):
            out.add(n.get("qn") or n.get("n"))
        elif n.get("k") == "mem" and "mutex" in str(n.get("t", "")):
            out.add(n["f"])
    return frozenset(out or {"?"})


def guarded(n, locked=NONE):
    """[(node, the mutexes held there)] - a lock is held from its declaration to the end of its block."""
    if isinstance(n, list):
        for x in n:
            yield from guarded(x, locked)
        return
    if not isinstance(n, dict):
        return
    yield n, locked
    if n.get("k") == "block":
        held = locked
        for s in n.get("s") or ():
            yield from guarded(s, held)
            if isinstance(s, dict) and s.get("k") == "decl":
                for v in s.get("vars") or ():
                    if base_name(str(v.get("t", ""))) in LOCKS:
                        held = held | mutexes(v)
        return
    for c in kids(n):
        yield from guarded(c, locked)
