"""Exception-flow analysis: which exception types a function lets out, with a witness for each.

Interprocedural over the call graph (virtual calls to all overriders, lambdas passed to library calls run there), with
handler matching along the class hierarchies of the repository and of the standard library, and `throw;` resolved to what
the enclosing handler - or, outside any handler, the caller's handler - caught.  Memory exhaustion is left out."""
from model import walk, base_name, kids
from util import short

STD = {
    "std::logic_error": "std::exception", "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error", "std::future_error": "std::logic_error",
    "std::runtime_error": "std::exception", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error",
    "std::bad_alloc": "std::exception", "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception",
    "std::bad_cast": "std::exception", "std::bad_function_call": "std::exception", "cv::Exception": "std::exception",
    "fmt::format_error": "std::runtime_error", "std::bad_weak_ptr": "std::exception",
}
IGNORED = {"std::bad_alloc"}
# library functions that throw as part of their contract
LIB = {"std::vector::at": "std::out_of_range", "std::array::at": "std::out_of_range", "std::basic_string::at": "std::out_of_range",
       "std::map::at": "std::out_of_range", "std::unordered_map::at": "std::out_of_range", "std::deque::at": "std::out_of_range",
       "std::optional::value": "std::bad_optional_access", "std::get": None,
       "std::stoi": "std::invalid_argument", "std::stol": "std::invalid_argument", "std::stoll": "std::invalid_argument",
       "std::stoul": "std::invalid_argument", "std::stoull": "std::invalid_argument", "std::stof": "std::invalid_argument",
       "std::stod": "std::invalid_argument"}
CV = ("imdecode", "resize", "imencode", "cvtColor", "hconcat", "vconcat", "merge", "split", "copyTo", "convertTo", "normalize", "imread", "operator()", "crop")
DEFERRED = ("std::thread", "std::function", "tbb::", "std::call_once")


class Exc:
    def __init__(self, m, opaque=None, extra=None, virt=None):
        self.m = m
        self.memo = {}
        self.opaque = opaque or (lambda f: False)
        self.extra = extra or (lambda n: None)
        self.virt = virt               # restricts overriders: (call, candidates) -> candidates
        self.changed = False
        self.seen = set()

    # -- types
    def bases(self, t):
        out, x = [], t
        while x:
            out.append(x)
            nx = STD.get(x)
            if nx is None:
                for b in self.m.bases(x) if x in self.m.classes else ():
                    out += [k for k in self.bases(b) if k not in out]
                # the bases outside the repository
                for b in (self.m.classes.get(x) or {}).get("bases", ()) if isinstance(self.m.classes.get(x), dict) else ():
                    n = base_name(b["t"]) if isinstance(b, dict) else base_name(b)
                    if n not in out:
                        out += [k for k in self.bases(n) if k not in out]
                break
            x = nx
        return out

    def is_a(self, t, b):
        return b in self.bases(t)

    # -- summaries
    def escapes(self, f, amb=frozenset()):
        """Types let out by f: {type: witness}, for the caught exceptions `amb` a bare `throw;` would rethrow."""
        while True:
            self.changed = False
            self.active = set()
            r = self._esc(f, amb)
            if not self.changed:
                return r

    def _esc(self, f, amb):
        key = (f.id, f.tu if f.body is not None and self.m.fns.get(f.id) is not f else None, amb)
        if key in self.active:
            return self.memo.get(key, {})
        self.active.add(key)
        self.seen.add(f.name)
        out = {}
        for i in f.d.get("inits", ()):
            self.node(i.get("e"), f, amb, out)
        self.node(f.body, f, amb, out)
        if set(out) - set(self.memo.get(key, {})):
            self.changed = True
        old = self.memo.get(key, {})
        for k, v in out.items():
            old.setdefault(k, v)
        self.memo[key] = old
        return old

    def add(self, out, t, w):
        if t not in IGNORED:
            out.setdefault(t, w)

    def node(self, n, f, amb, out):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.node(x, f, amb, out)
            return
        k = n.get("k")
        if k == "lambda":
            return
        if k == "try":
            inner = {}
            self.node(n["body"], f, amb, inner)
            left = dict(inner)
            # an ambient unknown: std::exception stands for anything derived from it
            for h in n["handlers"]:
                caught = {}
                for t, w in list(left.items()):
                    if h.get("all") or self.is_a(t, base_name(h.get("t", ""))):
                        caught[t] = w
                        del left[t]
                sub = {}
                self.node(h["body"], f, frozenset(caught), sub)
                for t, w in sub.items():
                    self.add(out, t, w)
            for t, w in left.items():
                self.add(out, t, w)
            return
        if k == "throw":
            e = n.get("e")
            if e is None:
                for t in amb:
                    self.add(out, t, ((f.name, n["l"], "rethrows"),))
            else:
                self.node(e, f, amb, out)
                self.add(out, base_name(n.get("t") or e.get("t", "")), ((f.name, n["l"], "throws"),))
            return
        for c in kids(n):
            self.node(c, f, amb, out)
        if k in ("call", "ctor"):
            self.call(n, f, amb, out)
        elif k == "new":
            pass

    def call(self, n, f, amb, out):
        fn = n.get("fn") or ""
        s = short(fn)
        if fn == "std::throw_with_nested":
            a = n["args"][0]
            self.add(out, base_name(strip(a.get("t", ""))), ((f.name, n["l"], "throws"),))
            return
        if fn == "std::rethrow_exception":
            self.add(out, "std::exception", ((f.name, n["l"], "rethrows a stored exception"),))
            return
        x = self.extra(n)
        for t in ([x] if isinstance(x, str) else x or ()):
            self.add(out, t, ((f.name, n["l"], "calls " + fn),))
        if n.get("nx"):
            # cannot let anything out
            return
        if fn in LIB and LIB[fn]:
            self.add(out, LIB[fn], ((f.name, n["l"], "calls " + fn),))
        if fn.startswith("cv::") and s in CV:
            self.add(out, "cv::Exception", ((f.name, n["l"], "calls " + fn),))
        if not fn.startswith(DEFERRED):
            for a in n.get("args", ()) or ():
                b = a
                while isinstance(b, dict) and b.get("k") in ("cast", "icast", "move", "fwd", "ctor") and (b.get("e") or b.get("args")):
                    b = b.get("e") or (b["args"][0] if b["args"] else {})
                if isinstance(b, dict) and b.get("k") == "lambda":
                    bodies = [i.get("body") for i in b.get("insts", ()) if i.get("body")] or [b.get("body")]
                    for bd in bodies:
                        self.node(bd, f, amb, out)
        targets = self.targets(n, f)
        for g in targets:
            if g.body is None or self.opaque(g):
                continue
            for t, w in self._esc(g, amb).items():
                if len(w) < 12:
                    self.add(out, t, ((f.name, n["l"], "calls " + g.name),) + w)

    def targets(self, n, f):
        i = n.get("id")
        if not i:
            return []
        g = self.m.resolve_call(n, f.tu)
        if n.get("virt"):
            c = ([g] if g is not None else []) + list(self.m.overriders(i))
            c = [x for x in c if x.body is not None]
            return self.virt(n, c) if self.virt else c
        if g is None:
            # std::make_unique<T>(...) and make_intrusive<T>(...) run a constructor
            return []
        return [g]


def strip(t):
    return t.replace("const ", "").replace("&", "").strip()


def path(w):
    return " -> ".join("%s:%d %s" % x for x in w[-6:])
