"""Program model: classes, functions, class hierarchy, syntax-tree helpers."""
import os
import re

import facts
from facts import AnalysisError, REPO

SIMPLE = re.compile(r"^(const )?(.*?)( const)?( ?[&*]+)?$")


def strip_type(t):
    """Type without cv-qualifiers, references and pointers."""
    t = t.strip()
    changed = True
    while changed:
        changed = False
        for suf in ("&", "*", " const", " volatile"):
            if t.endswith(suf):
                t = t[:-len(suf)].rstrip()
                changed = True
        if t.startswith("const "):
            t = t[6:]
            changed = True
    return t


def base_name(t):
    """Class template name without arguments."""
    t = strip_type(t)
    i = t.find("<")
    return t if i < 0 else t[:i]


def targs(t):
    """Top-level template arguments of a type string."""
    t = strip_type(t)
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    s, out, d, cur = t[i + 1:-1], [], 0, ""
    for c in s:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        if c in "<({":
            d += 1
        elif c in ">)}":
            d -= 1
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def is_ref(t):
    return t.rstrip().endswith("&")


def is_ptr(t):
    t = t.rstrip()
    while t.endswith("const"):
        t = t[:-5].rstrip()
    return t.endswith("*")


UNSIGNED = {"unsigned long", "unsigned int", "unsigned char", "unsigned short", "unsigned long long", "bool"}
SIGNED = {"long", "int", "signed char", "short", "long long", "char"}
FLOATS = {"float", "double", "long double"}
WIDTH = {"unsigned long": 64, "long": 64, "unsigned int": 32, "int": 32, "unsigned short": 16, "short": 16,
         "unsigned char": 8, "signed char": 8, "char": 8, "long long": 64, "unsigned long long": 64, "bool": 1}

STD_EXC = {
    "std::exception": None,
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error",
    "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error",
    "std::bad_function_call": "std::exception", "std::bad_weak_ptr": "std::exception",
    "std::ios_base::failure": "std::system_error", "std::nested_exception": None,
}


class Fn:
    __slots__ = ("d", "id", "name", "cls", "file", "line", "tu", "body", "params", "ret")

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.id = d["id"]
        self.name = d["fn"]
        self.cls = d.get("cls")
        self.file = d["file"]
        self.line = d["l"]
        self.body = d.get("body")
        self.params = d.get("dparams", d["params"])
        self.ret = d["ret"]

    @property
    def short(self):
        return self.name.rsplit("::", 1)[-1]

    def where(self, line=None):
        return "%s:%d" % (os.path.relpath(self.file, REPO), line or self.line)

    @property
    def is_ctor(self):
        return self.short == "(ctor)"

    @property
    def is_dtor(self):
        return self.short == "(dtor)"

    @property
    def virtual(self):
        return bool(self.d.get("virt"))

    @property
    def noexcept(self):
        return bool(self.d.get("noexcept"))

    def flag(self, n):
        return bool(self.d.get(n))

    def __repr__(self):
        return "<Fn %s>" % self.name


class Model:
    def __init__(self, groups):
        raw = facts.extract(groups)
        self.tus = sorted(raw)
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.fns = {}
        self.by_name = {}
        self.tu_fns = {}
        for tu in self.tus:
            self.tu_fns[tu] = {}
            for d in raw[tu]["decls"]:
                k = d["D"]
                if k == "class":
                    c = self.classes.setdefault(d["cls"], d)
                    if not c.get("fields") and d.get("fields"):
                        self.classes[d["cls"]] = d
                elif k == "enum":
                    self.enums.setdefault(d["enum"], d)
                elif k == "gvar":
                    g = self.globals.get(d["qn"])
                    if g is None or ("init" not in g and "init" in d):
                        self.globals[d["qn"]] = d
                elif k == "fn":
                    f = Fn(d, tu)
                    key = f.id
                    if d.get("internal"):
                        key = f.id + "@" + tu
                    self.tu_fns[tu][f.id] = f
                    o = self.fns.get(key)
                    if o is None or (o.body is None and f.body is not None):
                        self.fns[key] = f
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)
        # subclass relation
        self.subs = {}
        for c, d in self.classes.items():
            for b in d["bases"]:
                self.subs.setdefault(b, set()).add(c)
        self._overriders = {}
        for f in self.fns.values():
            for o in f.d.get("overrides", ()):
                self._overriders.setdefault(o, []).append(f)
        self._methods = {}
        for f in self.fns.values():
            if f.cls:
                self._methods.setdefault(f.cls, []).append(f)

    # -- lookups -----------------------------------------------------------
    def fn(self, name, cls=None, nparams=None, body=True):
        """The functions with qualified name `name`."""
        r = [f for f in self.by_name.get(name, ()) if (not body or f.body is not None)]
        if cls:
            r = [f for f in r if f.cls == cls]
        if nparams is not None:
            r = [f for f in r if len(f.params) == nparams]
        return r

    def one(self, name, **kw):
        r = self.fn(name, **kw)
        if not r:
            raise AnalysisError("anchor not found: function " + name)
        return r[0]

    def methods(self, cls):
        return self._methods.get(cls, [])

    def method(self, cls, short, nparams=None, inherited=True):
        for f in self.methods(cls):
            if f.short == short and f.body is not None and (nparams is None or len(f.params) == nparams):
                return f
        if inherited and cls in self.classes:
            for b in self.classes[cls]["bases"]:
                r = self.method(b, short, nparams)
                if r:
                    return r
        return None

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisError("anchor not found: class " + name)
        return self.classes[name]

    def subclasses(self, cls, strict=True):
        out, work = set(), [cls]
        while work:
            c = work.pop()
            for s in self.subs.get(c, ()):
                if s not in out:
                    out.add(s)
                    work.append(s)
        if not strict:
            out.add(cls)
        return out

    def bases(self, cls):
        out, work = [], [cls]
        while work:
            c = work.pop(0)
            for b in self.classes.get(c, {"bases": []})["bases"]:
                if b not in out:
                    out.append(b)
                    work.append(b)
        return out

    def concrete(self, cls):
        return sorted(c for c in self.subclasses(cls, strict=False) if not self.classes[c].get("abstract"))

    def fields(self, cls, inherited=True):
        out = []
        if inherited:
            for b in reversed(self.bases(cls)):
                out += [(b, f) for f in self.classes.get(b, {"fields": []})["fields"]]
        return out + [(cls, f) for f in self.cls(cls)["fields"]]

    def derives(self, t, b):
        t, b = strip_type(t), strip_type(b)
        if t == b:
            return True
        if t in self.classes and b in self.bases(t):
            return True
        if t in self.classes:
            return any(self.derives(x, b) for x in self.classes[t]["bases"] if x not in self.classes)
        p = STD_EXC.get(t)
        while p:
            if p == b:
                return True
            p = STD_EXC.get(p)
        return False

    def overriders(self, fid):
        out, work = [], [fid]
        seen = set()
        while work:
            x = work.pop()
            for f in self._overriders.get(x, ()):
                if f.id not in seen:
                    seen.add(f.id)
                    out.append(f)
                    work.append(f.id)
        return out

    def resolve_call(self, call, tu):
        """Body of the statically resolved callee, if it is in the repository."""
        i = call.get("id")
        if not i:
            return None
        f = self.tu_fns.get(tu, {}).get(i)
        if f is not None and f.body is not None:
            return f
        f = self.fns.get(i)
        if f is not None and f.body is not None:
            return f
        return f

    def dispatch(self, fid, cls):
        """Final overrider of virtual function `fid` for dynamic class `cls`."""
        cand = {fid}
        base = self.fns.get(fid)
        ov = {f.id: f for f in self.overriders(fid)}
        c = cls
        order = [cls] + self.bases(cls)
        for c in order:
            for f in self.methods(c):
                if f.id in ov or f.id == fid:
                    return f
        return base


# -- tree helpers ----------------------------------------------------------
def kids(n):
    if isinstance(n, dict):
        for v in n.values():
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        yield x
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, dict):
                yield x


def walk(n, lambdas=True):
    """All nodes below (and including) n, pre-order."""
    if isinstance(n, list):
        for x in n:
            yield from walk(x, lambdas)
        return
    if not isinstance(n, dict):
        return
    yield n
    if not lambdas and n.get("k") == "lambda":
        return
    for c in kids(n):
        yield from walk(c, lambdas)


def fn_nodes(f, lambdas=True):
    for i in f.d.get("inits", ()):
        yield from walk(i.get("e"), lambdas)
    if f.body:
        yield from walk(f.body, lambdas)


def calls(n, name=None, lambdas=True):
    for x in walk(n, lambdas):
        if x.get("k") in ("call", "ctor") and x.get("fn"):
            if name is None or x["fn"] == name or (isinstance(name, (set, frozenset, tuple, list)) and x["fn"] in name):
                yield x


def unwrap(e):
    """Look through casts, moves, forwards, parens."""
    while isinstance(e, dict) and e.get("k") in ("cast", "icast", "move", "fwd", "defarg", "definit"):
        e = e.get("e")
    return e
