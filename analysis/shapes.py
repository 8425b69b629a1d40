"""Abstract interpretation of a pointer class over all shapes of the objects it can point to.

A shape is a small heap: named objects with a reference count, and named pointers that live outside or inside one of the objects.
The syntax tree of a method is evaluated over every shape (aliases of this and of the argument included); ending an object ends
the pointers that live in it. Nothing of the program is run."""
from model import unwrap


class Unsupported(Exception):
    pass


class Fault(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Heap:
    def __init__(self):
        self.rc = {}          # object -> count
        self.dead = set()     # objects and pointers that have ended
        self.val = {}         # pointer -> object or None
        self.home = {}        # pointer -> object it lives in

    def obj(self, x, rc):
        self.rc[x] = rc

    def load(self, p):
        if p in self.dead:
            raise Fault("a pointer is read after the object that it lives in has ended")
        return self.val.get(p)

    def store(self, p, v):
        if p in self.dead:
            raise Fault("a pointer is written after the object that it lives in has ended")
        self.val[p] = v

    def inc(self, x):
        if x in self.dead:
            raise Fault("a reference to an object is taken after it has ended")
        self.rc[x] += 1

    def dec(self, x):
        if x in self.dead:
            raise Fault("a reference to an object is given back after it has ended")
        self.rc[x] -= 1
        if self.rc[x] == 0:
            self.dead.add(x)
            for p in sorted(q for q, h in self.home.items() if h == x):
                v = self.val.get(p)
                self.val[p] = None
                self.dead.add(p)
                if v is not None and v not in self.dead:
                    self.dec(v)


class Eval:
    """Evaluates methods of the pointer class `cls` (base name) over a heap."""

    def __init__(self, m, cls, heap, inc, dec, field="ptr_"):
        self.m, self.cls, self.h, self.inc, self.dec, self.field = m, cls, heap, inc, dec, field
        self.n = 0
        self.depth = 0

    def new(self, base="tmp"):
        self.n += 1
        p = "%s%d" % (base, self.n)
        self.h.val[p] = None
        return p

    # -------------------------------------------------- calls
    def call(self, f, this, args):
        """args: values; ('p', name) for a pointer object, otherwise an object, None, bool or int."""
        self.depth += 1
        if self.depth > 30:
            raise Unsupported("recursion")
        env = {"this": this, "locals": [], "tu": f.tu}
        for p, a in zip(f.d.get("dparams") or f.params, args):
            env[p["d"]] = a
        try:
            for i in f.d.get("inits") or ():
                if i.get("f") == self.field:
                    v = self.ev(i["e"], env)
                    if this in self.h.dead:
                        raise Fault("a pointer is made in an object that has ended")
                    self.h.val[this] = v
                elif i.get("f") is None and i.get("e") is not None:      # delegated
                    e = unwrap(i["e"])
                    if e.get("k") == "ctor":
                        self.construct(e, this, env)
            self.stmt(f.body, env)
            r = None
        except Return as x:
            r = x.v
        self.end_locals(env, r)
        self.depth -= 1
        return r

    def end_locals(self, env, keep=None, since=0):
        while len(env["locals"]) > since:
            p = env["locals"].pop()
            if keep != ("p", p):
                self.destroy(p)

    def destroy(self, p):
        f = next((x for x in self.m.fns.values() if x.short == "(dtor)" and x.cls and x.cls.split("<")[0] == self.cls and x.body is not None), None)
        if f is None:
            raise Unsupported("no destructor")
        self.call(f, p, [])
        self.h.dead.add(p)

    # -------------------------------------------------- statements
    def stmt(self, n, env):
        if n is None:
            return
        k = n.get("k")
        if k == "block":
            at = len(env["locals"])
            for s in n["s"]:
                self.full(s, env)
            self.end_locals(env, None, at)
        else:
            self.full(n, env)

    def full(self, n, env):
        """One statement; its temporaries end with it."""
        k = n.get("k")
        if k == "block":
            return self.stmt(n, env)
        if k == "decl":
            for v in n.get("vars") or ():
                if v.get("k") != "var":
                    continue
                t = v.get("t", "")
                x = unwrap(v.get("init")) if v.get("init") else None
                at = len(env["locals"])
                if t.split("<")[0].replace("const ", "") == self.cls and not t.endswith(("*", "&")):
                    p = self.new(v["n"] + "#")
                    if x is not None and x.get("k") == "ctor":
                        self.construct(x, p, env)
                    elif x is not None:
                        r = self.ev(x, env)
                        if not (isinstance(r, tuple) and r[0] == "p"):
                            raise Unsupported("initialisation")
                        # the temporary is the variable
                        if r[1] in env["locals"]:
                            env["locals"].remove(r[1])
                        p = r[1]
                    self.end_locals(env, None, at)
                    env["locals"].append(p)
                    env[v["d"]] = ("p", p)
                else:
                    env[v["d"]] = self.ev(x, env) if x is not None else None
                    self.end_locals(env, None, at)
            return
        if k == "if":
            if n.get("var") or n.get("init"):
                self.full(n.get("init") or n.get("var"), env)
            at = len(env["locals"])
            c = self.truth(self.ev(n["c"], env))
            self.end_locals(env, None, at)
            if c:
                self.stmt(n["then"], env)
            elif n.get("else"):
                self.stmt(n["else"], env)
            return
        if k == "return":
            at = len(env["locals"])
            v = self.ev(n["e"], env) if n.get("e") is not None else None
            self.end_locals(env, v, at)
            if isinstance(v, tuple) and v[0] == "p" and v[1] in env["locals"]:
                env["locals"].remove(v[1])
            raise Return(v)
        if k in ("null", "empty") and "t" not in n:
            return
        at = len(env["locals"])
        self.ev(n, env)
        self.end_locals(env, None, at)

    @staticmethod
    def truth(v):
        return v is not None and v is not False and v != 0

    # -------------------------------------------------- expressions
    def lv(self, n, env):
        """What a glvalue names: ('f', pointer) for the raw pointer inside of a pointer object, ('d', decl), ('p', pointer object)."""
        n = unwrap(n)
        k = n.get("k")
        if k == "mem" and n.get("f") == self.field:
            b = self.ev(n["b"], env)
            if isinstance(b, tuple) and b[0] in ("p", "a"):
                return ("f", b[1])
        if k == "ref" and n.get("d") in env:
            v = env[n["d"]]
            return v if isinstance(v, tuple) and v[0] == "p" else ("d", n["d"])
        v = self.ev(n, env)
        if isinstance(v, tuple) and v[0] in ("p", "f"):
            return v
        raise Unsupported("lvalue %s" % k)

    def get(self, L, env):
        return self.h.load(L[1]) if L[0] == "f" else env[L[1]] if L[0] == "d" else L

    def put(self, L, v, env):
        if L[0] == "f":
            self.h.store(L[1], v)
        elif L[0] == "d":
            env[L[1]] = v
        else:
            raise Unsupported("assignment of an object")

    def ev(self, n, env):
        n = unwrap(n)
        k = n.get("k")
        if k == "this":
            return ("a", env["this"])
        if k == "null":
            return None
        if k in ("bool", "int"):
            return n["v"]
        if k == "ref":
            if n.get("d") in env:
                return env[n["d"]]
            raise Unsupported("name %s" % n.get("n"))
        if k == "mem":
            if n.get("f") == self.field:
                b = self.ev(n["b"], env)
                if isinstance(b, tuple) and b[0] in ("p", "a"):
                    return self.h.load(b[1])
            raise Unsupported("member %s" % n.get("f"))
        if k in ("cast", "definit", "defarg", "paren", "mat", "bindtemp"):
            return self.ev(n["e"], env)
        if k == "init":
            a = n.get("a") or []
            return self.ev(a[0], env) if len(a) == 1 else None
        if k == "un":
            if n["op"] == "!":
                return not self.truth(self.ev(n["a"], env))
            v = self.ev(n["a"], env)
            if n["op"] == "*":
                return ("p", v[1]) if isinstance(v, tuple) and v[0] == "a" else ("o", v)
            if n["op"] == "&":
                return ("a", v[1]) if isinstance(v, tuple) and v[0] == "p" else v[1] if isinstance(v, tuple) and v[0] == "o" else self.bad(n)
        if k == "bin":
            op = n["op"]
            if op == "=":
                v = self.ev(n["b"], env)
                self.put(self.lv(n["a"], env), v, env)
                return v
            if op in ("&&", "||"):
                a = self.truth(self.ev(n["a"], env))
                return (a and self.truth(self.ev(n["b"], env))) if op == "&&" else (a or self.truth(self.ev(n["b"], env)))
            if op in ("==", "!="):
                a, b = self.ev(n["a"], env), self.ev(n["b"], env)
                return (a == b) == (op == "==")
            if op == ",":
                self.ev(n["a"], env)
                return self.ev(n["b"], env)
        if k == "cond":
            return self.ev(n["then" if self.truth(self.ev(n["c"], env)) else "else"], env) if "then" in n else self.ev(n["a" if self.truth(self.ev(n["c"], env)) else "b"], env)
        if k == "ctor" and n.get("cls", "").split("<")[0] == self.cls:
            p = self.new()
            self.construct(n, p, env)
            env["locals"].append(p)
            return ("p", p)
        if k == "new":
            self.n += 1
            x = "N%d" % self.n
            self.h.obj(x, 0)
            return x
        if k == "call":
            return self.callee(n, env)
        return self.bad(n)

    def bad(self, n):
        raise Unsupported("%s" % n.get("k"))

    def construct(self, n, p, env):
        f = self.m.resolve_call(n, env["tu"])
        if f is None:
            f = next((x for x in self.m.fns.values() if x.id == n.get("id")), None)
        if not n.get("args") and (f is None or f.body is None):
            self.h.val[p] = None
            return
        if f is None or f.body is None:
            raise Unsupported("constructor")
        self.call(f, p, [self.ev(a, env) for a in n["args"]])

    def callee(self, n, env):
        fn = n.get("fn") or ""
        a = n.get("args") or []
        if fn in ("std::move", "std::forward", "std::as_const"):
            return self.ev(a[0], env)
        if fn in ("std::addressof", "std::__addressof"):
            v = self.ev(a[0], env)
            return ("a", v[1]) if isinstance(v, tuple) and v[0] == "p" else self.bad(n)
        if fn == "std::exchange":
            L = self.lv(a[0], env)
            if L[0] == "p":
                raise Unsupported("exchange of objects")
            v = self.ev(a[1], env)
            o = self.get(L, env)
            self.put(L, v, env)
            return o
        if fn == "std::swap":
            x, y = self.lv(a[0], env), self.lv(a[1], env)
            if x[0] == "p" and y[0] == "p":
                x, y = ("f", x[1]), ("f", y[1])
            vx, vy = self.get(x, env), self.get(y, env)
            self.put(x, vy, env)
            self.put(y, vx, env)
            return None
        if fn.split("::")[-1] == self.inc:
            self.h.inc(self.ev(a[0], env))
            return None
        if fn.split("::")[-1] == self.dec:
            self.h.dec(self.ev(a[0], env))
            return None
        f = self.m.resolve_call(n, env["tu"])
        if f is not None and f.body is not None and (f.cls or "").split("<")[0] == self.cls:
            this = None
            if n.get("obj") is not None:
                o = self.ev(n["obj"], env)
                if not (isinstance(o, tuple) and o[0] in ("p", "a")):
                    raise Unsupported("object")
                this = o[1]
            elif "operator" in fn and a and f.d.get("cls"):
                o = self.ev(a[0], env)
                this, a = o[1], a[1:]
            return self.call(f, this, [self.ev(x, env) for x in a])
        if f is not None and f.body is not None and fn.startswith("mlio::"):
            return self.call(f, None, [self.ev(x, env) for x in a])
        raise Unsupported(fn)
