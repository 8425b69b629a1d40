"""Tensors, attributes, schemas and examples are consistent, or are not made.

The constructors are followed on all paths: what a path that makes the object has established about the sizes of its parts is
compared with what the object promises; loops are judged by what one iteration does to the values it carries."""
from util import *
from absint import Interp, show
from model import calls
from checks.c23 import meth, peel, enums, last
from checks.c24 import poly, minus

ASSUMPTIONS = ["The pointers to device arrays that C++ code passes to the constructors of tensors are not null.",
               "The sizes of arrays and their default strides fit into a machine word."]
T_ = "mlio::Tensor"
EX = "mlio::Example"


def run(ck):
    m = ck.model("core")
    for c in (T_, "mlio::Dense_tensor", "mlio::Coo_tensor", "mlio::Csr_tensor", "mlio::Attribute", "mlio::Schema", EX):
        ck.need(c in m.classes, c)
    for c in (T_, "mlio::Attribute"):
        shaped(ck, m, c)
    default_strides(ck, m)
    dense(ck, m)
    coo(ck, m)
    csr(ck, m)
    schema(ck, m)
    example(ck, m)
    equality(ck, m)
    getters(ck, m)
    visitors(ck, m)
    constant(ck, m)


# ------------------------------------------------------------ helpers
def run_fn(ck, m, f, opaque=lambda fn: False, **o):
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: opaque(fn) or "/mlio/" not in fn.file, **o)
    return i, ck.interp_done(i, i.run(f))


def ctors(ck, m, c, n=1):
    out = [x for x in m.methods(c) if x.is_ctor and x.body is not None and len(x.params) >= n and not (len(x.params) == 1 and short_type(x.params[0]["t"]) == c.split("::")[-1])]
    ck.need(out, "the constructor of " + c)
    return out


def short_type(t):
    return t.replace("const ", "").rstrip("&* ").split("::")[-1].strip()


def fields(T, r=None):
    """the last value every field of this gets: {name: value}"""
    out = {}
    for e in T:
        if e.kind in ("initf", "write", "lwrite") and isinstance(e.obj, tuple) and e.obj[:1] == ("f",) and e.obj[1] == ("obj", "this") and e.args:
            out[e.name] = e.args[0]
    return out


def inner(t):
    t = peel(t)
    while isinstance(t, tuple) and t and t[0] == "init" and len(t) == 2:
        t = peel(t[1])
    return t


def size_of(t):
    """X of X.size()"""
    t = inner(t)
    return t[2] if isinstance(t, tuple) and meth(t, "size") is not None and len(t) > 2 else None


def root(i, t, fl):
    """a field of this replaced by what it was given"""
    t = inner(t)
    seen = 0
    while isinstance(t, tuple) and seen < 8:
        seen += 1
        if t[0] == "f" and t[1] == ("obj", "this") and t[2] in fl:
            n = inner(fl[t[2]])
            if n == t:
                break
            t = n
        elif t[0] in ("*", "addr") and isinstance(t[1], tuple):
            n = root(i, t[1], fl)
            return (t[0], n) if n != t[1] else t
        else:
            break
    return t


def same_sizes(i, fs, fl):
    """pairs {A, B} of containers known to have the same size, and (A, n) known to be of size n + constant"""
    out = []
    for a, v in fs:
        if not v or a[0] not in ("eq0", "eq"):
            continue
        if a[0] == "eq":
            x, y = size_of(a[1]), size_of(a[2])
            if x is not None and y is not None:
                out.append(frozenset((root(i, x, fl), root(i, y, fl))))
        elif a[1] == 0 and len(a[2]) == 2 and sorted(k for _, k in a[2]) == [-1, 1]:
            x, y = (size_of(t) for t, _ in a[2])
            if x is not None and y is not None:
                out.append(frozenset((root(i, x, fl), root(i, y, fl))))
    return out


def whose(t, *names):
    return any(names_in(t, lambda s, n=n: s == n) or mentions(t, lambda x, n=n: x == ("obj", n)) for n in names)


def paramf(f, pred):
    k = next((k for k, p in enumerate(f.params) if pred(p)), None)
    return ("obj", "arg%d" % k) if k is not None else None


def spent(f, T, call, sh):
    """the call is given the parameter after it was moved into the object"""
    k = next(n for n, e in enumerate(T) if e is call)
    a = (call.node or {}).get("args") or [{}]
    a = a[0]
    while isinstance(a, dict) and a.get("k") in ("cast", "paren", "move") and a.get("e"):
        a = a["e"]
    named = a.get("k") == "ref" and a.get("n") == f.params[int(sh[1][3:])]["n"]
    return named and any(e.kind == "initf" and e.args and inner(e.args[0]) == sh for e in T[:k])


# ------------------------------------------------------------ shape and strides
def shaped(ck, m, c):
    for f in ctors(ck, m, c, 3):
        at, w = short(f.name), f.where()
        i, rs = run_fn(ck, m, f, opaque=lambda fn: fn.short == "default_strides")
        sh = paramf(f, lambda p: p["n"] == "shape" or "unsigned long" in p["t"] or "Size_vector" in p["t"])
        st = paramf(f, lambda p: p["n"] == "strides" or "Ssize_vector" in p["t"])
        dt = paramf(f, lambda p: "Data_type" in p["t"])
        if None in (sh, st, dt):
            continue
        n = 0
        for r in rs:
            if r.outcome != "return":
                continue
            n += 1
            fl = fields(r.trace)
            ck.ob("the shape is the one given", at, inner(fl.get("shape_")) == sh, "it is %s" % show(fl.get("shape_"))[:60] if fl.get("shape_") else "it is not set", w)
            ck.ob("the data type is the one given", at, inner(fl.get("data_type_")) == dt, "it is %s" % (show(fl["data_type_"])[:60] if fl.get("data_type_") else "not set"), w)
            s = inner(fl.get("strides_"))
            fs = facts(r.trace)
            empty = next((v for a, v in fs if a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1 and size_of(a[2][0][0]) is not None and root(i, size_of(a[2][0][0]), fl) == st), None)
            dflt = [e for e in evs(r.trace, "call") if last(e.name) == "default_strides"]
            if s == st:
                eq = frozenset((sh, st)) in same_sizes(i, fs, {k: v for k, v in fl.items()})
                ck.ob("strides that are given are one per dimension", at, eq, "any number of strides is accepted", w)
                ck.ob("an object without strides gets the default ones", at, empty is False or eq and not empty or empty is None and eq, "it has none", w)
            else:
                ok = len(dflt) >= 1 and s == inner(dflt[-1].extra) and root(i, dflt[-1].args[0], fl) in (sh, ("addr", sh)) and not spent(f, r.trace, dflt[-1], sh)
                ck.ob("the default strides are those of the shape", at, ok, "the strides are %s" % (show(s)[:60] if s else "not set"), w)
                ck.ob("strides that are given are used", at, empty is True, "the default strides replace them", w)
            if c == "mlio::Attribute":
                for fn_, p in (("name_", "name"), ("sparse_", "sparse")):
                    x = paramf(f, lambda q: q["n"] == p)
                    if x is not None:
                        ck.ob("the %s is the one given" % p, at, inner(fl.get(fn_)) == x, "it is %s" % (show(fl[fn_])[:50] if fl.get(fn_) else "not set"), w)
        ck.ob("objects can be made", at, n > 0, "the constructor always throws", w)


def norm(i, t, mp):
    """a position in a vector as (vector, index polynomial counted from the last element), or None"""
    t = inner(t)
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "m" and last(t[1]) == "operator*":
        return it_pos(i, t[2], mp)
    if t[0] == "*":
        return it_pos(i, t[1], mp)
    if t[0] in ("e", "elt") or t[0] == "m" and last(t[1]) in ("operator[]", "at"):
        v, k = (t[1], t[2]) if t[0] != "m" else (t[2], t[3][0] if t[3] else None)
        v = mp.get(("vec", v), v)
        p = poly(i, k, mp)
        return vec_of(v), minus({(("n",),): 1, (): -1}, sizes(p))
    if t[0] == "m" and last(t[1]) in ("front", "back"):
        return vec_of(t[2]), {(): 0} if last(t[1]) == "back" else {(("n",),): 1, (): -1}
    return None


def vec_of(v):
    v = inner(v)
    while isinstance(v, tuple) and v and v[0] in ("f", "fld", "*", "addr", "init"):
        v = inner(v[1])
    return "shape" if v == ("obj", "arg0") else "strides"


def sizes(p):
    """the size of any of the vectors is n"""
    out = {}
    for mo, c in p.items():
        k = tuple(sorted((("n",) if size_of(x) is not None else x for x in mo), key=repr))
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def flat_it(i, t, mp):
    """iterator -> (kind, vector, offset polynomial)"""
    t = inner(t)
    if t in mp:
        return flat_it(i, mp[t], {k: v for k, v in mp.items() if k != t})
    if isinstance(t, tuple) and t and t[0] == "lin":
        base = off = None
        for k, c in t[2]:
            b = flat_it(i, k, mp)
            if b is not None:
                if base is not None or c != 1:
                    return None
                base = b
            else:
                p = poly(i, k, mp)
                off = minus(off or {}, {a: -c * u for a, u in p.items()})
        if base is None:
            return None
        p = minus(base[2], {a: -u for a, u in (off or {}).items()})
        return base[0], base[1], minus(p, {(): -t[1]} if t[1] else {})
    if isinstance(t, tuple) and t and t[0] == "m":
        n = last(t[1])
        if n in ("rbegin", "crbegin"):
            return "r", vec_of(t[2]), {}
        if n in ("rend", "crend"):
            return "r", vec_of(t[2]), {(("n",),): 1}
        if n in ("begin", "cbegin", "data"):
            return "f", vec_of(t[2]), {}
        if n in ("end", "cend"):
            return "f", vec_of(t[2]), {(("n",),): 1}
        if n in ("operator+", "operator-") and len(t) > 3 and len(t[3]) == 1:
            b = flat_it(i, t[2], mp)
            if b is None:
                return None
            k = sizes(poly(i, t[3][0], mp))
            return b[0], b[1], minus(b[2], k if n == "operator-" else {a: -u for a, u in k.items()})
    if isinstance(t, tuple) and t and t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        b = flat_it(i, t[2], mp)
        if b is not None:
            k = sizes(poly(i, t[3], mp))
            return b[0], b[1], minus(b[2], k if t[1] == "-" else {a: -u for a, u in k.items()})
    return None


def it_pos(i, t, mp):
    b = flat_it(i, t, mp)
    if b is None:
        return None
    return b[1], b[2] if b[0] == "r" else minus({(("n",),): 1, (): -1}, b[2])


def factors(t):
    t = inner(t)
    if isinstance(t, tuple) and t and t[0] == "op" and t[1] == "*":
        return [x for y in t[2:] for x in factors(y)]
    if isinstance(t, tuple) and t and t[0] == "lin" and t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1:
        return factors(t[2][0][0])
    return [t]


K = ("K",)


def default_strides(ck, m):
    f = m.method(T_, "default_strides")
    if f is None or f.body is None:
        f = next((x for x in m.fns.values() if x.short == "default_strides" and x.body is not None), None)
    ck.need(f is not None, "the default strides")
    at, w = short(f.name), f.where()
    i, rs = run_fn(ck, m, f)
    seen = False
    why = "no loop over the dimensions was understood"
    for r in rs:
        if r.outcome != "return":
            continue
        T = r.trace
        for j, k, how in loop_segments(T):
            if how != "iter":
                continue
            lo, it = T[j], T[k]
            mp = {}
            for L, (en, fr) in (lo.extra or {}).items():
                end = (it.extra or {}).get(L)
                if end is None:
                    continue
                c, d = i.lin(end)
                if d == {fr: 1}:
                    mp[fr] = ("lin", 0, ((en, 1), (K, c))) if c else en
                    if not c:
                        mp[fr] = en
            val = acc = None
            for e in T[j:k]:
                if e.kind not in ("write", "lwrite"):
                    continue
                slot = i.tmpval.get(e.obj, e.obj) if e.obj and e.obj[0] == "t" else e.obj
                p = norm(i, slot, mp) if isinstance(slot, tuple) and slot[0] in ("m", "e", "elt", "*", "init") else None
                if p is not None and p[0] == "strides":
                    val = (p[1], e.args[0])
            if val is None:
                continue
            p, v = val
            fc = factors(v)
            ps = [norm(i, x, mp) for x in fc]
            ones = any(e.kind in ("lwrite",) and isinstance(e.args[0], tuple) and e.args[0][0] == "new" and "vector" in str(e.args[0][1]) and len(e.args[0]) > 4 and e.args[0][4] == ("c", 1) and size_of(e.args[0][3]) is not None for e in T[:j])
            one = {(): 1}
            if len(fc) == 2 and all(ps):
                st = [q for q in ps if q[0] == "strides"]
                sh = [q for q in ps if q[0] == "shape"]
                ok = len(st) == 1 and len(sh) == 1 and minus(p, st[0][1]) == one and minus(p, sh[0][1]) == one
                first = {a: c for a, c in p.items() if K not in a}
                ok = ok and p.get((K,)) == 1 and first == one and ones
                want = {(("n",),): 1, (K,): -1, (): -1}
                why = "a stride is not the one of the next dimension times its size, from the last dimension outwards"
            elif len(fc) == 1 and fc[0] in {fr for en, fr in (lo.extra or {}).values()}:
                L = next(L for L, (en, fr) in lo.extra.items() if fr == fc[0])
                en = lo.extra[L][0]
                nx = factors((it.extra or {}).get(L))
                q = [norm(i, x, mp) for x in nx if x != fc[0]]
                ok = en == ("c", 1) and len(nx) == 2 and fc[0] in nx and len(q) == 1 and q[0] is not None and q[0][0] == "shape" and q[0][1] == p and p == {(K,): 1}
                want = {(("n",),): 1, (K,): -1}
                why = "a stride is not the number of elements of the dimensions after it"
            else:
                ok = False
                why = "a stride is %s" % show(v)[:80]
            if ok:
                why = "not every dimension gets a stride"
                ok = any(guards(i, a, v_, mp, want) for a, v_ in facts(T[j:k]))
            seen = seen or ok
            if not ok:
                ck.ob("the default strides are those of a contiguous array, the last dimension first", at, False, why, w)
        if not loop_segments(T):
            none = any(a[0] == "eq0" and a[1] == 0 and v and len(a[2]) == 1 and size_of(a[2][0][0]) is not None for a, v in facts(T))
            ck.ob("only a tensor without dimensions has no strides", at, none, "a tensor with dimensions gets %s" % show(r.value)[:50], w)
    ck.ob("the default strides are those of a contiguous array, the last dimension first", at, seen, why, w)


def guards(i, a, v, mp, want):
    """the fact says that the polynomial is positive (or not 0)"""
    if a[0] in ("pos", "eq0"):
        p = {}
        kind = set()
        for t, c in a[2]:
            b = flat_it(i, t, mp)
            if b is not None:
                kind.add(b[0])
            q = b[2] if b is not None else sizes(poly(i, t, mp))
            p = minus(p, {x: -c * u for x, u in q.items()})
        p = minus(p, {(): -a[1]} if a[1] else {})
        if a[0] == "pos" and not v:
            p = minus({(): 1}, p)
            v = True
        if a[0] == "eq0":
            return not v and (p == want or {x: -u for x, u in p.items()} == want)
        return v and p == want
    if a[0] == "eq" and not v:
        x, y = flat_it(i, a[1], mp), flat_it(i, a[2], mp)
        if x and y:
            p = minus(x[2], y[2])
            return p == want or {z: -u for z, u in p.items()} == want
    return False


# ------------------------------------------------------------ tensors
def with_base(ck, m, f):
    return run_fn(ck, m, f, opaque=lambda fn: fn.short == "default_strides")


def base_ok(ck, f, r, at, w):
    """the shape and the data are those given, the data type is the one of the data"""
    fl = fields(r.trace)
    data = paramf(f, lambda p: p["n"] == "data") or ("obj", "arg1")
    sh = paramf(f, lambda p: p["n"] == "shape") or ("obj", "arg0")
    ck.ob("the data are those given", at, inner(fl.get("data_")) == data, "they are %s" % (show(fl["data_"])[:50] if fl.get("data_") else "not set"), w)
    ck.ob("the shape of a tensor is the one given", at, inner(fl.get("shape_")) == sh, "it is %s" % (show(fl["shape_"])[:50] if fl.get("shape_") else "not set"), w)
    d = inner(fl.get("data_type_"))
    ok = meth(d, "data_type") is not None and mentions(d, lambda t: t == data)
    ck.ob("the data type of a tensor is the one of its data", at, ok, "it is %s" % (show(d)[:50] if d else "not set"), w)
    return fl, data, sh


def dense(ck, m):
    c = "mlio::Dense_tensor"
    for f in ctors(ck, m, c, 2):
        at, w = short(f.name), f.where()
        i, rs = with_base(ck, m, f)
        n = 0
        # every iteration over the dimensions, on every path
        iters = {}
        for r in rs:
            T = r.trace
            for j, k, how in loop_segments(T):
                if how == "iter":
                    iters.setdefault(id(T[j].node), []).append((r, j, k))
        for r in rs:
            if r.outcome != "return":
                continue
            n += 1
            fl, data, sh = base_ok(ck, f, r, at, w)
            fs = facts(r.trace)
            size = lambda t: size_of(t) is not None and mentions(t, lambda x: x == data or x == ("f", ("obj", "this"), "data_"))
            scalar = any(a[0] == "eq0" and a[1] == 0 and v and len(a[2]) == 1 and size_of(a[2][0][0]) is not None and root(i, size_of(a[2][0][0]), fl) == sh for a, v in fs)
            void = any(a[0] == "eq0" and a[1] == 0 and v and len(a[2]) == 1 and isdim(i, a[2][0][0], sh, fl) for a, v in fs)
            if scalar or void:
                continue
            if never(r.trace, iters):
                continue
            ok, why = extent(i, r, iters, sh, size, fl)
            ck.ob("all elements of a dense tensor are within its data", at, ok, why, w)
        ck.ob("dense tensors can be made", at, n > 0, "the constructor always throws", w)


def isdim(i, t, sh, fl):
    t = inner(t)
    return isinstance(t, tuple) and t and (t[0] in ("e", "elt") and root(i, t[1], fl) == sh or t[0] == "m" and last(t[1]) in ("operator*", "operator[]", "at") and mentions(t[2], lambda x: x == sh))


def never(T, iters):
    """a flag that is false when a loop begins, and never becomes true in it, is true after it"""
    fs = facts(T)
    for j, e in enumerate(T):
        if e.kind != "loop":
            continue
        for L, (en, fr) in (e.extra or {}).items():
            off = en in (("c", False), ("c", 0)) or isinstance(en, tuple) and en and en[0] == "cond" and any(a == en[1] and v is not en[2] for a, v in fs)
            if not off:
                continue
            after = {fr} | {x for z in T[j:] if z.kind == "endloop" and z.node is e.node for M, x in (z.extra or {}).items() if M == L}
            if not any(a[0] == "has" and v and a[1] in after for a, v in facts(T[j:])):
                continue
            ends = []
            for r2, a, b in iters.get(id(e.node), []):
                lo2 = r2.trace[a].extra or {}
                M = next((x for x in lo2 if x[-1] == L[-1]), None)
                ends.append(M is not None and (r2.trace[b].extra or {}).get(M, lo2[M][1]) in (lo2[M][1], ("c", False), ("c", 0)))
            if all(ends):
                return True
    return False


def extent(i, r, iters, sh, size, fl):
    """one loop of the path subtracts what every dimension needs from the number of elements available"""
    T = r.trace
    why = "the size of the data is not compared with the shape and the strides"
    for j, e in enumerate(T):
        if e.kind != "loop" or not e.extra:
            continue
        lo = e.extra
        acc = next((L for L, (en, fr) in lo.items() if number_left(i, en, size)), None)
        if acc is None:
            continue
        ok, why = one_loop(i, T, j, acc, iters.get(id(e.node), []), sh, size, fl)
        if ok:
            return True, ""
    return False, why


def number_left(i, en, size):
    """size - 1, or 0 when the data are empty"""
    c, d = i.lin(en)
    return c == -1 and len(d) == 1 and all(v == 1 and size(k) for k, v in d.items())


def one_loop(i, T, j, acc, its, sh, size, fl):
    lo = T[j].extra
    flag = next((L for L, (en, fr) in lo.items() if L != acc and (en in (("c", True), ("c", 1)) or isinstance(en, tuple) and en[0] == "cond")), None)
    known = any(a[0] == "pos" and a[1] == 0 and v and len(a[2]) == 1 and size(a[2][0][0]) for a, v in facts(T[:j])) or \
        any(a[0] == "eq0" and a[1] == 0 and not v and len(a[2]) == 1 and size(a[2][0][0]) for a, v in facts(T[:j]))
    if not known:
        return False, "the number of elements of empty data is decremented"
    if flag is not None:
        # the flag is asked for afterwards
        fresh = {fr for e in T[j:] if e.kind == "endloop" and e.node is T[j].node for L, fr in (e.extra or {}).items() if L == flag} | {lo[flag][1]}
        if not any(a[0] == "has" and v and a[1] in fresh for a, v in facts(T[j:])):
            return False, "the result of the comparison is not used"
    for r2, a, b in its:
        S = r2.trace
        lo2, it = S[a].extra or {}, S[b].extra or {}
        fs = facts(S[a:b])
        acc2 = acc if acc in lo2 else next((L for L in lo2 if L[-1] == acc[-1]), None)
        if acc2 is None:
            continue
        fl2 = next((L for L in lo2 if flag is not None and (L == flag or L[-1] == flag[-1])), None)
        fr = lo2[acc2][1]
        end = it.get(acc2, fr)
        refused = fl2 is not None and it.get(fl2) in (("c", False), ("c", 0))
        if fl2 is not None and not refused and it.get(fl2, lo2[fl2][1]) != lo2[fl2][1]:
            return False, "a comparison that failed is forgotten"
        D = next((t for x, v in fs for t, c in (x[2] if x[0] in ("pos", "eq0") else ()) if isdim(i, t, sh, fl)), None)
        if D is None:
            return False, "the size of a dimension is not looked at"
        one = any(x[0] == "pos" and len(x[2]) == 1 and x[2][0] == (D, 1) and x[1] == -1 and not v or x[0] == "eq0" and x[1] == -1 and v and x[2] == ((D, 1),) for x, v in fs)
        if one or refused:
            continue
        st = lambda t: not isdim(i, t, sh, fl) and t != fr and isinstance(t, tuple) and (meth(t, "operator*", "operator[]", "at") is not None or t[0] in ("e", "elt", "init"))
        Ss = [t for x, v in fs for t, c in (x[2] if x[0] in ("pos", "eq0") else ()) if st(t) and t != D and not size(t)]
        if not Ss:
            return False, "the stride of a dimension is not looked at"
        s = Ss[0]
        if not stride_here(i, S, a, b, s, D):
            return False, "the stride is not the one of the dimension"
        zero = any(x[0] == "eq0" and x[1] == 0 and v and x[2] in (((s, 1),), ((s, -1),)) for x, v in fs) or \
            any(x[0] == "pos" and x[1] == 0 and not v and x[2] == ((s, 1),) for x, v in fs) and any(x[0] == "pos" and (x[1] == 1 and x[2] == ((s, 1),) and v or x[1] == 0 and x[2] == ((s, -1),) and not v) for x, v in fs)
        if zero:
            if end != fr:
                return False, "a stride of 0 uses up elements"
            continue
        p = minus(poly(i, end, {}), poly(i, fr, {}))
        want = minus(poly(i, ("op", "*", s, D), {}), {(s,): 1})
        if minus(p, {k: -v for k, v in want.items()}):
            return False, "a dimension uses up %s elements" % show(("op", "-", fr, end))[:80]
        ge = lambda n: any(x[0] == "pos" and (v and x[2] == ((s, 1),) and -x[1] >= n - 1 or not v and x[2] == ((s, -1),) and x[1] >= n) for x, v in fs)
        pos = ge(1) or ge(0) and any(x[0] == "eq0" and x[1] == 0 and not v and x[2] in (((s, 1),), ((s, -1),)) for x, v in fs)
        if not pos:
            return False, "a negative stride is accepted"
        fits = False
        for x, v in fs:
            if x[0] == "pos":
                q = {t: c for t, c in x[2]}
                div = next((t for t in q if isinstance(t, tuple) and t[0] == "op" and t[1] == "/" and t[2] == fr and inner(t[3]) == s), None)
                if div is not None and q == {D: 1, div: -1} and x[1] == -1 and not v or div is not None and q == {D: -1, div: 1} and x[1] == 2 and v:
                    fits = True
        if not fits:
            return False, "a dimension may use up more elements than are left"
    return bool(its), "there is no iteration over the dimensions"


def stride_here(i, S, a, b, s, D):
    """the stride read is that of the same dimension"""
    if s[0] in ("e", "elt"):
        return D[0] in ("e", "elt") and s[2] == D[2]
    lo, it = S[a].extra or {}, S[b].extra or {}
    for L, (en, fr) in lo.items():
        if mentions(s, lambda t: t == fr):
            c, d = i.lin(it.get(L, fr))
            return c == 1 and d == {fr: 1} and meth(inner(en), "begin", "cbegin", "data") is not None
    return False


def coo(ck, m):
    c = "mlio::Coo_tensor"
    for f in ctors(ck, m, c, 3):
        at, w = short(f.name), f.where()
        i, rs = with_base(ck, m, f)
        n = 0
        co = paramf(f, lambda p: "vector<" in p["t"] and "Device_array" in p["t"])
        for r in rs:
            T = r.trace
            mine = lambda x: x == co or x == ("f", ("obj", "this"), "coordinates_") or x[:2] == ("r", "loop:coordinates_")
            for j, k, how in loop_segments(T):
                if how == "iter" and co is not None:
                    fl = fields(T)
                    data = paramf(f, lambda p: p["n"] == "data") or ("obj", "arg1")
                    ok = False
                    for a, v in facts(T[j:k]):
                        if v and a[0] in ("eq", "eq0"):
                            two = ts(a)
                            ok = ok or len(two) == 2 and all(size_of(t) is not None for t in two) and any(mentions(t, lambda x: x == data or x == ("f", ("obj", "this"), "data_")) for t in two) \
                                and any(mentions(t, mine) and counted(i, T[j], T[k], t) for t in two)
                    ck.ob("there is a coordinate for every value", at, ok, "a coordinate vector of another length is accepted", w)
            if r.outcome != "return":
                continue
            n += 1
            fl, data, sh = base_ok(ck, f, r, at, w)
            ck.ob("the coordinates are those given", at, inner(fl.get("coordinates_")) == co, "they are %s" % (show(fl["coordinates_"])[:50] if fl.get("coordinates_") else "not set"), w)
            ck.ob("there is a coordinate vector for every dimension", at, frozenset((sh, co)) in same_sizes(i, facts(T), fl), "any number of them is accepted", w)
            lp = [e for e in T if e.kind == "fact" and e.name[0] == "more" and mentions(e.name[1], lambda x: x == co or x == ("f", ("obj", "this"), "coordinates_"))] or \
                 [e for e in T if e.kind == "fact" and e.name[0] in ("pos", "eq", "eq0") and any(size_of(t) is not None and mentions(t, mine) for t in ts(e.name)) and
                  any(k2 < T.index(e) for k2, z in enumerate(T) if z.kind == "loop")]
            ck.ob("every coordinate vector is looked at", at, bool(lp), "their lengths are not looked at", w)
        ck.ob("sparse tensors can be made", at, n > 0, "the constructor always throws", w)


def counted(i, lo, it, t):
    """an index in the term starts at 0 and is incremented"""
    for x in find(t, lambda y: y[0] in ("e", "elt") and len(y) == 3):
        ix = inner(x[2])
        if isinstance(ix, tuple) and ix[:2] == ("r", "iter"):
            return True
        for L, (en, fr) in (lo.extra or {}).items():
            if fr == ix:
                c, d = i.lin((it.extra or {}).get(L, fr))
                return en == ("c", 0) and c == 1 and d == {fr: 1}
        return False
    return True


def csr(ck, m):
    c = "mlio::Csr_tensor"
    for f in ctors(ck, m, c, 4):
        at, w = short(f.name), f.where()
        i, rs = with_base(ck, m, f)
        ps = [("obj", "arg%d" % k) for k, p in enumerate(f.params) if "Device_array" in p["t"]]
        n = 0
        for r in rs:
            if r.outcome != "return":
                continue
            T = r.trace
            n += 1
            fl, data, sh = base_ok(ck, f, r, at, w)
            fs = facts(T)
            rest = [p for p in ps if p != data]
            ok = len(rest) == 2 and inner(fl.get("indices_")) == rest[0] and inner(fl.get("indptr_")) == rest[1]
            ck.ob("the index arrays are those given", at, ok, "they are others", w)
            if not ok:
                continue
            st = lambda t, x, n_: size_of(t) is not None and mentions(t, lambda y: y == x or y == ("f", ("obj", "this"), n_))
            ok = any(v and a[0] in ("eq", "eq0") and len(ts(a)) == 2 and any(st(t, data, "data_") for t in ts(a)) and any(st(t, rest[0], "indices_") for t in ts(a)) for a, v in fs)
            ck.ob("there is an index for every value", at, ok, "another number of them is accepted", w)
            rank = rank_known(i, fs, sh, fl)
            ck.ob("a CSR tensor has at most two dimensions", at, rank is not None, "more are accepted", w)
            good = False
            for a, v in fs:
                if not v or a[0] not in ("eq", "eq0"):
                    continue
                p = {}
                if a[0] == "eq0":
                    items, k = a[2], a[1]
                else:
                    items, k = ((a[1], 1), (a[2], -1)), 0
                me = [t for t, _ in items if st(t, rest[1], "indptr_")]
                if len(me) != 1:
                    continue
                sgn = next(c_ for t, c_ in items if t == me[0])
                rows = [(t, -sgn * c_) for t, c_ in items if t != me[0]]
                k = -sgn * k
                if not rows:
                    good = good or rank == 0 and k == 1 or rank == 1 and k == 2
                elif len(rows) == 1 and rows[0][1] == 1 and k == 1:
                    t = inner(rows[0][0])
                    first = isinstance(t, tuple) and (t[0] in ("e", "elt") and t[2] in (("c", 0), ("s", "front")) and root(i, t[1], fl) == sh or meth(t, "front") is not None)
                    good = good or first and rank == 2
            ck.ob("there is an index pointer for every row, and one for the end", at, good, "another number of them is accepted for rank %s" % rank, w)
        ck.ob("CSR tensors can be made", at, n > 0, "the constructor always throws", w)


def ts(a):
    return [t for t, _ in a[2]] if a[0] in ("eq0", "pos") else [a[1], a[2]]


def rank_known(i, fs, sh, fl):
    """the number of dimensions of the path: 0, 1, 2 or None"""
    lo, hi, no = 0, None, set()
    for a, v in fs:
        if a[0] not in ("eq0", "pos") or len(a[2]) != 1 or size_of(a[2][0][0]) is None or root(i, size_of(a[2][0][0]), fl) != sh:
            continue
        k, c = a[1], a[2][0][1]
        if a[0] == "eq0":
            if v:
                return -k * c if -k * c <= 2 else None
            no.add(-k * c)
        else:
            # k + c * n > 0
            if c == 1 and v:
                lo = max(lo, 1 - k)
            elif c == 1:
                hi = -k if hi is None else min(hi, -k)
            elif v:
                hi = k - 1 if hi is None else min(hi, k - 1)
            else:
                lo = max(lo, k)
    if hi is None or hi > 2:
        return None
    left = [n for n in range(lo, hi + 1) if n not in no]
    return left[0] if len(left) == 1 else None


# ------------------------------------------------------------ schema
def schema(ck, m):
    c = "mlio::Schema"
    for f in ctors(ck, m, c):
        at, w = short(f.name), f.where()
        i, rs = run_fn(ck, m, f)
        a0 = ("obj", "arg0")
        n = 0
        for r in rs:
            T = r.trace
            for j, k, how in loop_segments(T):
                if how != "iter":
                    continue
                ins = [e for e in T[j:k] if e.kind == "call" and last(e.name) in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint") and names_in(e.obj, lambda s: "index_map" in s or "map" in s)]
                wr = [e for e in T[j:k] if e.kind in ("call",) and last(e.name) == "operator[]" and names_in(e.obj, lambda s: "index_map" in s)]
                if not ins and not wr:
                    continue
                ok = len(ins) == 1
                ck.ob("every attribute is entered into the index once", at, ok, "an attribute is entered %d times" % (len(ins) + len(wr)), w)
                for e in ins[:1]:
                    key, val = entry_of(e)
                    ok = key is not None and names_in(key, lambda s: s == "name_")
                    ck.ob("attributes are found by their names", at, ok, "they are found by %s" % (show(key)[:50] if key else "nothing"), w)
                    okv = val is not None and counts_from_zero(i, T, j, k, val, key)
                    ck.ob("the index has the position of the attribute", at, okv, "it has %s" % (show(val)[:50] if val else "nothing"), w)
                    done = any(a[0] == "has" and v and mentions(a[1], lambda t: t == e.extra) or a[0] == "has" and v and names_in(a[1], lambda s: s in ("second", "#1")) for a, v in facts(T[j:k]))
                    done = done or any(a[0] in ("eq", "has", "eq0") and names_in(a, lambda s: last(s) in ("find", "count", "contains")) for a, v in facts(T[j:k]))
                    ck.ob("two attributes cannot have one name", at, done, "a second attribute of the same name is accepted", w)
            if r.outcome != "return":
                continue
            n += 1
            fl = fields(T)
            ok = inner(fl.get("attributes_")) == a0
            ck.ob("the attributes are those given", at, ok, "they are %s" % (show(fl["attributes_"])[:50] if fl.get("attributes_") else "not set"), w)
            lp = [e for e in T if e.kind == "fact" and (e.name[0] == "more" and mentions(e.name[1], lambda x: x == a0 or x == ("f", ("obj", "this"), "attributes_"))
                                                        or e.name[0] in ("pos", "eq0", "eq") and names_in(e.name, lambda s: s == "attributes_" or last(s) in ("size", "end")))]
            ck.ob("every attribute is in the index", at, bool(lp), "the attributes are not entered into it", w)
        ck.ob("schemas can be made", at, n > 0, "the constructor always throws", w)
    g = m.method(c, "get_index")
    ck.need(g is not None and g.body is not None, "Schema::get_index")
    i, rs = run_fn(ck, m, g)
    at, w = short(g.name), g.where()
    got = {True: 0, False: 0}
    for r in rs:
        if r.outcome != "return":
            continue
        v = peel(r.value)
        fs = facts(r.trace)
        found = lookup(fs)
        by = [e for e in evs(r.trace, "call") if last(e.name) in ("find", "count", "at", "equal_range", "contains")]
        ok = bool(by) and all(names_in(e.obj, lambda s: "index_map" in s or "map" in s) and e.args and inner(e.args[0]) == ("obj", "arg0") for e in by)
        ck.ob("an attribute is looked up by the name asked for", at, ok, "something else is looked up", w)
        if v == ("null",) or isinstance(v, tuple) and v[:2] == ("new", "std::optional") and len(v) < 4:
            got[False] += 1
            ck.ob("a name that is in the index is found", at, found is not True, "nothing is answered for it", w)
        else:
            got[True] += 1
            ck.ob("only a name that is in the index is found", at, found is True, "%s is answered for another" % show(v)[:50], w)
            ck.ob("the position found is the one in the index", at, names_in(v, lambda s: s in ("second", "#1") or last(s) in ("at",)) and not arithmetic(v), "%s is answered" % show(v)[:80], w)
    ck.ob("names are found", at, got[True] > 0, "nothing is ever found", w)
    ck.ob("unknown names are not found", at, got[False] > 0, "something is always found", w)


def arithmetic(v):
    v = inner(v[1]) if isinstance(v, tuple) and v and v[0] == "some" else inner(v)
    return isinstance(v, tuple) and v and v[0] in ("lin", "op")


def lookup(fs):
    """what the path knows of the result of a lookup"""
    for a, v in fs:
        if a[0] == "eq" and names_in(a, lambda s: last(s) == "find") and names_in(a, lambda s: last(s) in ("end", "cend")):
            return not v
        if a[0] in ("eq0",) and a[1] == 0 and names_in(a, lambda s: last(s) == "count"):
            return not v
        if a[0] == "pos" and names_in(a, lambda s: last(s) == "count"):
            return v
        if a[0] == "has" and names_in(a, lambda s: last(s) == "contains"):
            return v
    return None


def entry_of(e):
    a = list(e.args)
    if last(e.name) == "emplace_hint":
        a = a[1:]
    if len(a) == 1:
        t = peel(a[0])
        if isinstance(t, tuple) and t and t[0] in ("new", "r", "m") and len(t) >= 5:
            return t[-2], t[-1]
        if isinstance(t, tuple) and t and t[0] == "agg":
            d = [v for _, v in t[2]]
            return (d + [None, None])[:2]
        return None, None
    return (a + [None, None])[:2]


def counts_from_zero(i, T, j, k, val, key):
    v = inner(val)
    lo, it = T[j].extra or {}, T[k].extra or {}
    for L, (en, fr) in lo.items():
        if v == fr:
            c, d = i.lin(it.get(L, fr))
            return en == ("c", 0) and c == 1 and d == {fr: 1}
    # the size of the map before it is entered
    if size_of(v) is not None and names_in(v, lambda s: "index_map" in s):
        return True
    # the distance of the element from the first
    e = next((t for t in find(key, lambda t: t[0] in ("e", "elt") and len(t) == 3)), None)
    return e is not None and inner(e[2]) == v


def find(t, pred):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str) and pred(t):
            yield t
        for x in t:
            yield from find(x, pred)


# ------------------------------------------------------------ example
def example(ck, m):
    for f in ctors(ck, m, EX, 2):
        at, w = short(f.name), f.where()
        i, rs = run_fn(ck, m, f)
        n = 0
        sc, ft = ("obj", "arg0"), ("obj", "arg1")
        for r in rs:
            T = r.trace
            for j, k, how in loop_segments(T):
                if how == "iter" and any(a[0] == "more" and mentions(a[1], lambda x: x == ft or x == ("f", ("obj", "this"), "features_")) for a, v in facts(T[j:k])):
                    ok = any(a[0] == "has" and v and mentions(a[1], lambda x: x == ft or x == ("f", ("obj", "this"), "features_")) for a, v in facts(T[j:k]))
                    ck.ob("the features of an example exist", at, ok, "a null feature is accepted", w)
            if r.outcome != "return":
                continue
            n += 1
            fl = fields(T)
            ck.ob("the schema is the one given", at, inner(fl.get("schema_")) == sc, "it is another", w)
            ck.ob("the features are those given", at, inner(fl.get("features_")) == ft, "they are others", w)
            fs = facts(T)
            ok = any(v and a[0] in ("eq", "eq0") and (a[0] == "eq" or a[1] == 0) and len(ts(a)) == 2 and all(size_of(t) is not None for t in ts(a))
                     and any(names_in(t, lambda s: s in ("attributes_", "mlio::Schema::attributes")) and mentions(t, lambda x: x == sc or x == ("f", ("obj", "this"), "schema_")) for t in ts(a))
                     and any(mentions(t, lambda x: x == ft or x == ("f", ("obj", "this"), "features_")) for t in ts(a)) for a, v in fs)
            ck.ob("an example has a feature for every attribute", at, ok, "another number of them is accepted", w)
            ok = any(a[0] == "has" and v and inner(a[1]) in (sc, ("f", ("obj", "this"), "schema_")) for a, v in fs)
            ck.ob("an example has a schema", at, ok, "a null schema is accepted", w)
            ok = any(a[0] in ("more", "pos", "eq0", "eq") and mentions(a, lambda x: x == ft or x == ("f", ("obj", "this"), "features_")) for a, v in fs)
        ck.ob("examples can be made", at, n > 0, "the constructor always throws", w)
        looked = any(e.kind == "fact" and e.name[0] == "has" and mentions(e.name[1], lambda x: isinstance(x, tuple) and x and x[0] in ("e", "elt")) for r in rs for e in r.trace) or \
            any(e.kind == "call" and last(e.name) in ("find", "any_of", "all_of", "none_of", "find_if", "count") for r in rs for e in r.trace)
        ck.ob("the features of an example exist", at, looked, "null features are accepted", w)
    g = m.method(EX, "find_feature")
    ck.need(g is not None and g.body is not None, "Example::find_feature")
    i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short == "get_index")
    at, w = short(g.name), g.where()
    got = {True: 0, False: 0}
    for r in rs:
        if r.outcome != "return":
            continue
        gi = [e for e in evs(r.trace, "call") if last(e.name) == "get_index"]
        ok = len(gi) >= 1 and all(e.args and inner(e.args[0]) == ("obj", "arg0") and whose(e.obj, "schema_") for e in gi)
        ck.ob("a feature is found through the schema, by the name asked for", at, ok, "something else is looked up", w)
        v = inner(r.value)
        if not gi:
            continue
        has = next((b for a, b in facts(r.trace) if a[0] == "has" and a[1] == gi[0].extra), None)
        if v == ("null",):
            got[False] += 1
            ck.ob("a feature that exists is found", at, has is False, "nothing is answered for it", w)
        else:
            got[True] += 1
            ck.ob("only a feature that exists is found", at, has is True, "a feature is answered for another name", w)
            x = v[2] if isinstance(v, tuple) and v[0] in ("e", "elt") else v[3][0] if isinstance(v, tuple) and meth(v, "at", "operator[]") is not None else None
            ok = x is not None and whose(v, "features_") and isinstance(inner(x), tuple) and inner(x)[0] in ("fld", "m") and mentions(x, lambda t: t == gi[0].extra)
            ck.ob("the feature found is the one at the position of its attribute", at, ok, "it is %s" % show(v)[:80], w)
    ck.ob("features are found", at, got[True] > 0, "nothing is ever found", w)
    ck.ob("unknown features are not found", at, got[False] > 0, "something is always found", w)


# ------------------------------------------------------------ equality
def cases(r):
    """({fact: truth}, answer) of the path"""
    fs = dict(facts(r.trace))
    v = peel(r.value)
    if isinstance(v, tuple) and v and v[0] == "cond":
        return [({**fs, v[1]: b}, b is v[2]) for b in (True, False)]
    return [(fs, bool(v[1]) if isinstance(v, tuple) and v and v[0] == "c" else None)]


VALUES = ("mlio::Attribute", "mlio::Schema", "mlio::Device", "mlio::Device_kind", "mlio::Text_encoding")


def equality(ck, m):
    for c in sorted(m.classes):
        if c not in VALUES:
            continue
        sn = c.split("::")[-1]
        eqs = [f for f in m.fns.values() if f.short == "operator==" and f.body is not None and "/mlio/" in f.file and len(f.params) == 2 and all(short_type(p["t"]) == sn for p in f.params) and not f.cls]
        if not eqs:
            continue
        f = eqs[0]
        i, rs = run_fn(ck, m, f)
        at, w = "operator==(%s)" % sn, f.where()
        fl = sorted(nm_ for nm_ in field_names(m, c))
        compared = set()
        table = [x for r in rs if r.outcome == "return" for x in cases(r)]
        for r in rs:
            if r.outcome != "return":
                continue
            fs = facts(r.trace)
            v = peel(r.value)
            eqf = {n for a, b in fs if b for n in same_field(a)}
            nef = {n for a, b in fs if not b for n in same_field(a)}
            if v in (("c", True), ("c", 1)):
                compared |= eqf
                need(ck, at, w, sn, fl, eqf)
            elif v in (("c", False), ("c", 0)):
                ck.ob("equal objects compare equal", at, bool(nef), "they differ although no part is known to differ", w)
            elif isinstance(v, tuple) and v[0] == "cond":
                s = same_field(v[1])
                compared |= eqf | set(s)
                ck.ob("objects are compared part by part", at, bool(s) and v[2] is True, "the answer is %s" % show(v)[:80], w)
                need(ck, at, w, sn, fl, eqf | set(s))
        ne = [g for g in m.fns.values() if g.short == "operator!=" and g.body is not None and "/mlio/" in g.file and len(g.params) == 2 and all(short_type(p["t"]) == sn for p in g.params)]
        for g in ne[:1]:
            i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short == "operator==")
            for r in rs:
                v = peel(r.value)
                if r.outcome != "return":
                    continue
                x = next((e.extra for e in evs(r.trace, "call") if last(e.name) == "operator=="), None)
                whole = lambda a: a[0] == "eq" and {inner(a[1]), inner(a[2])} == {("obj", "arg0"), ("obj", "arg1")} or a[0] == "has" and x is not None and a[1] == x
                known = next((b for a, b in facts(r.trace) if whole(a)), None)
                ok = isinstance(v, tuple) and v and (v[0] == "cond" and v[2] is False and whole(v[1]) or x is not None and v == ("not", x) or v[0] == "c" and known is (not v[1]))
                if known is None and x is None and not ok:
                    # the two are compared case by case
                    ok = all(b is not d for a, b in cases(r) for c_, d in table if not any(k in a and a[k] is not y for k, y in c_.items()))
                ck.ob("objects that are not equal compare unequal", "operator!=(%s)" % sn, ok, "it answers %s" % show(v)[:60], g.where())
        hs = [g for g in m.fns.values() if g.short == "operator()" and g.body is not None and g.cls and g.cls.replace(" ", "") in ("std::hash<%s>" % c,) and g.params]
        for g in hs[:1]:
            i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short.startswith("hash_"))
            used = set()
            for r in rs:
                for e in r.trace:
                    if e.kind in ("call", "enter", "return") and e.args:
                        used |= {n for n in fl if any(names_in(a, lambda s: s == n) for a in e.args)}
                        if any(inner(a) in (("addr", ("obj", "arg0")), ("obj", "arg0")) for a in e.args) and last(e.name).startswith("hash_"):
                            used.add("its address")
            extra = used - compared
            ck.ob("equal objects have equal hashes", "hash<%s>" % sn, not extra, "the hash depends on %s, which is not compared" % ", ".join(sorted(extra)), g.where())


def need(ck, at, w, sn, fl, got):
    cached = {"name_index_map_", "hash_", "bits_", "size_"}
    for n in fl:
        if n in cached or sn == "Schema" and n != "attributes_":
            continue
        ck.ob("only equal objects compare equal", at, n in got, "objects that differ in %s compare equal" % n, w)


def field_names(m, c):
    out = []
    for x in m.fields(c) or ():
        d = x[1]
        out.append(d if isinstance(d, str) else d["n"])
    return out


def same_field(a):
    """the field (path) for which the atom says that both objects have the same"""
    if a[0] == "eq":
        x, y = a[1], a[2]
    elif a[0] == "eq0" and a[1] == 0 and len(a[2]) == 2 and sorted(c for _, c in a[2]) == [-1, 1]:
        x, y = a[2][0][0], a[2][1][0]
    else:
        return []
    def path(t):
        p = []
        t = inner(t)
        while isinstance(t, tuple) and t and t[0] in ("f", "fld", "*", "init", "addr"):
            if t[0] in ("f", "fld"):
                p.append(t[2])
            t = t[1]
        return t, tuple(p)
    (o, p), (q, s) = path(x), path(y)
    return [p[-1]] if p and p == s and {o, q} == {("obj", "arg0"), ("obj", "arg1")} else []


# ------------------------------------------------------------ getters
GET = {"mlio::Tensor": {"shape": "shape_", "strides": "strides_", "data_type": "data_type_"},
       "mlio::Dense_tensor": {"data": "data_"}, "mlio::Coo_tensor": {"data": "data_", "indices": "coordinates_"},
       "mlio::Csr_tensor": {"data": "data_", "indices": "indices_", "indptr": "indptr_"},
       "mlio::Attribute": {"name": "name_", "data_type": "data_type_", "shape": "shape_", "strides": "strides_", "sparse": "sparse_"},
       "mlio::Schema": {"attributes": "attributes_"}, EX: {"schema": "schema_", "features": "features_"}}


def getters(ck, m):
    for c, d in GET.items():
        for g in m.methods(c):
            if g.body is None or g.short not in d:
                continue
            i, rs = run_fn(ck, m, g)
            for r in rs:
                if r.outcome != "return":
                    continue
                v = r.value
                own = set()
                def see(t):
                    if isinstance(t, tuple) and len(t) == 3 and t[0] in ("f", "fld") and t[1] == ("obj", "this"):
                        own.add(t[2])
                    return False
                mentions(v, see)
                for e in r.trace:
                    if e.kind in ("call", "deref", "ctor") and g.short not in ("name",):
                        mentions((e.obj,) + tuple(e.args), see)
                ck.ob("%s is the %s it was made with" % (g.short, g.short), short(g.name), own == {d[g.short]}, "it answers %s" % show(v)[:60], g.where())
                if g.short == "indices" and g.params:
                    ok = any(e.kind == "call" and last(e.name) in ("at", "operator[]") and e.args and inner(e.args[0]) == ("obj", "arg0") for e in r.trace) or mentions(v, lambda t: isinstance(t, tuple) and t and t[0] in ("e", "elt") and inner(t[2]) == ("obj", "arg0"))
                    ck.ob("the indices are those of the dimension asked for", short(g.name), ok, "they are %s" % show(v)[:60], g.where())
                    ok = any(e.kind == "call" and last(e.name) == "at" for e in r.trace) or any(a[0] in ("pos",) for a, v_ in facts(r.trace))
                    ck.ob("a dimension that does not exist is refused", short(g.name), ok, "any dimension is accepted", g.where())


# ------------------------------------------------------------ visitors
def visitors(ck, m):
    for c in ("mlio::Dense_tensor", "mlio::Coo_tensor", "mlio::Csr_tensor"):
        n = 0
        for g in m.methods(c):
            if g.short != "accept" or g.body is None:
                continue
            n += 1
            i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short == "visit")
            for r in rs:
                if r.outcome != "return":
                    continue
                v = [e for e in r.trace if e.kind == "call" and last(e.name) == "visit"]
                typ = [t for e in v for t in param_types(m, e)]
                ok = len(v) == 1 and v[0].args and inner(v[0].args[0]) in (("obj", "this"), ("*", ("obj", "this"))) or len(v) == 1 and mentions(v[0].args, lambda t: t == ("obj", "this"))
                ck.ob("a visitor visits the tensor that accepts it", short(g.name), ok, "%d tensors are visited" % len(v), g.where())
                ck.ob("a visitor sees the kind of the tensor", short(g.name), not typ or all(short_type(t) == c.split("::")[-1] for t in typ), "it sees a %s" % ", ".join(typ), g.where())
        ck.ob("tensors accept visitors", c, n >= 2, "%d of them" % n, "src/mlio/tensor.cc")
    for g in m.methods("mlio::Tensor_visitor"):
        if g.short != "visit" or g.body is None or not g.params:
            continue
        i, rs = run_fn(ck, m, g, opaque=lambda fn: fn.short == "visit" and fn.id != g.id)
        base = short_type(g.params[0]["t"]) == "Tensor"
        for r in rs:
            if base:
                ck.ob("a visitor that does not know a kind of tensor says so", short(g.name), r.outcome != "return", "the tensor is passed over", g.where())
            else:
                v = [e for e in r.trace if e.kind == "call" and last(e.name) == "visit"]
                ok = r.outcome != "return" or len(v) == 1 and all(short_type(t) == "Tensor" for e in v for t in param_types(m, e))
                ck.ob("a kind of tensor that a visitor does not know is one of any kind to it", short(g.name), ok, "the tensor is passed over", g.where())


def param_types(m, e):
    n = e.node if isinstance(e.node, dict) else {}
    f = m.fns.get(n.get("id"))
    if f is not None and f.params:
        return [f.params[0]["t"]]
    return []


# ------------------------------------------------------------ nothing changes afterwards
def constant(ck, m):
    n = 0
    for c, d in GET.items():
        fl = set(d.values()) | ({"name_index_map_"} if c == "mlio::Schema" else set())
        for g in m.methods(c):
            if g.body is None or g.is_ctor or g.is_dtor or g.short in ("operator=", "accept"):
                continue
            i, rs = run_fn(ck, m, g, opaque=lambda fn: True)
            n += 1
            bad = [e for r in rs for e in r.trace if e.kind in ("write", "lwrite") and e.name != "*" and isinstance(e.obj, tuple) and e.obj and names_in(e.obj, lambda s: s in fl) and mentions(e.obj, lambda t: t == ("obj", "this"))]
            ck.ob("a finished object does not change", short(g.name), not bad, "%s is written" % (bad[0].name if bad else ""), g.where())
    ck.ob("a finished object does not change", "tensors, attributes, schemas and examples", n > 0, "no function was looked at", "include/mlio")
