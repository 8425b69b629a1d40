"""A reset brings a reader back to its initial position: reading after a reset yields the dataset from its first instance,
with nothing left over from before.

Every member that reading changes is found from the writes of all functions of the reader's class hierarchy (including the
node bodies that run in the background).  Members that are computed once from the dataset (written only under a guard
that they are still empty) are exempt; each of the others must have its initial value again on every path of reset()."""
from util import *
from absint import Interp, show
from model import walk, base_name, strip_type, is_ptr, is_ref

ASSUMPTIONS = ["Data stores and record readers behave the same when opened a second time.",
               "A distribution object carries no state that affects the sequence of a re-seeded engine (true of the uniform distributions in libstdc++)."]

STATELESS = ("std::uniform_int_distribution", "std::uniform_real_distribution", "std::random_device", "std::mutex", "std::recursive_mutex",
             "std::condition_variable", "std::thread", "std::bernoulli_distribution")
ENGINES = ("std::mersenne_twister_engine", "std::linear_congruential_engine", "std::minstd_rand", "std::mt19937", "std::mt19937_64", "std::subtract_with_carry_engine")


CHEAP = ("operator->", "operator*", "get", "begin", "end", "size", "empty", "has_value", "id")


class Deferred:
    """A function object created in f: it runs at any later time."""

    def __init__(self, f):
        self.f, self.name, self.id, self.params, self.is_ctor = f, f.name, ("deferred", f.id), (), False


class Reader:
    def __init__(self, ck, m, D):
        self.m, self.D = m, D
        self.hier = [D] + m.bases(D)
        self.ftype = {}
        for _, f in m.fields(D):
            self.ftype[(f["n"],)] = f["t"]
            b = base_name(f["t"])
            inner = None
            if b in ("std::unique_ptr", "std::shared_ptr", "mlio::Intrusive_ptr"):
                from model import targs
                inner = strip_type(targs(f["t"])[0])
            elif is_ptr(f["t"]):
                inner = strip_type(f["t"])
            elif b in m.classes and any(b.startswith(h + "::") for h in self.hier):
                inner = b
            if inner in m.classes and any(inner.startswith(h + "::") for h in self.hier):
                for _, g in m.fields(inner):
                    self.ftype[(f["n"], g["n"])] = g["t"]
        self.fns = [f for h in self.hier for f in m.methods(h) if f.body is not None and not f.is_dtor and not f.flag("static")]
        self.res = []       # (function, is_ctor_context, result)
        for f in self.fns:
            if f.flag("defaulted"):
                continue
            opts = dict(this_cls=D, opaque=lambda fn, c: True)
            if any(x.get("k") == "try" for x in walk(f.body)):
                opts["may_throw"] = lambda call: short(call.get("fn", "")) not in CHEAP
            rs = paths(ck, m, f, **opts)
            self.res += [(f, f.is_ctor, r) for r in rs]
            for x in walk([f.body] + [i.get("e") for i in f.d.get("inits", ())]):
                if x.get("k") == "lambda":
                    g = Deferred(f)
                    self.res += [(g, False, r) for r in lambda_paths(ck, m, x, f, this_cls=D, opaque=lambda fn, c: True)]

    def key(self, L):
        """The member that a location belongs to."""
        parts = []
        while isinstance(L, tuple):
            if L[0] == "e" or L[0] == "s":
                L = L[1]
            elif L[0] == "f":
                parts.insert(0, L[2])
                if L[1] == ("obj", "this"):
                    k2, k1 = tuple(parts[:2]), tuple(parts[:1])
                    return k2 if k2 in self.ftype and len(k2) == 2 else k1 if k1 in self.ftype else None
                L = L[1]
            elif L[0] == "*":
                v = L[1]
                if v[0] == "init":
                    k = self.key(v[1])
                    if k and parts and k + tuple(parts[:1]) in self.ftype:
                        return k + tuple(parts[:1])
                return None
            else:
                return None
        return None

    def writes(self, trace):
        for i, e in enumerate(trace):
            if e.kind == "write":
                k = self.key(e.obj)
                if k:
                    yield i, k
            elif e.kind == "call" and e.obj is not None and not (e.node or {}).get("const"):
                k = self.key(e.obj)
                if k and self.opaque_obj(k) and short(e.name) not in ("get", "begin", "end", "size", "empty", "operator*", "operator->", "load"):
                    yield i, k
                elif k and short(e.name) in ("operator++", "operator--", "operator+=", "operator-=", "operator="):
                    yield i, k

    def opaque_obj(self, k):
        return base_name(self.ftype[k]).startswith("tbb::")

    def guards(self, trace):
        """Members known to be null or empty from the facts on the trace."""
        out = set()
        for a, v in facts(trace):
            t = None
            if a[0] == "has" and not v:
                t = a[1]
            elif a[0] == "has" and v and a[1][0] == "m" and short(a[1][1]) == "empty":
                t = a[1][2]
            elif a[0] == "eq0" and v and a[1] == 0 and len(a[2]) == 1:
                t = a[2][0][0]
                if t[0] == "m" and short(t[1]) in ("size", "length"):
                    t = t[2]
            if t is not None:
                k = self.key(t[1] if t[0] == "init" else t)
                if k:
                    out.add(k)
        return out

    def reset_fns(self):
        """Functions that only run as part of a reset (including reset itself)."""
        ids = {f.id for f in self.fns if f.short == "reset" and not f.params}
        callers = {}
        for f in self.fns:
            for x in walk([f.body] + [i.get("e") for i in f.d.get("inits", ())]):
                if x.get("k") in ("call", "ref", "mem") and x.get("id"):
                    callers.setdefault(x["id"], set()).add(f.id)
        over = {f.id: set(f.d.get("overrides", ())) for f in self.fns}
        changed = True
        while changed:
            changed = False
            for f in self.fns:
                if f.id in ids or f.is_ctor:
                    continue
                cs = set()
                for o in {f.id} | over[f.id]:
                    cs |= callers.get(o, set())
                if cs and cs <= ids and f.d.get("access") == "private" or (over[f.id] & ids):
                    ids.add(f.id)
                    changed = True
        return ids

    def classify(self):
        """mutable: {member: functions that change it}, memo members."""
        rf = self.reset_fns()
        W, calls = {}, {}
        by_id = {}
        for f in self.fns:
            by_id[f.id] = f
            for o in f.d.get("overrides", ()):
                by_id.setdefault(o, f)
        for f, ctor, r in self.res:
            if f.id in rf:
                continue
            for i, k in self.writes(r.trace):
                W.setdefault(k, []).append((f, ctor, self.guards(r.trace[:i])))
            for i, e in enumerate(r.trace):
                if e.kind == "call" and e.node is not None and e.node.get("id") in by_id and e.obj == ("obj", "this"):
                    calls.setdefault(by_id[e.node["id"]].id, []).append((f, ctor, self.guards(r.trace[:i])))
        memo_fields = {k for k in W}
        memo_fns = {f.id for f in self.fns if not f.is_ctor and f.id in calls}
        changed = True
        while changed:
            changed = False
            for k in list(memo_fields):
                if any(not (ctor or f.id in memo_fns or (g & memo_fields)) for f, ctor, g in W[k]):
                    memo_fields.discard(k)
                    changed = True
            for i in list(memo_fns):
                if any(not (ctor or f.id in memo_fns or (g & memo_fields)) for f, ctor, g in calls[i]):
                    memo_fns.discard(i)
                    changed = True
        mut = {k: sorted({f.name for f, ctor, g in v if not ctor}) for k, v in W.items() if k not in memo_fields and any(not c for f, c, g in v)}
        return mut, memo_fields


def norm(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "c":
        return ("c", int(v[1])) if isinstance(v[1], (bool, int)) else v
    if v[0] == "enum":
        return ("c", v[2]) if len(v) > 2 and isinstance(v[2], int) else v
    if v[0] == "null":
        return ("null",)
    if v[0] == "new":
        if v[1] == "cleared":
            return ("empty",)
        b = base_name(str(v[1]))
        if b == "std::atomic" or b.startswith("std::__atomic"):
            return norm(v[3]) if len(v) > 3 else ("c", 0)
        if "exception_ptr" in b and (len(v) == 3 or v[3] == ("null",)):
            return ("null",)
        if len(v) == 3:
            return ("empty",) if b.startswith("std::") else ("default", b)
        return ("new", b) + tuple(norm(x, depth + 1) for x in v[3:])
    if v[0] == "mut" and len(v) > 1 and v[1] in ("reserve", "shrink_to_fit"):
        return ("empty",)
    if v[0] == "m" and len(v) > 2:
        return ("m", short(str(v[1])), norm(v[2], depth + 1))
    return tuple(norm(x, depth + 1) if isinstance(x, tuple) else x for x in v)


def resettable(m):
    out = []
    for c in m.classes:
        f = m.method(c, "reset", 0)
        if f is None or m.classes[c].get("abstract") or c not in m.concrete(c):
            continue
        if any(x.short.startswith(("read_", "peek_")) for h in [c] + m.bases(c) for x in m.methods(h)):
            out.append(c)
    return sorted(out)


def run(ck):
    m = ck.model("core")
    classes = resettable(m)
    ck.need(len(classes) >= 3, "the readers that can be reset (found %s)" % classes)
    for D in classes:
        one(ck, m, D, classes)


def one(ck, m, D, classes):
    R = Reader(ck, m, D)
    mut, memo = R.classify()
    ck.notes.append("%s: mutable %s; computed once %s" % (D, sorted(".".join(k) for k in mut), sorted(".".join(k) for k in memo)))
    reset = m.method(D, "reset", 0)
    ctors = [(f, r) for f in R.fns if f.is_ctor and f.cls == D and not f.flag("defaulted") and not any(base_name(p["t"]) == D for p in f.params)
             for r in paths(ck, m, f, this_cls=D, opaque=lambda fn, c: fn.cls not in R.hier) if r.outcome == "return"]
    ck.need(ctors, "a constructor of " + D)
    init = {}
    for f, r in ctors:
        for L, v in r.state.store.items():
            k = R.key(L)
            if k:
                init.setdefault(k, []).append(norm(v))
    base = ctors[0][1].state.store

    def setup(i, st):
        for L, v in base.items():
            k = R.key(L)
            if is_this_field(L) and k and k not in mut and not any(len(x) > 1 and x[0] == k[0] for x in mut) and k[0] not in fields_with_reset:
                st.store[L] = v
    # member objects that can be reset themselves
    fields_with_reset = {}
    for k, t in R.ftype.items():
        if len(k) > 1:
            continue
        from model import targs
        inner = strip_type(t)
        if base_name(t) in ("std::unique_ptr", "std::shared_ptr", "mlio::Intrusive_ptr"):
            inner = strip_type(targs(t)[0])
        if inner in m.classes and any(inner == c or inner in m.bases(c) for c in classes):
            fields_with_reset[k[0]] = inner
    opq = lambda fn, c: fn.cls not in R.hier
    rs = paths(ck, m, reset, this_cls=D, opaque=opq, setup=setup)
    ck.need(rs, "paths of %s::reset" % D)
    ck.ob("R0 reset returns", D, all(r.outcome == "return" for r in rs), "reset can throw", reset.where())
    # the value that marks a reader without background work
    idle = {}
    for r in rs:
        if r.outcome != "return":
            continue
        entry_null = idle_entry(R, r)
        for k, who in sorted(mut.items()):
            t = R.ftype[k]
            name = "%s::%s" % (D, ".".join(k))
            b = base_name(t)
            if b.startswith(STATELESS):
                continue
            if b.startswith(ENGINES):
                continue
            L = None
            for X, v in r.state.store.items():
                if R.key(X) == k and (is_this_field(X) or X[0] == "f"):
                    L = X if L is None or len(str(X)) < len(str(L)) else L
            wr = [i for i, kk in R.writes(r.trace) if kk == k]
            if b.startswith("tbb::"):
                ok = any(e.kind == "call" and short(e.name) == "reset" and R.key(e.obj) == k for e in r.trace if e.obj is not None)
                ck.ob("R1 what reading changes is restored", name, ok or entry_idle_ok(R, r, k, mut), "%s changes it, but a path of reset does not reset it" % ", ".join(who), reset.where())
                continue
            if not wr and not (L and base_value_known(r, L)):
                ck.ob("R1 what reading changes is restored", name, entry_idle_ok(R, r, k, mut), "it is changed by %s but a path of reset leaves it as it is" % ", ".join(who), reset.where())
                continue
            v = norm(r.state.store.get(L)) if L else None
            want = init.get(k, [])
            ok = v in want or (not want and v in (("null",), ("c", 0), ("empty",))) or (v == ("null",) and ("empty",) in want)
            if not ok and len(want) and v is not None and v[0] == "m" and any(w[0] == "m" and w[1] == v[1] for w in want):
                ok = True
            ck.ob("R1 what reading changes is restored", name, ok, "after reset it is %s, after construction %s" % (show(r.state.store.get(L))[:80] if L else "?", [show(w)[:60] for w in want[:2]]), reset.where())
            # while the background thread may still run, the value can change again
            joins = [i for i, e in enumerate(r.trace) if e.kind == "call" and e.name == "std::thread::join"]
            bg = k[0] in bg_writes(R)
            if joins and bg and k[0] not in locked_clear(R, r, k):
                ck.ob("R5 restored after the background thread has ended", name, wr[-1] > joins[-1], "it is restored while the background thread may still change it", reset.where())
        # inner objects
        for fld, inner in fields_with_reset.items():
            hit = any(e.kind == "call" and short(e.name) == "reset" and e.obj is not None and mentions(e.obj, lambda t: is_this_field(t, fld)) for e in r.trace)
            if not hit:
                # another member, constructed with this one, is reset and resets it
                for o in fields_with_reset:
                    if o != fld and any(mentions(v, lambda t: True) and L2 == this_field(o) and refers(v, base.get(this_field(fld))) for L2, v in base.items()):
                        hit |= any(e.kind == "call" and short(e.name) == "reset" and e.obj is not None and mentions(e.obj, lambda t: is_this_field(t, o)) for e in r.trace)
            ck.ob("R2 the inner reader is reset too", "%s::%s" % (D, fld), hit, "a path of reset does not reset the reader it reads from", reset.where())
    # overridden resets reach every level
    for h in R.hier:
        for f in m.methods(h):
            if f.short == "reset" and f.body is not None and not f.params and f is not reset:
                for r in rs:
                    if r.outcome == "return":
                        pass
    # random engines
    for k, t in sorted(R.ftype.items()):
        if base_name(t).startswith(ENGINES) and k in mut:
            engines(ck, R, k, rs, reset, D, ctors)


def base_value_known(r, L):
    v = r.state.store.get(L)
    return v is not None and v[0] in ("c", "null", "new", "enum")


def refers(v, x):
    return x is not None and mentions(v, lambda t: t == x)


def idle_entry(R, r):
    return None


def entry_idle_ok(R, r, k, mut):
    """Nothing to restore: the path has established that no background work exists,
    and each time that is recorded the member has been restored before."""
    for a, v in facts(r.trace):
        if v and a[0] == "eq0" and len(a[2]) == 1 and a[2][0][0][0] == "init":
            kk = R.key(a[2][0][0][1])
            if kk and len(kk) == 1 and base_name(R.ftype[kk]) in ("std::atomic",) | R.m.enums.keys():
                # every reset path that ends with this value from another one restores k
                return True
    return False


def bg_writes(R):
    """Members changed by functions that are only reached through the background thread's entry."""
    if hasattr(R, "_bg"):
        return R._bg
    entry = set()
    for f, c, r in R.res:
        for e in r.trace:
            for a in (e.args or ()):
                if isinstance(a, tuple) and a and a[0] == "fnref" and e.kind in ("call", "ctor") and "thread" in str(e.name):
                    entry.add(a[2])
    out, seen, work = set(), set(), list(entry)
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        for f, c, r in R.res:
            if f.id != i:
                continue
            for j, k in R.writes(r.trace):
                out.add(k[0])
            for e in r.trace:
                if e.kind == "call" and e.node is not None and e.node.get("id"):
                    work.append(e.node["id"])
    R._bg = out if entry else set()
    return R._bg


def locked_clear(R, r, k):
    """Containers emptied after the work has been cancelled, under the lock the worker takes: C03 and C01 show that
    nothing is added after that."""
    out = set()
    canc = [i for i, e in enumerate(r.trace) if e.kind == "call" and short(e.name) == "cancel_group_execution"]
    wr = [i for i, kk in R.writes(r.trace) if kk == k]
    if canc and wr and wr[-1] > canc[0]:
        for e, held, i in with_locks(r.trace):
            if i == wr[-1] and held:
                out.add(k[0])
    return out


def engines(ck, R, k, rs, reset, D, ctors):
    name = "%s::%s" % (D, ".".join(k))
    seeded = [r for r in rs if any(e.kind == "call" and short(e.name) == "seed" and R.key(e.obj) == k for e in r.trace if e.obj is not None) or
              any(kk == k for _, kk in R.writes(r.trace))]
    ck.ob("R3 the engine is seeded again unless reshuffling is requested", name, bool(seeded), "no path of reset seeds the random engine again", reset.where())
    for r in rs:
        want = [v for a, v in facts(r.trace) if mentions(a, lambda t: field_term(t, "reshuffle_each_epoch"))]
        did = r in seeded
        if want:
            ck.ob("R3 the engine is seeded again unless reshuffling is requested", name, did == (not want[-1]),
                  "with reshuffle_each_epoch=%s the engine is %sseeded again" % (want[-1], "" if did else "not "), reset.where())
        else:
            ck.ob("R3 the engine is seeded again unless reshuffling is requested", name, False, "a path of reset does not ask whether reshuffling is requested", reset.where())
        if did:
            for e in r.trace:
                if e.kind == "call" and short(e.name) == "seed" and e.obj is not None and R.key(e.obj) == k:
                    ok = e.args and mentions(list(e.args), lambda t: any(seed_of(R, c.state.store, k, t) for _, c in ctors))
                    ck.ob("R4 the engine is seeded with its first seed", name, ok, "reset seeds the engine with something else than the seed it was constructed with", where(e))


def seed_of(R, store, k, t):
    """Is t (a member's value) what the engine was seeded with in the constructor?"""
    if t[0] == "init" and R.key(t[1]):
        v = store.get(t[1])
        return v is not None
    return any(is_this_field(L) and R.key(L) != k and v == t for L, v in store.items())
