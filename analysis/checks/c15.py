"""Objects with shared ownership live exactly as long as something refers to them."""
import itertools
import os
from util import *
from absint import Interp, show
from model import calls, walk, unwrap, targs
from shapes import Eval, Heap, Fault, Unsupported

ASSUMPTIONS = ["std::atomic, std::exchange, std::swap, std::move and std::forward do what the standard says",
               "an object is reached through Intrusive_ptr or for the length of a call only; views (spans, references, iterators) that outlive their owner are beyond this check"]
PTR, CNT = "mlio::Intrusive_ptr", "mlio::Intrusive_ref_counter"


def run(ck):
    m = ck.model("core", "py", "probe")
    pointer(ck, m)
    counter(ck, m)
    made(ck, m)
    ends(ck, m)


# ------------------------------------------------------------ the pointer
def shapes(other, alias):
    """Every heap that a method with (or without) an argument of the pointer class can meet."""
    for tv in (None, "P"):
        for ov in ((None, "P", "O") if other else (None,)):
            if ov == "P" and tv is None:
                continue
            for oh in ((None, "P") if other and tv == "P" and ov != "P" else (None,)):
                for th in ((None, "P") if tv == "P" else (None,)):
                    for ep in (0, 1):
                        h = Heap()
                        h.val["this"], h.home["this"] = tv, th
                        if other:
                            h.val["other"], h.home["other"] = ov, oh
                        h.ext = {"P": ep, "O": 0}
                        for x in ("P", "O"):
                            n = sum(1 for v in h.val.values() if v == x) + h.ext[x]
                            if n:
                                h.obj(x, n)
                        yield h
    if alias:
        for tv in (None, "P"):
            for th in ((None, "P") if tv else (None,)):
                h = Heap()
                h.val["this"], h.home["this"] = tv, th
                h.ext = {"P": 0, "O": 0}
                if tv:
                    h.obj("P", 1)
                h.alias = True
                yield h


def describe(h):
    def one(p):
        return "%s %s" % (p, "is empty" if h.val[p] is None else "refers to %s" % h.val[p]) + (" and lives in %s" % h.home[p] if h.home.get(p) else "")
    return ", ".join(one(p) for p in sorted(h.val)) + (", the argument is *this" if getattr(h, "alias", False) else "") + (", others refer to P" if h.ext["P"] else "")


def consistent(h):
    """Every count is the number of those who refer to the object."""
    for x, rc in sorted(h.rc.items()):
        n = sum(1 for p, v in h.val.items() if v == x and p not in h.dead) + h.ext.get(x, 0)
        if x in h.dead:
            if n:
                return "an object has ended to which %d still refer" % n
        elif n != rc:
            return "the count is %d where %d refer to the object" % (rc, n)
        elif n == 0:
            return "an object that nobody refers to stays"
    return None


def pointer(ck, m):
    fs = [f for f in m.fns.values() if f.cls and f.cls.split("<")[0] == PTR and f.body is not None]
    ck.need(fs, "the methods of Intrusive_ptr")
    done, skipped = 0, []
    seen = set()
    for f in sorted(fs, key=lambda f: (f.cls, f.line)):
        if f.short not in ("(ctor)", "(dtor)", "operator=", "release", "get", "operator->", "operator*", "operator bool", "reset", "swap"):
            continue
        same = any(p["t"].replace("const ", "").rstrip("& ") == f.cls for p in f.params)
        kinds = tuple(param_kind(p["t"]) for p in f.params)
        k = (f.short, kinds, same)
        probe = "probe::" in f.cls
        if k in seen and not probe:
            continue
        seen.add(k)
        ck.saw(f)
        other = any(x in ("copy", "move") for x in kinds)
        what = "Intrusive_ptr::%s(%s)" % (f.short, ", ".join(kinds))
        for h in shapes(other, same and f.short == "operator="):
            if f.short == "(ctor)" and h.val["this"] is not None:
                continue
            for extra in extras(kinds):
                try:
                    one(ck, m, f, what, kinds, h, extra)
                    done += 1
                except Unsupported as e:
                    skipped.append("%s: %s" % (what, e))
    ck.need(done > 20, "methods of Intrusive_ptr that can be evaluated (%s)" % "; ".join(sorted(set(skipped))[:3]))
    if skipped and os.environ.get("VERIF_DEBUG"):
        print(sorted(set(skipped)))
    compare(ck, m)


def param_kind(t):
    if "nullptr_t" in t:
        return "null"
    if t.split("<")[0].replace("const ", "") == PTR:
        return "move" if t.endswith("&&") else "copy"
    return "bool" if t == "bool" else "raw"


def extras(kinds):
    """The values of the other parameters."""
    d = {"bool": (True, False), "raw": (None, "R"), "null": (None,), "copy": ("other",), "move": ("other",)}
    return list(itertools.product(*(d[k] for k in kinds)))


def one(ck, m, f, what, kinds, h0, extra):
    import copy
    h = copy.deepcopy(h0)
    alias = getattr(h0, "alias", False)
    other = "this" if alias else "other"
    args = []
    for k, v in zip(kinds, extra):
        if k == "raw" and v == "R":
            h.obj("R", 1)
            h.ext["R"] = 1
            args.append("R")
        else:
            args.append(("p", other) if v == "other" else v)
    if f.short == "(ctor)":
        h.home["this"] = None
        h.val.pop("this")
    if f.short == "(ctor)" and "raw" in kinds and extra[kinds.index("raw")] == "R" and False in extra:
        h.ext["R"] = 0              # the reference is handed over
    before = {p: h0.val.get(p) for p in ("this", "other")}
    if alias:
        before["other"] = before["this"]
    E = Eval(m, PTR, h, "intrusive_ptr_inc_ref", "intrusive_ptr_dec_ref")
    where = "" + f.where()
    shape = describe(h0)
    try:
        r = E.call(f, "this", args)
    except Fault as e:
        ck.ob("no pointer or object is used after its end", what, False, "%s (%s)" % (e, shape), where)
        return
    ck.ob("no pointer or object is used after its end", what, True, "", where)
    if f.short == "(dtor)":
        h.dead.add("this")
    if f.short == "release":
        if before["this"]:
            h.ext[before["this"]] = h.ext.get(before["this"], 0) + 1     # now the caller has the reference
    bad = consistent(h)
    ck.ob("the count is the number of references", what, bad is None, "%s (%s)" % (bad, shape), where)
    # the values
    now = h.val.get("this") if "this" not in h.dead else None
    gone = "this" in h.dead
    want = None
    if f.short in ("(ctor)", "operator="):
        want = before["other"] if ("copy" in kinds or "move" in kinds) else extra[kinds.index("raw")] if "raw" in kinds else None
        if alias and "move" in kinds:
            ok = now in (before["this"], None)
        else:
            ok = gone and f.short != "(ctor)" or now == want
        ck.ob("a pointer refers to what it was given", what, ok, "it refers to %s instead of %s (%s)" % (now, want, shape), where)
        if other == "other" and "other" not in h.dead and ("copy" in kinds or "move" in kinds):
            o = h.val.get("other")
            ck.ob("copying leaves the source alone, moving empties it", what, o == (before["other"] if "copy" in kinds else None), "the source refers to %s (%s)" % (o, shape), where)
        if f.short == "operator=" and r is not None:
            ck.ob("an assignment returns the pointer", what, r == ("p", "this"), "something else is returned", where)
    elif f.short in ("get", "operator->", "release"):
        ck.ob("a pointer hands out what it refers to", what, r == before["this"], "it is %s instead of %s" % (r, before["this"]), where)
        if f.short == "release":
            ck.ob("a pointer hands out what it refers to", what + " empties", now is None, "it still refers to %s" % now, where)
    elif f.short == "operator*":
        ck.ob("a pointer hands out what it refers to", what, r in (("o", before["this"]), before["this"]), "it is another object", where)
    elif f.short == "operator bool":
        ck.ob("a pointer hands out what it refers to", what, bool(r) == (before["this"] is not None), "it is %s (%s)" % (r, shape), where)


def compare(ck, m):
    """== and != of two pointers, and what makes pointers."""
    n = 0
    for f in sorted((f for f in m.fns.values() if f.short in ("operator==", "operator!=") and f.body is not None and f.params and any(param_kind(p["t"]) in ("copy", "move") for p in f.params) and
                     all(param_kind(p["t"]) in ("copy", "null") for p in f.params) and "mlio::Intrusive_ptr<" in f.params[0]["t"] + f.params[-1]["t"]), key=lambda f: (f.file, f.line, f.id)):
        kinds = [param_kind(p["t"]) for p in f.params]
        for l, r in itertools.product((None, "P"), (None, "P", "O")):
            h = Heap()
            vals = []
            for k, name, v in zip(kinds, ("l", "r"), (l, r)):
                h.val[name] = v
                vals.append(None if k == "null" else v)
            for x in ("P", "O"):
                h.obj(x, 2)
            args = [None if k == "null" else ("p", name) for k, name in zip(kinds, ("l", "r"))]
            try:
                res = Eval(m, PTR, h, "intrusive_ptr_inc_ref", "intrusive_ptr_dec_ref").call(f, None, args)
            except (Unsupported, Fault):
                continue
            n += 1
            ck.ob("pointers are equal if they refer to the same object", "%s(%s)" % (f.short, ", ".join(kinds)), bool(res) == ((vals[0] == vals[1]) == (f.short == "operator==")), "%s and %s give %s" % (vals[0], vals[1], res), f.where())
    for f in sorted((f for f in m.fns.values() if f.name.split("<")[0] in ("mlio::make_intrusive", "mlio::wrap_intrusive") and f.body is not None), key=lambda f: f.id):
        for inc in ((True, False) if f.short.startswith("wrap") else (True,)):
            h = Heap()
            h.obj("R", 1)
            h.ext = {"R": 1 if inc else 0}
            E = Eval(m, PTR, h, "intrusive_ptr_inc_ref", "intrusive_ptr_dec_ref")
            try:
                r = E.call(f, None, ["R", inc] if f.short.startswith("wrap") else [None] * len(f.params))
            except (Unsupported, Fault):
                continue
            n += 1
            ok = isinstance(r, tuple) and r[0] == "p" and r[1] not in h.dead and (h.val.get(r[1]) == "R" if f.short.startswith("wrap") else h.val.get(r[1]) in h.rc and h.val.get(r[1]) not in (None, "R"))
            if not f.short.startswith("wrap"):
                h.rc.pop("R")
            bad = consistent(h) if ok else "the result does not refer to it"
            ck.ob("a new object has one reference", short(f.name).split("<")[0], ok and bad is None, bad or "", f.where())
    ck.need(n, "comparisons of pointers")


# ------------------------------------------------------------ the count
def counter(ck, m):
    cs = sorted(c for c in m.classes if c.split("<")[0] == CNT)
    ck.need(cs, "the classes that count references")
    for c in cs[:1]:
        at = [x[1] for x in m.fields(c) if x[0] == c and x[1]["t"].startswith("std::atomic<")]
        ck.ob("references are counted in an atomic", c.split("<")[0], len(at) == 1, "the count is %s" % ", ".join(x[1]["t"] for x in m.fields(c)), "")
    count = {x["n"] for c in cs for (k, x) in m.fields(c) if k == c and x["t"].startswith("std::atomic<")}
    for f in sorted((f for f in m.fns.values() if (f.cls or "").split("<")[0] == CNT and f.short in ("(ctor)", "operator=") and f.body is not None), key=lambda f: (f.line, f.id)):
        i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.file != f.file)
        for r in ck.interp_done(i, i.run(f)):
            bad = [e for e in r.trace if e.kind in ("write", "lwrite", "initf") and e.obj and e.obj[0] == "f" and e.obj[2] in count and e.obj[1] == ("obj", "this") and (f.short == "operator=" or not zero(e.args[0]))]
            # a copied object starts with no references; an assigned one keeps its own
            ck.ob("a copy of an object does not inherit references", "%s(%s)" % (f.short, ", ".join("move" if p["t"].endswith("&&") else "copy" for p in f.params)), not bad, "the count is changed", f.where())
    for name, step in (("intrusive_ptr_inc_ref", 1), ("intrusive_ptr_dec_ref", -1)):
        fs = sorted((f for f in m.fns.values() if f.short == name and f.body is not None), key=lambda f: f.id)
        ck.need(fs, name)
        seen = set()
        for f in fs:
            T = (targs(f.params[0]["t"].replace("const ", "")) or ["?"])[0]
            if (f.file, f.line) in seen and "probe" not in T:
                continue
            seen.add((f.file, f.line))
            one_step(ck, m, f, name, step, T)


def zero(v):
    return v in (("c", 0), ("c", False)) or isinstance(v, tuple) and v[:1] == ("new",) and (len(v) < 4 or v[3] == ("c", 0))


RMW = {"fetch_add": 1, "operator++": 1, "operator+=": 1, "fetch_sub": -1, "operator--": -1, "operator-=": -1}


def one_step(ck, m, f, name, step, T):
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.file != f.file)
    rs = ck.interp_done(i, i.run(f))
    deleted = kept = 0
    for r in rs:
        on = [e for e in r.trace if e.kind == "call" and isinstance(e.name, str) and e.name.startswith(("std::atomic", "std::__atomic")) and isinstance(e.obj, tuple)]
        ws = [e for e in r.trace if e.kind == "write" and isinstance(e.obj, tuple) and on and e.obj == on[0].obj]
        ok = len(on) == 1 and RMW.get(on[0].name.split("::")[-1]) == step and len(ws) == 1 and step_of(ws[0].args[0], on[0].obj) == step
        ck.ob("one reference is counted by one atomic step", name, ok, "%s" % ("the count changes by something else" if len(on) == 1 else "it takes %d operations" % len(on)), f.where())
        if not ok or step > 0:
            ck.ob("the last reference ends the object", name, step < 0 or not any(e.kind == "delete" for e in r.trace), "taking a reference ends it", f.where())
            continue
        d = [e for e in r.trace if e.kind == "delete"]
        deleted += bool(d)
        kept += not d
        last = is_last(r, ws[0].args[0])
        ck.ob("the last reference ends the object", name, bool(d) == (last is True) and len(d) < 2 and last is not None,
              "it %s when %s" % ("ends" if d else "stays", "it is not known whether this was the last reference" if last is None else "this was the last reference" if last else "others remain"), f.where())
        order = next((a[1].split("_")[-1] if "acq_rel" not in a[1] and "seq_cst" not in a[1] else a[1].split("memory_order_")[-1] for a in on[0].args if isinstance(a, tuple) and a[0] == "enum" and "memory_order" in a[1]), "seq_cst")
        fence = any(e.kind == "call" and e.name == "std::atomic_thread_fence" and any("acq" in str(a) or "seq_cst" in str(a) for a in e.args) for e in r.trace)
        ck.ob("what others did to the object happens before its end", name, order in ("acq_rel", "seq_cst") or order == "release" and (fence or not d), "the order is %s" % order, f.where())
    if step < 0:
        ck.ob("the last reference ends the object", name + " has both outcomes", deleted and kept, "%d paths end it, %d do not" % (deleted, kept), f.where())
        for n in walk(f.body):
            if isinstance(n, dict) and n.get("k") == "delete":
                t = str(unwrap_cast(n.get("e")))
                ck.ob("the whole object ends", name, t.replace("const ", "").rstrip("* ") == T, "what is deleted is a %s" % t, f.where())


def unwrap_cast(e):
    while isinstance(e, dict) and e.get("k") == "paren":
        e = e["e"]
    return e.get("t") if isinstance(e, dict) else None


def step_of(v, L):
    if isinstance(v, tuple) and v[:1] == ("lin",) and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0] == ("init", L):
        return v[1]
    return None


def is_last(r, new):
    """Do the facts of the path say that the new count is zero?"""
    items = dict(new[2])
    for e in r.trace:
        if e.kind == "fact" and isinstance(e.name, tuple):
            a = e.name
            if a[0] == "eq0":
                d = dict(a[2])
                if set(d) == set(items) and all(abs(d[k]) == abs(items[k]) for k in d):
                    s = 1 if all(d[k] == items[k] for k in d) else -1
                    if s * a[1] == new[1]:
                        return e.args[0]
            if a[0] == "has" and a[1] == new:
                return not e.args[0]
    return None


# ------------------------------------------------------------ the objects
def counted(m):
    return sorted(c for c in m.classes if any(b.startswith(CNT + "<") for b in m.bases(c)))


def made(ck, m):
    """A new object is referred to before anything else can happen; references are not made out of thin air."""
    cs = set(counted(m))
    for f in sorted((f for f in m.fns.values() if f.body is not None and (f.cls or "").split("<")[0] not in (PTR, CNT) and "probe" not in f.name), key=lambda f: (f.file, f.line, f.id)):
        ns = [n for n in walk(f.body) if isinstance(n, dict)]
        news = [n for n in ns if n.get("k") == "new" and n.get("nt", "").replace("const ", "") in cs]
        if news and f.short != "make_intrusive":
            i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.cls not in cs or fn.short != "(ctor)")
            for r in ck.interp_done(i, i.run(f)):
                new_path(ck, f, r, cs)
        for n in ns:
            k, fn = n.get("k"), n.get("fn") or ""
            if k == "delete":
                t = str(unwrap_cast(n.get("e"))).replace("const ", "").rstrip("* ")
                ck.ob("only the last reference ends an object", short(f.name), t not in cs or f.short == "intrusive_ptr_dec_ref", "a %s is deleted" % t, f.where())
            if k in ("ctor", "call") and (fn == PTR + "::(ctor)" or fn == "mlio::wrap_intrusive") and len(n.get("args") or ()) == 2:
                a = [unwrap(x) for x in n["args"]]
                inc = a[1].get("e", a[1]) if a[1].get("k") == "defarg" else a[1]
                inc = unwrap(inc)
                if inc.get("k") == "bool" and inc.get("v") is False:
                    from_ = a[0].get("k") == "call" and (a[0].get("fn") or "").endswith("::release")
                    ck.ob("a reference that is not counted was counted before", short(f.name), from_, "a pointer adopts a reference that nobody gave up", f.where())
            if k == "call" and fn == PTR + "::release":
                used = any((x.get("fn") in (PTR + "::(ctor)", "mlio::wrap_intrusive")) and len(x.get("args") or ()) == 2 and any(y is n for y in walk(x["args"][0])) for x in ns if x.get("k") in ("ctor", "call"))
                ck.ob("a reference that is given up is taken over", short(f.name), used, "it is lost", f.where())
            if k == "call" and fn.split("::")[-1] in ("intrusive_ptr_inc_ref", "intrusive_ptr_dec_ref"):
                ck.ob("references are counted by pointers only", short(f.name), False, "it changes a count itself", f.where())


def new_path(ck, f, r, cs):
    for k, e in enumerate(r.trace):
        if e.kind != "new" or e.name not in cs:
            continue
        ok = False
        for x in r.trace[k + 1:]:
            if x.kind in ("call", "ctor") and x.name in ("mlio::wrap_intrusive", PTR + "::(ctor)"):
                ok = bool(x.args) and x.args[0] in (("addr", e.obj), e.extra) and (len(x.args) < 2 or x.args[1] == ("c", True))
                break
            if x.kind in ("call", "throw", "return"):
                break
        ck.ob("a new object is referred to at once", "%s %s" % (short(f.name), short(e.name)), ok, "it is not handed to a pointer before anything else happens", f.where())


def ends(ck, m):
    """The end of an object through a pointer to its base runs the destructor of the object."""
    for c in counted(m):
        own = [b for b in m.bases(c) if b.startswith(CNT + "<")]
        T = (targs(own[0]) or ["?"])[0]
        ck.ob("a class counts for itself or for a base", c, T == c or m.derives(c, T), "it counts for %s" % T, "")
        if T == c:
            subs = [x for x in m.classes if x != c and m.derives(x, c)]
            d = next((f for f in m.fns.values() if f.cls == c and f.short == "(dtor)"), None)
            ck.ob("an object ends as what it is", c, not subs or d is not None and bool(d.d.get("virt")), "the destructor is not virtual, but %s derives from it" % (subs[0] if subs else ""), d.where() if d is not None else "")
