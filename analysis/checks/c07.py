"""A bad instance is handled as asked: error, skip or pad, with the warnings asked for and no others.

Two layers.  The functions that take one instance apart (everything below the decoder of a batch that reports, directly or through
others of them) are each followed on all paths against the contract "a result that means bad was reported once: a warning if warnings
are on, an exception if errors are"; calls of one another are assumed to keep it.  The decoders of a batch are followed on all
paths with those functions as steps, and what they do is compared with every policy that is consistent with the path's decisions."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type, walk, fn_nodes, unwrap
from checks.c08 import BATCH, batch_decoders, run_decoder, modes, narrow, enum_values, warns, is_leaf, truth_of, param_of, is_log, is_param
from checks.c20 import exc_type
from checks.c12 import known
import excflow

ASSUMPTIONS = ["OpenCV, the protobuf library and the field parsers report what they cannot decode by their results or by the exceptions they document.",
               "An image that is too small for the requested dimensions is reported as an invalid argument, as the library's tests demand."]
POLICY = "bad_example_handling"
INST = "mlio::Instance"


def run(ck):
    m = ck.model("core")
    V = enum_values(m, "Bad_example_handling")
    ck.need(V and {"error", "skip", "skip_warn", "pad", "pad_warn"} <= set(V), "the policies for bad examples")
    ds = [d for d in batch_decoders(m)]
    ck.need(len(ds) >= 3, "the decoders of the readers")
    for c, f, leaf in ds:
        fl = flags(ck, m, c, V)
        if leaf:
            instance_layer(ck, m, c, f, leaf, fl, V)
            batch_layer(ck, m, c, f, leaf, V)
        escape(ck, m, f)
    warn_switch(ck, m)


# -- the switches
def reader_classes(m, c):
    return sorted(x for x in m.classes if x == c or x.startswith(c + "::"))


def flags(ck, m, c, V):
    """members that say whether bad instances are errors and whether they are warned about, by what the constructors put into them"""
    out = {}
    for x in reader_classes(m, c):
        for g in m.methods(x):
            if not g.is_ctor or g.body is None or g.flag("defaulted"):
                continue
            i = Interp(m, this_cls=x, peel=0, opaque=lambda fn, call: not fn.is_ctor and fn.short not in ("params", "warn_bad_instances"))
            try:
                rs = i.run(g)
            except Exception:
                continue
            for r in rs:
                for L, v in r.state.store.items():
                    if not is_this_field(L):
                        continue
                    if v[0] == "cond" and v[1][0] == "eq0" and len(v[1][2]) == 1 and is_param(v[1][2][0][0], POLICY):
                        n = -v[1][1] * v[1][2][0][1]
                        ck.ob("F1 the error switch is the policy", x + "::" + L[2], n == V["error"] and v[2], "it is set by another policy than error", g.where())
                        out[L[2]] = "error"
                    elif is_warn_source(v):
                        out[L[2]] = "warn"
    return out


def is_warn_source(v):
    return isinstance(v, tuple) and v[0] == "init" and isinstance(v[1], tuple) and v[1][0] == "f" and "warn_bad" in v[1][2] or \
        isinstance(v, tuple) and v[0] == "m" and short(v[1]) == "warn_bad_instances"


def warn_switch(ck, m):
    """warnings about bad instances are given exactly if the caller asked for them"""
    for c in sorted(m.classes):
        g = m.method(c, "warn_bad_instances")
        if g is None or g.body is None or g.cls != c:
            continue
        rs = Interp(m, this_cls=c).run(g)
        Ls = {r.value[1] for r in rs if r.value and r.value[0] == "init"}
        if len(Ls) != 1:
            continue
        L = Ls.pop()
        for k in m.methods(c):
            if not k.is_ctor or k.body is None or k.flag("defaulted"):
                continue
            i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: is_log(fn))
            for r in ck.interp_done(i, i.run(k)):
                if r.outcome != "return":
                    continue    # no reader is made
                v = r.state.store.get(L)
                asked = [x for a, x in facts(r.trace) if names_in(a, lambda s: s == "warn_bad_instances")]
                on = [x for a, x in facts(r.trace) if names_in(a, lambda s: s.startswith("mlio::logger::"))]
                if asked and not asked[-1]:
                    ok = v is None or v in (("c", 0), ("c", False), ("zero",)) or v == ("init", L)
                    ck.ob("F2 warnings are given if asked for", k.name, ok, "bad instances are warned about although nobody asked", k.where())
                elif asked:
                    ok = v is not None and (names_in(v, lambda s: "is_enabled_for" in s or "level" in s) or v in (("c", 1), ("c", True)) or (on and not on[-1]))
                    ck.ob("F2 warnings are given if asked for", k.name, ok, "bad instances are not warned about although the caller asked (%s)" % show(v), k.where())
                else:
                    ok = v is not None and names_in(v, lambda s: s == "warn_bad_instances")
                    ck.ob("F2 warnings are given if asked for", k.name, ok, "whether bad instances are warned about does not depend on what the caller asked for", k.where())


# -- one instance
def callees(m, f):
    out = set()
    for x in fn_nodes(f):
        if x.get("k") in ("call", "ctor") and x.get("id"):
            g = m.resolve_call(x, f.tu)
            if g is not None:
                out.add(g.id + "@" + g.tu if g.d.get("internal") else g.id)
    return out


def reporters(m, c, leaf):
    """functions of the reader below the leaves that report bad instances, themselves or through others"""
    mine = {g.id: g for g in m.fns.values() if g.body is not None and (g.cls or "").startswith(c) and (g.cls == c or g.cls.startswith(c + "::"))}
    cal = {i: callees(m, g) for i, g in mine.items()}
    reach, todo = set(), list(leaf)
    while todo:
        x = todo.pop()
        if x in reach or x not in mine:
            continue
        reach.add(x)
        todo += list(cal[x])
    rep = {x for x in reach if warns_itself(m, mine[x])}
    while True:
        more = {x for x in reach if cal[x] & rep} - rep
        if not more:
            break
        rep |= more
    result = lambda g: g.ret and strip_type(g.ret) not in ("void",)
    return {x: mine[x] for x in rep if result(mine[x])}, mine


def reports(m, fn, depth=3):
    """does a function warn or throw, itself or through others of its file?"""
    for x in fn_nodes(fn):
        if x.get("k") == "throw":
            return True
        if x.get("k") == "call":
            if is_log_call(x):
                return True
            h = m.resolve_call(x, fn.tu) if x.get("id") else None
            if depth and h is not None and h.body is not None and h.id != fn.id and h.file == fn.file and not h.cls and reports(m, h, depth - 1):
                return True
    return False


def warns_itself(m, fn, depth=3):
    for x in fn_nodes(fn):
        if x.get("k") == "call":
            if is_log_call(x):
                return True
            h = m.resolve_call(x, fn.tu) if x.get("id") else None
            if depth and h is not None and h.body is not None and h.id != fn.id and h.file == fn.file and not h.cls and warns_itself(m, h, depth - 1):
                return True
    return False


def is_log_call(x):
    return (x.get("fn") or "") == "mlio::logger::warn"


def bad_result(i, r):
    """does the result mean that the instance is bad? None: cannot be told"""
    v = r.value
    if v is None:
        return None
    if v == NULL or v in (("c", 0), ("c", False)):
        return True
    if v in (("c", 1), ("c", True)):
        return False
    if v[0] == "cond":
        a = dict(facts(r.trace)).get(v[1])
        return None if a is None else a != v[2]
    if v[0] == "new" and len(v) == 3:
        return True            # an empty object
    for a, x in facts(r.trace):
        if a[0] == "has" and a[1] == v:
            return not x
        if contains(a, v):
            if a[0] == "has" and a[1][0] == "m" and short(a[1][1]) == "empty":
                return x
            if a[0] == "has" or a[0] == "b":
                continue
    if any(e.kind == "catch" for e in r.trace):
        return True
    for a, x in facts(r.trace):
        if a[0] == "has" and isinstance(a[1], tuple) and names_in(a[1], lambda s: s.endswith("::empty")) and x:
            return True
    return None


def state_of(trace, fl, V):
    """(warnings on?, errors on?) as the path decided them"""
    w = e = None
    H = modes(trace, POLICY, V.values())
    if H <= {V["error"]} and H:
        e = True
    elif V["error"] not in H:
        e = False
    for a, v in facts(trace):
        for n, k in fl.items():
            if flag_atom(a, n):
                t = v if a[0] != "eq0" else not v
                if k == "warn":
                    w = t
                else:
                    e = t
        if is_warn_atom(a):
            w = v if a[0] != "eq0" else not v
    return w, e


def flag_atom(a, n):
    t = a[1] if a[0] in ("has", "b") else a[2][0][0] if a[0] in ("eq0", "pos") and len(a[2]) == 1 else None
    return isinstance(t, tuple) and t[0] == "init" and isinstance(t[1], tuple) and t[1][0] == "f" and t[1][2] == n


def is_warn_atom(a):
    t = a[1] if a[0] in ("has", "b") else a[2][0][0] if a[0] in ("eq0", "pos") and len(a[2]) == 1 else None
    return t is not None and is_warn_source(t)


def instance_layer(ck, m, c, f, leaf, fl, V):
    rep, mine = reporters(m, c, leaf)
    hasinst = [x for x in leaf]
    ck.ob("I0 decoding an instance reports what is bad", f.name, bool(rep), "nothing below it reports bad instances", f.where())
    T = enum_values(m, "Max_field_length_handling") or {}
    for g in sorted(rep.values(), key=lambda x: (x.name, x.where())):
        other = {x for x in rep if x != g.id}

        def opaque(fn, call, other=other, g=g):
            if fn.id in other or is_log(fn):
                return True
            if not fn.cls and fn.body is not None and fn.file == g.file and reports(m, fn):
                return False
            if fn.cls and (fn.cls == c or fn.cls.startswith(c + "::")) and fn.id in mine:
                return not helper(m, fn)          # a predicate
            return True
        i = Interp(m, this_cls=g.cls, peel=0, opaque=opaque, may_throw=lambda call: throws_step(m, call))
        rs = ck.interp_done(i, i.run(g))
        w = g.where()
        for r in rs:
            W, E = state_of(r.trace, fl, V)
            nw = len(warns(r.trace))
            below = [e for e in r.trace if e.kind == "call" and isinstance(e.node, dict) and e.node.get("id") in other]
            reported = any(step_bad(r.trace, e) for e in below)
            trunc = 1 if modes(r.trace, "max_field_length_handling", T.values()) == {T.get("truncate_warn")} else 0
            line = w
            if r.outcome == "throw":
                t = exc_type(r)
                if t == "?" or any(e.kind == "rethrow" for e in r.trace) and t is None:
                    continue            # decided by X1: which types escape from the decoder
                if E is True:
                    ck.ob("I3 errors are reported as such", g.name, t in ("mlio::Invalid_instance_error", "std::invalid_argument"), "a bad instance is reported as %s" % t, line)
                    ck.ob("I1 one warning per bad instance if asked for", g.name, W is not None and nw in ((1, 1 + trunc) if W else (0, trunc)),
                          "with warnings %s there are %d before the error" % ("on" if W else "off" if W is False else "not asked about", nw), line)
                else:
                    ck.ob("I2 only the policy error throws", g.name, nw <= trunc and config_only(r, fl), "%s is thrown whether or not bad instances are errors" % t, line)
                continue
            if r.outcome != "return":
                continue
            for e in below:
                used = contains(r.value, e.extra) if isinstance(r.value, tuple) else False
                ck.ob("I8 what a step reports is heeded", "%s > %s" % (g.name, short(e.name)), used or any(contains(a, e.extra) for a, x in facts(r.trace)),
                      "its result is ignored", "%s line %s" % (line, e.line))
            b = bad_result(i, r)
            if b is None and (W is not None or E is not None):
                b = True
            if reported:
                ck.ob("I1 one warning per bad instance if asked for", g.name, nw <= trunc, "what was reported already is reported again", line)
                ck.ob("I5 a bad part makes the instance bad", g.name, b is not False, "a part is bad but the instance is taken for good", line)
                continue
            if b:
                # a result of a step below that is passed on was reported there
                if any(r.value == e.extra or contains(r.value, e.extra) for e in below):
                    continue
                ck.ob("I2 the policy error throws", g.name, E is False, "a bad instance is dropped without an error although bad instances are errors", line)
                ck.ob("I1 one warning per bad instance if asked for", g.name, W is not None and nw in ((1, 1 + trunc) if W else (0, trunc)),
                      "with warnings %s a bad instance causes %d" % ("on" if W else "off" if W is False else "not asked about", nw), line)
            elif b is False:
                ck.ob("I6 a good instance is not reported", g.name, nw <= trunc, "a good instance is warned about", line)
        names(ck, m, g, rs)
        slices(ck, m, g, i, rs)


def helper(m, fn):
    """a function that reports (or only formats) on behalf of its callers: without a result, it is looked into"""
    return strip_type(fn.ret or "") == "void"


def names(ck, m, g, rs):
    """every report says which instance of which store it is about"""
    for r in rs:
        for e in warns(r.trace):
            a = e.args[0] if e.args else None
            if a is None or a[0] == "s":
                continue
            src = [x for x in r.trace if x.kind == "call" and x.extra == a and short(x.name) == "format"]
            for x in src:
                ok = names_in(x.args, lambda s: short(s) == "id" or s == "index_" or short(s) == "index")
                ck.ob("I7 a report names the instance", g.name, ok, "the message does not say which instance is bad", "%s line %s" % (g.where(), x.line))


def slices(ck, m, g, i, rs):
    """a part of an instance is taken only where the instance is known to be long enough: taking it throws otherwise, whatever the policy"""
    for r in rs:
        for k, e in enumerate(r.trace):
            if e.kind != "call" or e.name != "mlio::Memory_slice::subslice" or len(e.args) != 1 or e.args[0] in (("c", 0), ("zero",)):
                continue
            o = i_base(e)
            size = [x.extra for x in r.trace[:k] if x.kind == "call" and x.name == "mlio::Memory_slice::size" and i_base(x) == o]
            ok = any(known(i, r, i.cond_lt(s, e.args[0])) is False for s in size)
            ck.ob("I9 a part is taken only of what is long enough", g.name, ok, "subslice(%s) of what may be shorter" % show(e.args[0]), "%s line %s" % (g.where(), e.line))


def i_base(e):
    return e.extra[2] if isinstance(e.extra, tuple) and e.extra[0] == "m" and len(e.extra) > 2 else e.obj


def step_bad(tr, e):
    """does the path know that the result of a step means that the instance is bad?"""
    v = e.extra
    for a, x in facts(tr):
        if a[0] in ("has", "b") and a[1] == v:
            return not x
        if a[0] in ("eq0", "pos") and len(a[2]) == 1 and a[2][0][0] == v:
            return x if a[0] == "eq0" else not x
        if a[0] in ("has", "b") and isinstance(a[1], tuple) and a[1][0] == "m" and a[1][2:3] == (v,):
            q = short(a[1][1])
            if q == "empty":
                return x
            if q in ("has_value", "operator bool"):
                return not x
    return False


def throws_step(m, call):
    fn = call.get("fn") or ""
    return fn.startswith("cv::") and short(fn) in ("imdecode", "resize", "cvtColor", "copyTo", "operator()") or fn.startswith("mlio::detail::Csv_record_tokenizer::") and short(fn) == "next"


def config_only(r, fl):
    """the last decision before the throw (but for those about the switches) is about the parameters, not about the data"""
    last = None
    for a, v in facts(r.trace):
        if not is_warn_atom(a) and not any(flag_atom(a, n) for n in fl):
            last = a
    return last is not None and not mentions(last, lambda t: isinstance(t[0], str) and of_data(t))


def of_data(t):
    """a value that comes from an instance or out of a step; members of the reader are parameters"""
    if t[0] == "m":
        return len(t) > 2 and t[2] != ("obj", "this") and not names_in(t, lambda s: s.endswith("params_") or s.endswith("params"))
    return t[0] in ("r", "new", "iter") or t[0] == "obj" and t[1] != "this"


# -- a batch
def batch_layer(ck, m, c, f, leaf, V):
    i, rs = run_decoder(ck, m, c, f, leaf)
    names_ = {v: k for k, v in V.items()}
    names_[None] = "an invalid value"
    w = f.where()
    vals = V
    for r in rs:
        H = modes(r.trace, POLICY, V.values())
        lv = [e for e in r.trace if is_leaf(e, m, leaf)]
        bad = any(truth_of(r.trace, e) is False for e in lv)
        nw = len(warns(r.trace))
        par = any(e.kind == "call" and "parallel" in e.name for e in r.trace)
        if par:
            bads = {names_[h] for h in H if h in (V["pad"], V["pad_warn"])}
            ck.ob("B1 padding needs the instances in order", f.name, not bads, "instances are decoded in parallel with %s" % ", ".join(sorted(bads)), w)
        if r.outcome == "throw":
            soft = {names_[h] for h in H if h is not None and h != V["error"]}
            ck.ob("B2 skip and pad do not throw", f.name, not soft, "with %s a bad instance makes the whole read fail" % ", ".join(sorted(soft)), w)
            continue
        if r.outcome != "return":
            continue
        if r.value == NULL:
            for h in H:
                if h in (V["pad"], V["pad_warn"]) or not par and h in (V["error"], None):
                    ck.ob("B3 only skip drops the example", f.name + " " + names_[h], False, "with %s the example is dropped" % names_[h], w)
                elif h == V["skip"]:
                    ck.ob("B4 skip_warn warns once, skip does not", f.name, nw == 0, "with skip a dropped example causes %d warnings" % nw, w)
                elif h == V["skip_warn"]:
                    ck.ob("B4 skip_warn warns once, skip does not", f.name, nw == 1, "with skip_warn a dropped example causes %d warnings" % nw, w)
            if not par:
                ck.ob("B3 only skip drops the example", f.name, bad, "an example is dropped although no instance is bad", w)
            continue
        for h in H:
            if h in (V["pad"], V["pad_warn"]):
                eq = counts_equal(i, r)
                if h == V["pad_warn"]:
                    need = None if eq is None else 0 if eq else 1
                    ck.ob("B5 pad_warn warns once if there were bad instances, pad does not", f.name, need is not None and nw == need,
                          "with pad_warn an example %s causes %d warnings" % ("with bad instances" if eq is False else "without bad instances" if eq else "", nw), w)
                else:
                    ck.ob("B5 pad_warn warns once if there were bad instances, pad does not", f.name, nw == 0, "with pad there are %d warnings" % nw, w)
            elif bad and not par:
                ck.ob("B6 an example with a bad instance is returned only padded", f.name + " " + names_[h], False, "with %s an example is returned in spite of a bad instance" % names_[h], w)
    leftovers(ck, m, c, f, leaf, rs, V)
    # the instances that are decoded in parallel
    for g in [f] + [x for x in m.fns.values() if x.body is not None and x.cls == c and x.id in callees(m, f)]:
        for nd in walk(g.body):
            if nd.get("k") != "lambda":
                continue
            bodies = [nd.get("body")] + [x.get("body") for x in nd.get("insts") or ()]
            if not any(b is not None and any(x.get("k") == "call" and x.get("id") in leaf for x in walk(b)) for b in bodies):
                continue
            worker(ck, m, c, g, nd, leaf, V, names_)


GROW = {"insert", "push_back", "emplace_back", "append"}
SHRINK = {"resize", "erase", "clear", "pop_back"}


def own_vector(x):
    """does a call change a vector that belongs to the object?"""
    if not (x.get("fn") or "").startswith("std::vector::") or not x.get("obj"):
        return False
    o = x["obj"]
    return any(n.get("k") == "this" for n in walk(o)) or o.get("k") == "call" and short(o.get("fn") or "") == "get"


def accumulators(m, c, leaf):
    """classes in which the instances of a batch pile up: what decoding one instance appends to their vectors stays there"""
    reach, todo = set(), list(leaf)
    while todo:
        x = todo.pop()
        if x not in reach and x in m.fns:
            reach.add(x)
            todo += list(callees(m, m.fns[x]))
    out = {}
    for x in reach:
        g = m.fns[x]
        if not g.cls or g.body is None or g.cls == c or g.cls.startswith(c + "::") or g.is_ctor:
            continue
        for n in fn_nodes(g):
            if n.get("k") == "call" and short(n.get("fn") or "") in GROW and own_vector(n):
                out[base_name(g.cls)] = g
    return out


def shrinks(m, name, fam, seen=None):
    """does a method of the classes drop elements of their vectors?"""
    seen = set() if seen is None else seen
    for g in m.fns.values():
        if g.body is None or not g.cls or base_name(g.cls) not in fam or g.short != short(name) or g.id in seen:
            continue
        seen.add(g.id)
        for n in fn_nodes(g):
            if n.get("k") != "call":
                continue
            if short(n.get("fn") or "") in SHRINK and own_vector(n):
                return True
            if any(short(n.get("fn") or "") == h.short for h in m.fns.values() if h.cls and base_name(h.cls) in fam) and shrinks(m, n["fn"], fam, seen):
                return True
    return False


def leftovers(ck, m, c, f, leaf, rs, V):
    """what a bad instance left in a sparse feature is dropped before the next one is decoded"""
    acc = accumulators(m, c, leaf)
    if not acc:
        return
    fam = set(acc)
    for k in list(fam):
        fam |= {base_name(x) for x in m.classes if m.derives(k, x) or m.derives(x, k)}
    pads = {V["pad"], V["pad_warn"]}
    rules = "B8 nothing of a bad instance stays in the example"
    drop = {}
    some = False
    for r in rs:
        if r.outcome != "return" or not modes(r.trace, POLICY, V.values()) & pads:
            continue
        for j, n, kind in loop_segments(r.trace):
            if kind != "iter" or n is None:
                continue
            seg = r.trace[j:n]
            lv = [k for k, e in enumerate(seg) if is_leaf(e, m, leaf)]
            if not lv or truth_of(r.trace, seg[lv[-1]]) is not False:
                continue
            last = seg[lv[-1]]
            there = None
            done = False
            for e in seg[lv[-1]:]:
                if e.kind == "fact" and e.name[0] == "has" and e.name[1][0] in ("elt", "init", "e") and e.args[0] is True:
                    there = True
                if e.kind == "call":
                    if e.name not in drop:
                        drop[e.name] = any(base_name(g.cls or "") in fam for g in m.fns.values() if g.name == e.name) and shrinks(m, e.name, fam)
                    if drop[e.name]:
                        done = True
                        ck.ob(rules, f.name + " " + short(e.name), not e.args or any(a in last.args for a in e.args), "it is dropped from another row on than its own", "%s line %s" % (f.where(), e.line))
            some |= done
            if there and not done:
                ck.ob(rules, f.name, False, "what a bad instance left in a sparse feature stays there (%s)" % ", ".join(sorted(short(x) for x in acc)), f.where())
    ck.ob(rules, f.name, some, "what a bad instance left in a sparse feature stays there (%s)" % ", ".join(sorted(short(x) for x in acc)), f.where())


def counts_equal(i, r):
    """were all instances of the batch good, as far as the path asked?"""
    for a, v in reversed(list(facts(r.trace))):
        if a[0] in ("eq", "eq0", "pos") and names_in(a, lambda s: s.endswith("::size")) and names_in(a, lambda s: s.startswith("loop:") or s.startswith("decode")):
            return v if a[0] in ("eq", "eq0") else (not v)
        if a[0] in ("eq", "eq0") and mentions(a, lambda t: t[0] == "m" and t[1].endswith("::size")) and "more" not in repr(a):
            return v
    return None


def worker(ck, m, c, g, nd, leaf, V, names_):
    w = "%s line %s" % (g.where(), nd.get("l"))
    i = Interp(m, this_cls=c, peel=0, opaque=lambda fn, call: fn.id in leaf or is_log(fn) or fn.short.startswith("make_"))
    rs = ck.interp_done(i, i.run_lambda(nd, g))
    some = False
    for r in rs:
        H = modes(r.trace, POLICY, V.values()) - {V["pad"], V["pad_warn"]}
        lv = [e for e in r.trace if is_leaf(e, m, leaf)]
        if not lv:
            continue
        some = True
        bad = any(truth_of(r.trace, e) is False for e in lv)
        told = [e for e in r.trace if e.kind in ("write", "lwrite", "call") and e.kind != "call" and e.args and e.args[0] in (("c", 1), ("c", True)) or e.kind == "call" and e.name.startswith("std::atomic") and short(e.name) in ("operator=", "store", "exchange", "test_and_set")]
        if not bad:
            ck.ob("B7 parallel decoding tells of bad instances", g.name, not told and r.outcome == "return", "a good instance makes the example be dropped", w)
            continue
        for h in H:
            if h in (V["skip"], V["skip_warn"]):
                ck.ob("B7 parallel decoding tells of bad instances", g.name + " " + names_[h], bool(told) and r.outcome == "return", "with %s a bad instance among those decoded in parallel is %s" % (names_[h], "not noticed" if not told else "an error"), w)
            else:
                ck.ob("B7 parallel decoding tells of bad instances", g.name + " " + names_[h], r.outcome == "throw", "with %s a bad instance among those decoded in parallel is not an error" % names_[h], w)
    ck.ob("B7 parallel decoding tells of bad instances", g.name, some, "it does not decode the instances", w)


# -- what gets out
def escape(ck, m, f):
    e = excflow.Exc(m, opaque=lambda g: g.cls == INST)
    ok = {"mlio::Invalid_instance_error", "std::invalid_argument"}
    for t, wit in e.escapes(f).items():
        ck.ob("X1 bad data gets out as an invalid instance only", f.name + " " + t, t in ok, "%s gets out: %s" % (t, " > ".join("%s:%s" % (short(x[0]), x[1]) for x in wit)), f.where())
    ck.ob("X1 bad data gets out as an invalid instance only", f.name, True, "", f.where())
