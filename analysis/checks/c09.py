"""Which instances are delivered: skip and limit, then the shard, then the sample, then the shuffle, each selecting exactly
what its parameters say and losing or repeating nothing.

The readers are found by the parameters they use.  Counts are decided from the trip counts of loops (induction variable,
guard and entry value as symbolic terms) and from the net effect of each path on the reader's members."""
from util import *
from absint import show, NULL, Interp
from model import walk, base_name, fn_nodes

ASSUMPTIONS = ["std::shuffle permutes, and a uniform integer distribution stays within its bounds."]


def pfield(t):
    """Name of the reader parameter that a term is the value of."""
    if not t or not isinstance(t, tuple):
        return None
    if isinstance(t, tuple) and t[0] == "init":
        t = t[1]
    n = None
    while isinstance(t, tuple) and t and t[0] in ("f", "fld"):
        x = t[2]
        if x == "*":
            t = t[1]
            if isinstance(t, tuple) and t and t[0] == "init":
                t = t[1]
            continue
        if n is None:
            n = x
        t = t[1]
        if n and (t[0] in ("*",) or t[0] == "obj" or (t[0] == "f" and "param" in str(t[2]))):
            return n
        if isinstance(t, tuple) and t and t[0] == "init":
            t = t[1]
    return None


def has_param(t, name):
    return mentions(t, lambda x: pfield(x) == name or (len(x) > 2 and x[0] in ("f", "fld") and x[2] == name))


BACK = ("s", "back")


def is_back(S, t):
    if t == BACK:
        return True
    d = S.interp.lin(t)
    return d is not None and d[0] == -1 and len(d[1]) == 1 and all(c == 1 and x[0] == "m" and short(x[1]) == "size" for x, c in d[1].items())


class Sel:
    def __init__(self, ck, m, cls):
        self.ck, self.m, self.cls = ck, m, cls
        self.f = m.method(cls, "read_instance_core")
        ck.need(self.f, cls + "::read_instance_core")
        self.interp = Interp(m, this_cls=cls, peel=0, opaque=lambda fn, c: fn.short in ("read_instance", "peek_instance"))
        self.rs = ck.interp_done(self.interp, self.interp.run(self.f))
        self.inner = {f["n"] for _, f in m.fields(cls) if "Instance_reader" in f["t"]}

    def field_type(self, name):
        return dict((f["n"], f["t"]) for _, f in self.m.fields(self.cls)).get(name, "")

    def is_inner(self, e):
        return e.kind == "call" and short(e.name) == "read_instance" and e.obj is not None and mentions(e.obj, lambda t: any(is_this_field(t, n) for n in self.inner))

    def null(self, r, v):
        """Is v known to be absent (True) or present (False) at the end of the path?"""
        if v == NULL:
            return True
        if v[0] == "some":
            return False
        out = None
        for a, t in facts(r.trace):
            if a == ("has", v):
                out = not t
        return out

    def segs(self, r):
        return loop_segments(r.trace)


def run(ck):
    m = ck.model("core")
    base = [c for c in m.classes if c.endswith("::Instance_reader")]
    ck.need(base, "the instance reader interface")
    concrete = [c for c in m.concrete(base[0]) if any(m.method(c, "read_instance_core", inherited=False) for _ in [0])]
    role = {}
    for c in concrete:
        names = set()
        for f in m.methods(c):
            for x in fn_nodes(f):
                if x.get("k") == "mem" and str(x.get("cls", "")).endswith("Data_reader_params"):
                    names.add(x["f"])
        for p in ("num_instances_to_skip", "num_shards", "sample_ratio", "shuffle_window"):
            if p in names:
                role.setdefault(p, c)
    ck.need(len(role) == 4, "the range, shard, sample and shuffle readers (found %s)" % role)
    ranged(ck, Sel(ck, m, role["num_instances_to_skip"]))
    sharded(ck, Sel(ck, m, role["num_shards"]), role["num_shards"])
    sampled(ck, Sel(ck, m, role["sample_ratio"]))
    shuffled(ck, Sel(ck, m, role["shuffle_window"]))
    composition(ck, m, role, concrete)


def common(ck, S, r, buffered=False):
    """Delivery of what was read, the end passed on."""
    w = S.f.where()
    calls = [e for e in r.trace if S.is_inner(e)]
    ck.ob("I1 reading returns", S.f.name, r.outcome == "return", "it throws", w)
    return r.outcome == "return", calls


def skip_count(ck, S, r, upto):
    """Symbolic number of inner reads discarded before trace index `upto`; None if undecided; list of terms."""
    total = []
    for j, k, kind in S.segs(r):
        if j > upto:
            continue
        inner = [e for e in r.trace[j:(k or len(r.trace))] if S.is_inner(e)]
        if kind == "iter" and inner:
            total.append((trip_counts(S.interp, r.trace, j, k), len(inner), r.trace[j]))
    return total


def split(S, r):
    """(loops entered, inner reads outside loops)"""
    spans = [(j, k if k is not None else len(r.trace)) for j, k, _ in S.segs(r)]
    out = [(i, e) for i, e in enumerate(r.trace) if S.is_inner(e) and not any(j < i <= k for j, k in spans)]
    loops = [(j, k, kind) for j, k, kind in S.segs(r)]
    return loops, out


def discard_rule(ck, S, r, name, want, what):
    """The loops of this path discard `want` inner instances (a predicate on the trip-count term)."""
    w = S.f.where()
    loops, direct = split(S, r)
    for j, k, kind in loops:
        if kind == "iter":
            n = sum(1 for e in r.trace[j:k] if S.is_inner(e))
            if not n:
                continue
            ck.ob("I2 each round of skipping reads one instance", S.f.name, n == 1, "a round reads %d instances" % n, w)
            tc = trip_counts(S.interp, r.trace, j, k)
            if tc:
                ck.ob("I3 " + name, S.f.name, any(want(t) for _, t, _ in tc), "%s: it skips %s instances" % (what, show(tc[0][1])), w)
            else:
                ck.notes.append("%s: the number of rounds of a loop is not an induction the analysis recognises" % S.f.name)
        if kind == "leave":
            last = [e for e in r.trace[j:] if S.is_inner(e)]
            if last:
                ck.ob("I4 the end of the data ends the reading", S.f.name, r.value == NULL and S.null(r, last[-1].extra) is True or r.value == last[-1].extra, "reading ends inside the skipping although the data has not ended", w)
    return loops, direct


def flag_of(S, rs):
    """The boolean member that tells the first read from later ones."""
    for r in rs:
        for a, v in facts(r.trace):
            if a[0] == "has" and a[1][0] == "init" and is_this_field(a[1][1]):
                if S.field_type(a[1][1][2]) == "bool":
                    return a[1][1]
    return None


def flag_val(r, L):
    for a, v in facts(r.trace):
        if a == ("has", ("init", L)):
            return v
    return None


def ranged(ck, S):
    w = S.f.where()
    flag = flag_of(S, S.rs)
    ck.ob("I5 the beginning is skipped once", S.f.name, flag is not None, "no member tells the first read from the later ones", w)
    for r in S.rs:
        ok, calls = common(ck, S, r)
        if not ok:
            continue
        loops, direct = discard_rule(ck, S, r, "the first num_instances_to_skip instances are skipped", lambda t: pfield(t) == "num_instances_to_skip", "num_instances_to_skip instances should be skipped")
        if flag is not None:
            first = flag_val(r, flag)
            entered = [k for j, k, k2 in loops]
            if first is False:
                ck.ob("I5 the beginning is skipped once", S.f.name, not any(S.is_inner(e) for j, k, kd in loops for e in r.trace[j:(k or len(r.trace))]), "instances are skipped again on a later read", w)
            elif first is True:
                ck.ob("I5 the beginning is skipped once", S.f.name, r.state.store.get(flag) in (("c", False), ("c", 0)), "the first read does not record that the beginning has been skipped", w)
                if any(S.null(r, e.extra) is not True for _, e in direct) or r.value != NULL:
                    ck.ob("I5 the beginning is skipped once", S.f.name, bool(loops) or no_skip_fact(r), "the first read delivers without skipping", w)
            else:
                ck.ob("I5 the beginning is skipped once", S.f.name, not direct and r.value == NULL, "a path delivers without asking whether the beginning has been skipped", w)
        limit(ck, S, r, direct)


def no_skip_fact(r):
    return any(has_param(a, "num_instances_to_skip") and a[0] in ("pos", "eq0") for a, v in facts(r.trace))


def limit(ck, S, r, direct):
    w = S.f.where()
    ck.ob("I6 one instance per read", S.f.name, len(direct) <= 1, "a read takes %d instances from the data" % len(direct), w)
    # the counter: the member compared with the limit
    reached = unlimited = None
    for a, v in facts(r.trace):
        if not has_param(a, "num_instances_to_read"):
            continue
        if a[0] == "has":
            unlimited = not v
            continue
        if a[0] in ("eq", "eq0"):
            reached = v
        elif a[0] == "pos":
            items = dict(a[2])
            lim = next((c for t, c in items.items() if has_param(t, "num_instances_to_read")), 0)
            # lim - cnt > 0 : not reached ; cnt - lim + c > 0 : reached
            if lim > 0:
                reached = not v if a[1] == 0 else None
            else:
                reached = v if a[1] == 1 else None
            if reached is None:
                ck.ob("I7 no more than num_instances_to_read instances", S.f.name, False, "the limit is compared as %s" % show_cond(a), w)
                return
    if direct:
        i, e = direct[0]
        ck.ob("I7 no more than num_instances_to_read instances", S.f.name, unlimited is True or reached is False, "an instance is read although the limit is not known to leave room for it", w)
        nul = S.null(r, e.extra)
        deliver = r.value == e.extra and nul is not True
        ck.ob("I8 the instance read is delivered", S.f.name, r.value == e.extra or (nul is True and r.value == NULL), "it returns %s, not the instance read" % show(r.value), w)
        cs = counter_members(S)
        for L in cs:
            v = r.state.store.get(L, ("init", L))
            d = S.interp.lin(S.interp.add(v, ("init", L), -1))
            if nul is False:
                ck.ob("I9 delivered instances are counted", S.f.name, d == (1, {}), "the count becomes %s for one delivered instance" % show(v), w)
            elif nul is True:
                ck.ob("I9 delivered instances are counted", S.f.name, d == (0, {}), "the count changes at the end of the data", w)
    else:
        # nothing delivered
        ck.ob("I8 the instance read is delivered", S.f.name, r.value == NULL or r.value[0] == "r", "it returns %s" % show(r.value), w)
        loops, _ = split(S, r)
        left = any(kind == "leave" for _, _, kind in loops)
        ck.ob("I10 reading stops only at the limit or the end", S.f.name, reached is True or left, "it reports the end although the limit is not known to be reached", w)


def counter_members(S):
    out = set()
    for r in S.rs:
        for a, v in facts(r.trace):
            if has_param(a, "num_instances_to_read") and a[0] != "has":
                for t in subt(a):
                    if t and t[0] == "init" and is_this_field(t[1]) and is_integer(S.field_type(t[1][2])):
                        out.add(t[1])
    return out


def subt(t):
    if isinstance(t, tuple):
        yield t if t else ("",)
        for x in t:
            if isinstance(x, tuple):
                yield from subt(x)


def sharded(ck, S, cls):
    w = S.f.where()
    flag = flag_of(S, S.rs)
    ck.ob("I11 the first read goes to the shard, later ones to its next instance", S.f.name, flag is not None, "no member tells the first read from the later ones", w)
    for r in S.rs:
        ok, calls = common(ck, S, r)
        if not ok:
            continue
        first = flag_val(r, flag) if flag else None
        if first is None:
            continue
        if first:
            want = lambda t: pfield(t) == "shard_index"
            what = "the first read should skip shard_index instances"
            ck.ob("I11 the first read goes to the shard, later ones to its next instance", S.f.name, r.state.store.get(flag) in (("c", False), ("c", 0)), "the first read is not recorded", w)
        else:
            want = lambda t: S.interp.lin(t)[0] == -1 and len(S.interp.lin(t)[1]) == 1 and all(c == 1 and pfield(x) == "num_shards" for x, c in S.interp.lin(t)[1].items())
            what = "a later read should skip num_shards - 1 instances"
        loops, direct = discard_rule(ck, S, r, "the distance between the instances of a shard is num_shards", want, what)
        left = any(kind == "leave" for _, _, kind in loops)
        ck.ob("I12 one instance per read after the skipping", S.f.name, len(direct) == (0 if left else 1), "a read delivers %d instances" % len(direct), w)
        if direct:
            ck.ob("I8 the instance read is delivered", S.f.name, r.value == direct[0][1].extra or (r.value == NULL and S.null(r, direct[0][1].extra) is True), "it returns %s" % show(r.value), w)
            ck.ob("I12 one instance per read after the skipping", S.f.name, bool(loops) or any(has_param(a, "shard_index") or has_param(a, "num_shards") for a, v in facts(r.trace)), "a path delivers without skipping", w)


def sampled(ck, S):
    w = S.f.where()
    buf = buffer_of(S)
    if buf is None:
        ck.need(False, "the sample reader's buffer")
    for r in S.rs:
        ok, calls = common(ck, S, r)
        if not ok:
            continue
        fill(ck, S, r, buf)
        er = [(i, e) for i, e in enumerate(r.trace) if e.kind == "call" and e.obj == buf and short(e.name) in ("erase", "resize")]
        for i, e in er:
            if short(e.name) == "erase":
                a = e.args
                ok = len(a) == 2 and mentions(a[0], lambda t: t[0] == "m" and short(t[1]) == "begin") and has_param(a[0], "sample_ratio") and mentions(a[0], lambda t: t[0] == "m" and short(t[1]) == "size") and mentions(a[1], lambda t: t[0] == "m" and short(t[1]) == "end")
                plain = ok and not complement(a[0])
            else:
                ok = plain = bool(e.args) and has_param(e.args[0], "sample_ratio") and mentions(e.args[0], lambda t: t[0] == "m" and short(t[1]) == "size") and not complement(e.args[0])
            ck.ob("I13 the kept part is sample_ratio of the window", S.f.name, ok and plain, "what is removed from the window is %s" % ", ".join(show(x)[:80] for x in e.args), w)
        filled = any(kind in ("iter", "exit") and any(S.is_inner(e) for e in r.trace[j:]) or kind == "exit" for j, k, kind in S.segs(r))
        inner_end = any(S.null(r, e.extra) is True for e in calls)
        if r.value == NULL:
            ck.ob("I14 the end is reported only when the data has ended", S.f.name, inner_end, "a window of which nothing is kept is reported as the end of the data", w)
        else:
            deliver(ck, S, r, buf)
        if any(e.kind == "call" and e.obj == buf and short(e.name) == "clear" for e in r.trace) or er:
            # refilled only when all of the window has been delivered
            ok = any((a[0] == "eq" and v and any(mentions(a, lambda t: t[0] == "m" and short(t[1]) == "end") for _ in [0])) or (known(a, v, buf)) for a, v in facts(r.trace))
            ck.ob("I15 a window is replaced only when it has been delivered", S.f.name, ok, "the window is discarded although instances of it have not been delivered", w)


def known(a, v, buf):
    return a[0] == "eq0" and v and mentions(a, lambda t: t[0] == "m" and short(t[1]) == "size" and t[2] == buf)


def complement(t):
    """1 - ratio instead of ratio."""
    return mentions(t, lambda x: x[0] == "op" and x[1] == "-" and has_param(x, "sample_ratio"))


def buffer_of(S):
    for _, f in S.m.fields(S.cls):
        if base_name(f["t"]) in ("std::vector", "std::deque") and "Instance" in f["t"]:
            return this_field(f["n"])
    return None


def fill(ck, S, r, buf):
    """Every instance read in the filling loop is stored exactly once; the filling ends at the window size or the end."""
    w = S.f.where()
    for j, k, kind in S.segs(r):
        seg = r.trace[j:(k if k is not None else len(r.trace))]
        rd = [e for e in seg if S.is_inner(e)]
        add = [e for e in seg if e.kind == "call" and e.obj == buf and short(e.name) in GROW1]
        if kind == "iter" and rd:
            ck.ob("I16 each instance read is buffered once", S.f.name, len(rd) == 1 and len(add) == 1 and mentions(list(add[0].args), lambda t: t == rd[0].extra), "a round reads %d and stores %d instances" % (len(rd), len(add)), w)
        elif kind in ("exit", "leave") and rd:
            nul = S.null(r, rd[-1].extra)
            ck.ob("I16 each instance read is buffered once", S.f.name, nul is True or len(add) == len(rd), "an instance is read but not stored when the filling ends", w)
    spans = [(j, k if k is not None else len(r.trace)) for j, k, _ in S.segs(r)]
    out = [e for i, e in enumerate(r.trace) if S.is_inner(e) and not any(j < i <= k for j, k in spans)]
    for e in out:
        ck.ob("I16 each instance read is buffered once", S.f.name, r.value == e.extra, "an instance is read but neither stored nor delivered", w)


GROW1 = ("push_back", "emplace_back")


def deliver(ck, S, r, buf):
    """An element of the buffer is returned and leaves it (or the position passes it)."""
    w = S.f.where()
    adv = [e for e in r.trace if e.kind == "call" and short(e.name) in ("operator++", "operator+=") and e.obj is not None and is_this_field(e.obj)]
    if adv:
        src = [e for e in r.trace if e.kind == "call" and short(e.name) in ("operator*", "operator->")]
        ck.ob("I17 each buffered instance is delivered once", S.f.name, len(adv) == 1 and bool(src), "the position is moved %d times for one delivered instance" % len(adv), w)
        return True
    return False


def shuffled(ck, S):
    w = S.f.where()
    buf = buffer_of(S)
    ck.need(buf, "the shuffle reader's buffer")
    more = None
    for r in S.rs:
        for i, e in enumerate(r.trace):
            if e.kind == "write" and is_this_field(e.obj) and e.args and e.args[0] in (("c", False), ("c", 0)):
                more = e.obj
    ck.ob("I18 the end of the data is remembered", S.f.name, more is not None, "no member records that the data has ended", w)
    for r in S.rs:
        ok, calls = common(ck, S, r)
        if not ok:
            continue
        fill(ck, S, r, buf)
        if any(S.null(r, e.extra) is True for e in calls) and more is not None and r.value not in [e.extra for e in calls]:
            ck.ob("I18 the end of the data is remembered", S.f.name, r.state.store.get(more) in (("c", False), ("c", 0)), "the data is read again after its end", w)
            ck.ob("I25 what remains at the end is permuted", S.f.name, any(e.kind == "call" and short(e.name) == "shuffle" and len(e.args) >= 2 and mentions(e.args[0], lambda t: t[0] == "m" and short(t[1]) == "begin") and mentions(e.args[1], lambda t: t[0] == "m" and short(t[1]) == "end") for e in r.trace), "the instances left in the buffer are delivered in the order of the data", w)
        if not S.segs(r):
            continue
        pops = [(i, e) for i, e in enumerate(r.trace) if e.kind == "call" and e.obj == buf and short(e.name) in ("pop_back", "erase", "pop_front")]
        if r.value == NULL:
            ck.ob("I19 the end is reported only when the buffer is empty", S.f.name, any(a[0] == "eq0" and v and a[1] == 0 and mentions(a, lambda t: t[0] == "m" and short(t[1]) == "size") for a, v in facts(r.trace)) and not pops, "the end is reported with instances left in the buffer", w)
            continue
        ck.ob("I20 a delivered instance leaves the buffer", S.f.name, len(pops) == 1, "%d instances leave the buffer for one delivered" % len(pops), w)
        # which element is delivered, and which leaves
        elt = next((t for t in subt(r.value) if t[0] == "elt"), None)
        if elt is None or not pops or short(pops[0][1].name) != "pop_back":
            continue
        if elt[2] == BACK:
            continue
        moved = [e for e in r.trace[:pops[0][0]] if e.kind == "write" and e.obj is not None and e.obj[0] == "e" and e.obj[1] == buf and e.obj[2] == elt[2] and mentions(list(e.args), lambda t: t[0] == "elt" and is_back(S, t[2]))]
        swap = [e for e in r.trace[:pops[0][0]] if e.kind == "call" and short(e.name) in ("swap", "iter_swap")]
        lastone = any((a[0] == "eq0" and v or a[0] == "pos" and not v and a[1] == -1) and mentions(a, lambda t: t == elt[2]) and mentions(a, lambda t: t[0] == "m" and short(t[1]) == "size") for a, v in facts(r.trace))
        ck.ob("I20 a delivered instance leaves the buffer", S.f.name, bool(moved or swap or lastone), "the last instance is removed although another one is delivered: one is lost and one repeated", w)
        # the draw is within the buffer: only when the buffer is full
        draw = elt[2]
        if draw[0] == "r" and draw[1].endswith("operator()"):
            full = any((a[0] == "pos" and not v and mentions(a, lambda t: t[0] == "m" and short(t[1]) == "size") and mentions(a, lambda t: is_this_field(t) or (t[0] == "init" and is_this_field(t[1])))) or
                       (a[0] in ("eq", "eq0") and v and mentions(a, lambda t: t[0] == "m" and short(t[1]) == "size") and not (a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1)) for a, v in facts(r.trace))
            ck.ob("I21 a draw is made from a full window", S.f.name, full, "a random position is drawn although the buffer may hold fewer instances than the window", w)
    # the distribution covers exactly the window
    for f in S.m.methods(S.cls):
        if not f.is_ctor or f.body is None:
            continue
        for r in paths(ck, S.m, f, this_cls=S.cls):
            for L, v in r.state.store.items():
                if is_this_field(L) and v[0] == "new" and "uniform_int_distribution" in str(v[1]) and len(v) >= 5:
                    lo, hi = v[3], v[4]
                    d = S.interp.lin(hi)
                    okk = lo == ("c", 0) and d is not None and d[0] == -1 and len(d[1]) == 1 and all(c == 1 and (pfield(t) == "shuffle_window" or has_param(t, "shuffle_window")) for t, c in d[1].items())
                    ck.ob("I22 the draw covers exactly the window", f.name, okk, "positions are drawn from [%s, %s]" % (show(lo), show(hi)), f.where())


def is_integer(t):
    return "*" not in t and "<" not in t and any(x in t for x in ("int", "long", "short", "size_t"))


def composition(ck, m, role, concrete):
    """Who wraps whom, and when."""
    core = [c for c in concrete if c not in role.values()]
    order = ["num_instances_to_skip", "num_shards", "sample_ratio", "shuffle_window"]
    mk = [f for f in m.fns.values() if f.body is not None and f.cls is None and any(x.get("k") == "call" and nm(x.get("fn"), "make_unique") and any(role[o] in str(x.get("t", "")) for o in order) for x in walk(f.body))]
    ck.need(mk, "the function that composes the instance readers")
    for f in mk:
        for r in paths(ck, m, f, opaque=lambda fn, c: False if fn.cls is None else True):
            if r.outcome != "return":
                continue
            w = f.where()
            chain, v = [], r.value
            seen = 0
            while isinstance(v, tuple) and v[0] in ("new", "addr") and seen < 12:
                seen += 1
                t = str(v[1])
                c = next((c for c in concrete if t == c or t.endswith(c)), None)
                if c is None:
                    break
                chain.append(c)
                v = next((x for x in v[3:] if isinstance(x, tuple) and x[0] in ("new",) and any(str(x[1]).endswith(k) for k in concrete)), None)
            ck.ob("I23 the readers are stacked range, shard, sample, shuffle", f.name, bool(chain) and chain[-1] in core, "the innermost reader is %s" % (chain[-1:] or "?"), w)
            ranks = [order.index(k) for c in chain for k in order if role[k] == c]
            ck.ob("I23 the readers are stacked range, shard, sample, shuffle", f.name, ranks == sorted(ranks, reverse=True) and len(set(ranks)) == len(ranks), "from the outside in the readers are %s" % [c.rsplit("::", 1)[-1] for c in chain], w)
            # each present iff its parameters ask for it
            fs = facts(r.trace)
            for k in order:
                on = wanted(fs, k)
                if on is not None:
                    ck.ob("I24 each reader is used when its parameters ask for it", "%s, %s" % (f.name, k), (role[k] in chain) == on, "the %s reader is %sused" % (role[k].rsplit("::", 1)[-1], "" if role[k] in chain else "not "), w)
                else:
                    ck.ob("I24 each reader is used when its parameters ask for it", "%s, %s" % (f.name, k), role[k] in chain and chain_ok(fs, k), "whether the %s reader is used does not depend on its parameters" % role[k].rsplit("::", 1)[-1], w)


def chain_ok(fs, k):
    return any(wanted(fs[:i], k) for i in range(len(fs) + 1))


def wanted(fs, k):
    def val(name, kind):
        out = None
        for a, v in fs:
            if not has_param(a, name):
                continue
            if a[0] == "has":
                out = v
            elif a[0] == "pos" and len(a[2]) == 1:
                out = v if a[1] == (0 if kind == 0 else -1) else "odd"
            elif a[0] == "eq0" and len(a[2]) == 1 and a[1] == 0 and kind == 0:
                out = not v
            else:
                out = "odd"
        return out
    if k == "num_instances_to_skip":
        a, b = val("num_instances_to_skip", 0), val("num_instances_to_read", 0)
        if a is True or b is True:
            return True
        if a is False and b is False:
            return False
        return None
    if k == "num_shards":
        return val("num_shards", 1) if val("num_shards", 1) in (True, False) else None
    if k == "sample_ratio":
        return val("sample_ratio", 0)
    return val("shuffle_instances", 0)
