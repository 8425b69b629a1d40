"""Helpers shared by the checks."""
from absint import Interp, show, Ev
from model import base_name, strip_type, walk, unwrap


def paths(ck, m, f, this_cls=None, args=None, setup=None, **opts):
    i = Interp(m, this_cls=this_cls or f.cls, **opts)
    r = i.run(f, args=args, setup=setup)
    ck.interp_done(i, r)
    return r


def lambda_paths(ck, m, node, fn, this_cls=None, setup=None, **opts):
    i = Interp(m, this_cls=this_cls or fn.cls, **opts)
    r = i.run_lambda(node, fn, setup=setup)
    ck.interp_done(i, r)
    return r


def evs(trace, kind=None, name=None):
    for e in trace:
        if kind is not None and e.kind != kind and not (isinstance(kind, tuple) and e.kind in kind):
            continue
        if name is not None and not nm(e.name, name):
            continue
        yield e


def nm(full, name):
    """full is name, or ends in ::name."""
    if not isinstance(full, str):
        return False
    if isinstance(name, (tuple, list, set, frozenset)):
        return any(nm(full, x) for x in name)
    return full == name or full.endswith("::" + name)


def mentions(t, pred):
    """Does any sub-term satisfy pred?"""
    if isinstance(t, tuple):
        if t and pred(t):
            return True
        return any(mentions(x, pred) for x in t)
    if isinstance(t, (frozenset, list)):
        return any(mentions(x, pred) for x in t)
    return False


def names_in(t, pred):
    """Does any name in the term satisfy pred?"""
    if isinstance(t, str):
        return pred(t)
    if isinstance(t, (tuple, frozenset, list)):
        return any(names_in(x, pred) for x in t)
    return False


def contains(t, sub):
    return mentions(t, lambda x: x == sub)


def field_term(t, name):
    """Is t the initial value (or location) of a field called name?"""
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "f" and t[2] == name


def mentions_field(t, name):
    return mentions(t, lambda x: field_term(x, name))


def facts(trace):
    """[(atom, truth)] in order."""
    return [(e.name, e.args[0]) for e in trace if e.kind == "fact"]


def fact_texts(trace, limit=12):
    out = []
    for a, v in facts(trace):
        out.append(("" if v else "!") + show_cond(a))
    return ", ".join(out[-limit:])


def show_cond(a):
    if a[0] in ("pos", "eq0"):
        s = " + ".join(([str(a[1])] if a[1] else []) + [("" if c == 1 else "-" if c == -1 else "%d*" % c) + show(t) for t, c in a[2]])
        return "(%s %s 0)" % (s, ">" if a[0] == "pos" else "==")
    if a[0] == "has":
        return show(a[1])
    if a[0] in ("eq", "lt", "le"):
        return "(%s %s %s)" % (show(a[1]), {"eq": "==", "lt": "<", "le": "<="}[a[0]], show(a[2]))
    return show(a)


LOCKS = {"std::unique_lock", "std::lock_guard", "std::scoped_lock"}


def with_locks(trace):
    """Yields (event, frozenset of held mutex locations, index)."""
    held = {}     # lock object location -> mutex
    anon = {}
    for i, e in enumerate(trace):
        b = (e.name or "") if isinstance(e.name, str) else ""
        if e.kind == "ctor" and b.endswith("::(ctor)") and b[:-len("::(ctor)")] in LOCKS and e.args:
            mu = e.args[0]
            if mu[0] == "init":
                mu = mu[1]
            defer = len(e.args) > 1
            held[e.obj] = [mu, not defer]
        elif e.kind == "dtor" and b in LOCKS:
            held.pop(e.obj, None)
        elif e.kind == "call" and b in ("std::unique_lock::unlock",):
            if e.obj in held:
                held[e.obj][1] = False
        elif e.kind == "call" and b in ("std::unique_lock::lock",):
            if e.obj in held:
                held[e.obj][1] = True
        elif e.kind == "call" and b == "std::mutex::lock":
            anon[e.obj] = True
        elif e.kind == "call" and b == "std::mutex::unlock":
            anon.pop(e.obj, None)
        yield e, frozenset([mu for mu, on in held.values() if on] + list(anon)), i


def cls_of_type(t):
    return base_name(t)


def short(name):
    return name.rsplit("::", 1)[-1]


def where(e):
    return e.fn.where(e.line) if e.fn is not None else "?"


def this_field(name):
    return ("f", ("obj", "this"), name)


def is_this_field(L, name=None):
    return isinstance(L, tuple) and len(L) == 3 and L[0] == "f" and L[1] == ("obj", "this") and (name is None or L[2] == name)


def known_empty(st, L):
    """Is the container at L known to be empty (True), non-empty (False)?"""
    v = st.store.get(L, ("init", L))
    if v[0] == "new" and v[1] == "cleared":
        return True
    vid = v[1] if v[0] == "init" else v
    for a, t in st.facts.items():
        if not isinstance(a, tuple) or len(a) < 2:
            continue
        if a[0] == "has" and a[1][0] == "m" and short(a[1][1]) == "empty" and a[1][2] == vid:
            return t
        if a[0] in ("eq0", "pos") and len(a[2]) == 1 and a[2][0][0][0] == "m" and short(a[2][0][0][1]) == "size" and a[2][0][0][2] == vid:
            if a[0] == "eq0" and a[1] == 0:
                return t
            if a[0] == "pos" and a[1] == 0 and a[2][0][1] == 1:
                return not t
    return None


class LoopInfo:
    """What is known about one loop from the paths of a function (run with peel=0)."""

    def __init__(self, node):
        self.node = node
        self.entries = {}      # (context) -> {L: (entry value, fresh term)}
        self.iters = []        # (fresh, end values, events of the iteration)
        self.guards = []       # (atom, truth) directly after the loop event, on iterations
        self.exits = []        # (atom, truth) on a normal exit
        self.leaves = []       # (result, events) that leave the loop from inside


def loop_segments(trace):
    """[(loop event index, end index or None, 'iter'|'exit'|'leave')] - innermost structure by matching."""
    out, stack = [], []
    for i, e in enumerate(trace):
        if e.kind == "loop":
            stack.append((i, e.node))
        elif e.kind == "endloop":
            while stack:
                j, n = stack.pop()
                if n is e.node:
                    it = [k for k in range(j, i) if trace[k].kind == "iter" and trace[k].node is n]
                    out.append((j, it[0] if it else i, "iter" if it else "exit"))
                    break
    for j, n in stack:
        it = [k for k in range(j, len(trace)) if trace[k].kind == "iter" and trace[k].node is n]
        out.append((j, it[0] if it else None, "iter" if it else "leave"))
    return sorted(out)


def trip_counts(interp, trace, j, i):
    """Symbolic trip counts of the loop whose `loop` event is trace[j] and whose completed iteration ends at
    trace[i]: every (induction variable, count term, guard atom) that the facts of the iteration establish."""
    lo, it = trace[j], trace[i]
    out = []
    for L, (entry, fresh) in (lo.extra or {}).items():
        end = (it.extra or {}).get(L)
        if end is None:
            continue
        c, d = interp.lin(end)
        if d != {fresh: 1} or c not in (1, -1):
            continue
        for e in trace[j:i]:
            if e.kind != "fact" or e.name[0] not in ("pos", "eq0", "eq"):
                continue
            a, v = e.name, e.args[0]
            if a[0] == "pos" and not v:        # not (x > 0) is 1 - x > 0
                a, v = ("pos", 1 - a[1], tuple((k, -x) for k, x in a[2])), True
            if a[0] == "eq":
                if v or fresh not in (a[1], a[2]):
                    continue
                other = a[2] if a[1] == fresh else a[1]
                n = interp.add(other, entry, -1) if c == 1 else interp.add(entry, other, -1)
                out.append((L, n, a))
                continue
            items = dict(a[2])
            co = items.get(fresh)
            if a[0] == "pos" and v and co == -c:
                rest = {k: x for k, x in items.items() if k != fresh}
                bound = interp.mk_lin(a[1], rest)
                # c=+1: continue while bound - L > 0; c=-1: while L + rest > 0
                n = interp.add(bound, entry, -1) if c == 1 else interp.add(bound, entry)
                out.append((L, n, a))
            elif a[0] == "eq0" and not v and co in (1, -1):
                rest = {k: -co * x for k, x in items.items() if k != fresh}
                bound = interp.mk_lin(-co * a[1], rest)     # L != bound
                n = interp.add(bound, entry, -1) if c == 1 else interp.add(entry, bound, -1)
                out.append((L, n, a))
    return out


def loop_invariants(results):
    """{value given to a location at a loop's head: its value before the loop} for the locations that no path
    through the loop that continues it changes."""
    entry, changed = {}, set()
    for r in results:
        for e in r.trace:
            if e.kind == "loop":
                for L, (en, fr) in (e.extra or {}).items():
                    entry[fr] = en
        for j, i, kind in loop_segments(r.trace):
            if kind != "iter":
                continue
            for L, (en, fr) in (r.trace[j].extra or {}).items():
                if (r.trace[i].extra or {}).get(L) != fr:
                    changed.add(fr)
    return {f: e for f, e in entry.items() if f not in changed}


def subst(i, t, mp):
    """t with the terms of mp replaced (linear terms are normalised again)."""
    if not isinstance(t, tuple) or not t:
        return t
    if t in mp:
        return subst(i, mp[t], {k: v for k, v in mp.items() if k != t})
    if t[0] == "lin":
        c, d = i.lin(t)
        out = ("c", c)
        for k, n in d.items():
            s = subst(i, k, mp)
            out = i.add(out, s if n == 1 else i.mul(("c", n), s))
        return out
    return tuple(subst(i, x, mp) for x in t)
