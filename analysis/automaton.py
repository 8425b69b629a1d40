"""Automata read off scanning functions.

The interpreter (option cuts) stops at labels and loop heads and generalises the state there; what lies between two stops is an edge.
An edge says which characters it looks at (offsets from the position at its start, and the classes its tests leave possible), how far it
moves the position, and what it does.  `compare` explores the product of the automaton with a specification over all inputs at once."""
from absint import Interp, show, contains_deref
from util import contains

END = "end"


class Edge:
    __slots__ = ("src", "dst", "events", "result", "S", "delta", "unsafe")

    def __init__(self, src, dst, events, result):
        self.src, self.dst, self.events, self.result = src, dst, events, result
        self.S, self.delta, self.unsafe = None, None, []


class Automaton:
    """start: initial position; end(i): the end term; special: term -> class name or None"""

    def __init__(self, i, results, start, end, special):
        self.i, self.start, self.end, self.special = i, start, end, special
        self.literals = set()
        self.edges = {}
        raw = []
        for s, d, ev, fresh in i.edges:
            raw.append((Edge(s, d, ev, None), fresh))
        for r in results:
            k = max((j for j, e in enumerate(r.trace) if e.kind == "cut"), default=-1)
            raw.append((Edge(r.trace[k].extra if k >= 0 else None, None, r.trace[k + 1:], r), None))
        self.stores = i.cut_stores
        self.pos = self.find_pos([e for e, _ in raw])
        for e, fresh in raw:
            e.S = start if e.src is None else self.value(self.stores[e.src], self.pos)
            if e.S is None:
                e.S = start
            if e.dst is not None:
                L = self.locate(self.stores[e.dst], self.pos)
                # the value on arrival
                D = fresh[L][0] if fresh and L in fresh else self.value(self.stores[e.dst], self.pos)
                d = i.add(D, e.S, -1) if D is not None else None
                e.delta = d[1] if d is not None and d[0] == "c" else None
            self.edges.setdefault(e.src, []).append(e)
        for e, _ in raw:
            for x in e.events:
                if x.kind == "fact":
                    self.char_atom(e, x.name)

    def locate(self, store, key):
        for L in store:
            if self.key(L) == key:
                return L
        return key if key[0] != "v" else None

    @staticmethod
    def key(L):
        return (L[0],) + tuple(L[2:]) if L[0] == "v" else (L[0], Automaton.key(L[1])) + tuple(L[2:]) if L[0] in ("f", "e") else L

    def value(self, store, key):
        L = self.locate(store, key)
        if L is None:
            return None
        v = store.get(L, ("init", L))
        return v

    def find_pos(self, edges):
        score = {}
        for e in edges:
            if e.src is None or e.src not in self.stores:
                continue
            terms = set()
            for x in e.events:
                if x.kind == "fact":
                    derefs(x.name, terms)
            for L, v in self.stores[e.src].items():
                if v[0] in ("ref", "cond", "c", "enum") or contains_deref(v):
                    continue
                for t in terms:
                    d = self.i.add(t, v, -1)
                    if d[0] == "c":
                        score[self.key(L)] = score.get(self.key(L), 0) + 1
        return max(sorted(score, key=repr), key=lambda k: score[k]) if score else ("none",)

    # -- characters
    def offset(self, e, t):
        """offset of the loaded character t = ('*', address)"""
        if t[0] == "init" and t[1][0] == "*":
            t = t[1]
        if t[0] != "*" or len(t) != 2:
            return None
        d = self.i.add(t[1], e.S, -1)
        return d[1] if d[0] == "c" and isinstance(d[1], int) else None

    def char_atom(self, e, a):
        """(offset, test: class -> True/False/None) when the atom is about one character, else None"""
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                k = self.offset(e, x)
                if k is not None and self.special(y):
                    c = self.special(y)
                    return k, lambda cls, c=c: cls == c
        if a[0] == "eq0" and len(a[2]) == 2 and sorted(q for _, q in a[2]) == [-1, 1] and a[1] == 0:
            for x, y in ((a[2][0][0], a[2][1][0]), (a[2][1][0], a[2][0][0])):
                k = self.offset(e, x)
                if k is not None and self.special(y):
                    c = self.special(y)
                    return k, lambda cls, c=c: cls == c
        if a[0] in ("eq0", "pos") and len(a[2]) == 1:
            k = self.offset(e, a[2][0][0])
            if k is not None:
                q = a[2][0][1]
                if a[0] == "eq0":
                    lit = -a[1] // q
                    self.literals.add(lit)
                    return k, lambda cls, lit=lit: (cls == lit) if isinstance(cls, int) else False
                return k, lambda cls, a=a, q=q: (a[1] + q * cls > 0) if isinstance(cls, int) else None
        return None

    def end_atom(self, e, a):
        """(offset, polarity: truth of the atom when the position is the end)"""
        if a[0] in ("eq0", "pos", "has"):
            E = self.i.add(self.end, e.S, -1)
            for k in range(-3, 6):
                d = self.i.lin(self.i.add(E, ("c", k), -1))
                if a[0] == "has":
                    if self.i.lin(a[1]) == d:
                        return k, False
                    continue
                c, items = a[1], dict(a[2])
                if a[0] == "eq0":
                    if (c, items) == d or (-c, {x: -q for x, q in items.items()}) == d:
                        return k, True
                else:
                    # E - p > 0: false at the end;  p - E + 1 > 0: true at the end
                    if (c, items) == d:
                        return k, False
                    if (c - 1, items) == (-d[0], {x: -q for x, q in d[1].items()}):
                        return k, True
        if a[0] in ("eq", "lt"):
            for k in range(-3, 6):
                p = self.i.add(e.S, ("c", k))
                if a[0] == "eq" and {a[1], a[2]} == {p, self.end} and p != self.end:
                    return k, True
                if a[0] == "lt" and (a[1], a[2]) == (p, self.end):
                    return k, False
                if a[0] == "lt" and (a[2], a[1]) == (p, self.end):
                    return k, False
        return None

    def classes(self, base):
        return list(base) + sorted(x for x in self.literals if x not in base) + ["other"]

    def constraints(self, e, classes):
        """{offset: set of classes and END}, [(event, offset)] of loads that may lie behind the end"""
        out, unsafe, other = {}, [], []
        full = set(classes) | {END}
        for x in e.events:
            if x.kind == "fact":
                h = self.end_atom(e, x.name)
                if h is not None:
                    k, pol = h
                    s = out.setdefault(k, set(full))
                    atend = (x.args[0] == pol)
                    s &= {END} if atend else full - {END}
                    continue
                h = self.char_atom(e, x.name)
                if h is not None:
                    k, fn = h
                    s = out.setdefault(k, set(full))
                    if END in s and len(s) > 0:
                        unsafe.append((x, k))
                    for c in list(s):
                        if c != END and fn(c) is not None and fn(c) != x.args[0]:
                            s.discard(c)
                    continue
                other.append(x)
            elif x.kind in ("lwrite", "write", "call", "initf"):
                terms = set()
                for a in x.args:
                    derefs(a, terms)
                for t in terms:
                    k = self.offset(e, ("*", t))
                    if k is not None and END in out.get(k, full):
                        unsafe.append((x, k))
        return out, unsafe, other


def derefs(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "*" and isinstance(t[1], tuple):
            out.add(t[1])
        for x in t:
            derefs(x, out)


class Mismatch:
    def __init__(self, edge, word, what):
        self.edge, self.word, self.what = edge, word, what


def compare(A, base, spec, outputs, judge, limit=20000):
    """Explores automaton x specification.

    spec.start; spec.step(state, cls) -> (state, outputs) or ('done', decision, outputs) ; outputs(edge, constraints) -> [(offset or None, token)];
    judge(edge, decision or None, position of the decision relative to the edge's start) -> None or message.
    Returns (mismatches, statistics)."""
    classes = A.classes(base)
    out, seen = [], set()
    work = [(None, (), spec.start, (), (), "")]
    stats = {"edges": 0, "configs": 0}
    while work:
        node, look, st, pend, dec, word = work.pop()
        key = (node, look, st, pend, dec)
        if key in seen:
            continue
        seen.add(key)
        stats["configs"] += 1
        if len(seen) > limit:
            raise RuntimeError("product too large")
        for e in A.edges.get(node, ()):
            cons, unsafe, _ = A.constraints(e, classes)
            for k, c in enumerate(look):
                cons[k] = cons.get(k, set(classes) | {END}) & {c}
            if any(not s for s in cons.values()):
                continue
            stats["edges"] += 1
            for x, k in unsafe:
                if not (k < len(look) and look[k] != END) and not (k < 0):
                    out.append(Mismatch(e, word, "the character at the position is read without knowing that it is not behind the end"))
            last = max([k for k in cons if k >= 0] + [(e.delta or 0) - 1], default=-1)
            for asg in assignments([sorted(cons.get(k, set(classes)), key=str) for k in range(0, last + 1)]):
                # nothing follows the end
                if END in asg and any(a != END for a in asg[asg.index(END):]):
                    continue
                outs = [t if k is None or k < 0 else (t, asg[k]) if k < len(asg) else (t, "?") for k, t in outputs(e)]
                if e.result is None and e.delta is None:
                    out.append(Mismatch(e, word, "the position is not followed"))
                    continue
                n = e.delta if e.result is None else len(asg)
                s2, d2, p2 = st, dec, list(pend)
                rel = 0
                if not d2 and n < 0:
                    out.append(Mismatch(e, word, "the position moves back over characters already taken"))
                    continue
                for k in range(0, max(n, 0)):
                    if d2:
                        break
                    res = spec.step(s2, asg[k])
                    if res[0] == "done":
                        d2 = (res[1], k + res[3] if len(res) > 3 else k)
                        p2 += res[2]
                    else:
                        s2 = res[0]
                        p2 += [(t, asg[k]) for t in res[1]]
                if dec:
                    d2 = dec
                for t in outs:
                    if p2 and p2[0] == t:
                        p2.pop(0)
                    else:
                        out.append(Mismatch(e, word + str(list(asg)), "it does %s where %s" % (t, "nothing is expected" if not p2 else "%s is expected" % (p2[0],))))
                        p2 = None
                        break
                if p2 is None:
                    continue
                w2 = word + "".join(name(c) for c in asg[:max(n, 0)])
                if e.result is not None:
                    msg = judge(e, d2 or None, s2, asg)
                    if msg is None and p2:
                        msg = "%s is missing" % (p2[0],)
                    if msg:
                        out.append(Mismatch(e, w2, msg))
                    continue
                if len(p2) > 3:
                    out.append(Mismatch(e, w2, "%s is missing" % (p2[0],)))
                    continue
                if d2:
                    d2 = (d2[0], d2[1] - e.delta)
                    if abs(d2[1]) > 6:
                        out.append(Mismatch(e, w2, "it reads on after the end of what it reads"))
                        continue
                work.append((e.dst, tuple(asg[max(e.delta, 0):]), s2, tuple(p2), d2, w2[-40:]))
    return out, stats


def name(c):
    return {10: "\\n", 13: "\\r", "other": "x", END: "$", "delim": ",", "quote": '"'}.get(c, "<%s>" % c)


def assignments(sets):
    if not sets:
        yield ()
        return
    for a in sets[0]:
        for rest in assignments(sets[1:]):
            yield (a,) + rest
