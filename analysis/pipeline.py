"""Facts about the parallel reader's flow graph, shared by C01-C04."""
from absint import show
from model import base_name, strip_type, walk
from util import *


def reader_class(ck, m):
    """The class that owns the background thread (role: has a std::thread field)."""
    c = [c for c, d in m.classes.items() if any(strip_type(f["t"]) == "std::thread" for f in d["fields"])]
    ck.need(len(c) == 1, "exactly one class with a std::thread member (found %s)" % c)
    return c[0]


def graph_builder(ck, m, cls):
    """The member functions that create flow-graph nodes, entry point first: the
    function whose paths contain the make_edge calls."""
    cand = []
    for f in m.methods(cls):
        if f.body is None:
            continue
        n = [x for x in walk(f.body, lambdas=False) if x.get("k") == "call" and nm(x.get("fn"), "make_edge")]
        if n:
            cand.append(f)
    ck.need(cand, "a member function that connects flow-graph nodes")
    # prefer a caller that reaches all of them by inlining
    callers = [f for f in m.methods(cls) if f.body is not None and any(
        x.get("id") == c.id for c in cand for x in walk(f.body) if x.get("k") == "call")]
    if len(cand) > 1:
        for f in callers:
            if f not in cand:
                return f
    return cand[0]


class Node:
    def __init__(self, ident, typ, args, locs, ev):
        self.ident, self.type, self.args, self.locs, self.ev = ident, typ, args, locs, ev
        self.kind = base_name(typ).rsplit("::", 1)[-1]
        self.lambda_ = next((a for a in args if a[0] == "lambda"), None)
        self.conc = None
        for a in args:
            if a[0] == "enum" and a[1].rsplit("::", 1)[-1] in ("serial", "unlimited"):
                self.conc = a[1].rsplit("::", 1)[-1]
            elif a == ("c", 1) and self.kind in ("function_node", "multifunction_node"):
                self.conc = "serial"
            elif a == ("c", 0) and self.kind in ("function_node", "multifunction_node"):
                self.conc = "unlimited"
            elif a[0] == "c" and self.kind in ("function_node", "multifunction_node") and self.conc is None:
                self.conc = "limited"


def graph_of(result):
    """(nodes, edges) of one path through the graph builder.  An edge is
    (source identity, source role, target identity, target role)."""
    nodes, edges = {}, []
    derived = {}
    for e in result.trace:
        if e.kind == "make" and "tbb::" in e.name:
            nodes[e.extra] = Node(e.extra, e.name, e.args, e.locs, e)
        elif e.kind == "new" and isinstance(e.name, str) and "tbb::" in e.name:
            nodes[("addr", e.obj)] = Node(("addr", e.obj), e.name, e.args, e.locs, e)

    def ident(v, L):
        role = "out"
        for t in (L, v):
            if t is None:
                continue
            if t in derived:
                return derived[t]
            b = t
            path = []
            if b[0] == "init":
                b = b[1]
            while b[0] == "f":
                path.append(b[2])
                b = b[1]
            if b[0] == "*" and b[1] in nodes:
                return b[1], (path[0] if path else "node")
            if b[0] == "heap" and ("addr", b) in nodes:
                return ("addr", b), (path[0] if path else "node")
            if b in nodes:
                return b, "node"
        return None, None

    for e in result.trace:
        if e.kind != "call":
            continue
        if nm(e.name, "output_port"):
            i = ident(e.args[0], e.locs[0] if e.locs else None)
            derived[e.extra] = (i[0], "out")
        elif short(e.name) in ("decrementer", "decrement") and e.obj is not None:
            i = ident(None, e.obj)
            derived[e.extra] = (i[0], "decrement")
        elif nm(e.name, "make_edge"):
            a = ident(e.args[0], e.locs[0])
            b = ident(e.args[1], e.locs[1])
            edges.append((a[0], a[1], b[0], b[1], e))
    return nodes, edges


def fields_of(m, cls):
    return {f["n"]: strip_type(f["t"]) for _, f in m.fields(cls, inherited=False)}


SYNC_TYPES = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable", "std::condition_variable_any", "std::atomic", "std::atomic_flag", "std::atomic_size_t", "tbb::")


def is_sync_type(t):
    b = base_name(t)
    return b.startswith(SYNC_TYPES)


class Pipe:
    """The background thread's entry point, the graph's node bodies and the caller's
    entry points, each with all of its paths."""

    def __init__(self, ck, m):
        self.ck, self.m = ck, m
        self.cls = cls = reader_class(ck, m)
        self.ftypes = fields_of(m, cls)
        self.mutexes = [this_field(n) for n, t in self.ftypes.items() if t in ("std::mutex", "std::recursive_mutex")]
        self.cvs = [this_field(n) for n, t in self.ftypes.items() if t.startswith("std::condition_variable")]
        self.thread = next(this_field(n) for n, t in self.ftypes.items() if t == "std::thread")
        ck.need(self.mutexes and self.cvs, "the mutex and the condition variables of " + cls)
        self.builder = graph_builder(ck, m, cls)
        cfg = dict(log_reads=True, opaque=self.opaque, this_cls=cls)
        self.fg = {}
        own = [f for f in m.methods(cls) if f.body is not None and not f.flag("static")]
        called = set()
        for f in own:
            for x in walk(f.body):
                if x.get("k") in ("call", "ref", "mem") and x.get("id"):
                    called.add(x["id"])
        self.entry = None
        # private helpers are seen inlined in their callers
        for f in own:
            if f.d.get("access") == "private" and f.id in called and not f.virtual:
                continue
            if f.is_ctor:
                continue
            self.fg[f.name] = (f, paths(ck, m, f, **cfg))
        for f, rs in list(self.fg.values()):
            for r in rs:
                for e in evs(r.trace, "ctor", "std::thread::(ctor)"):
                    for a in e.args:
                        if a[0] == "fnref":
                            self.entry = m.fns.get(a[2])
        if self.entry is None:
            # a lambda started as the thread's body, or a helper that hides it
            raise AnalysisError("anchor vanished: the function that the background thread runs")
        self.fg.pop(self.entry.name, None)
        self.exc = [this_field(n) for n, t in self.ftypes.items() if t in ("std::exception_ptr", "std::__exception_ptr::exception_ptr")]

        def setup(i, st):
            for L in self.exc:
                st.store[L] = ("null",)

        def may(call):
            fn = call.get("fn", "")
            return nm(fn, ("wait_for_all", "activate")) or fn == self.builder.name
        self.may = may
        self.bg = paths(ck, m, self.entry, setup=setup, may_throw=may, **dict(cfg, opaque=lambda fn, c: self.opaque(fn, c) or fn.id == self.builder.id))
        g = [r for r in paths(ck, m, self.builder) if r.outcome == "return" and any(nm(e.name, "make_edge") for e in r.trace)]
        ck.need(g, "a path that connects the flow graph")
        self.nodes, self.edges = graph_of(g[0])
        self.bodies = {}
        for n in self.nodes.values():
            if n.lambda_ is None:
                continue
            box = n.lambda_[3]
            self.bodies[n.kind] = (n, box, lambda_paths(ck, m, box.node, self.builder, **cfg))

    @staticmethod
    def opaque(fn, c):
        return fn.short in ("read_instance_batch", "decode", "size_bytes", "bits", "peek_instance") or fn.cls in (
            "mlio::detail::Instance_batch_reader", "mlio::detail::Instance_reader", "mlio::Data_reader_base")

    def all_bg(self):
        for r in self.bg:
            yield self.entry.name, r
        for k, (n, box, rs) in self.bodies.items():
            for r in rs:
                yield "%s/%s" % (self.builder.name, k), r

    def all_fg(self):
        for n, (f, rs) in self.fg.items():
            for r in rs:
                yield n, r


def accesses(trace, ftypes):
    """(index, event, field name, 'r'|'w', location) of each access of a member."""
    for i, e in enumerate(trace):
        out = []
        if e.kind == "read" and e.obj is not None:
            out.append((e.obj, "r"))
        elif e.kind == "deref" and e.obj is not None:
            out.append((e.obj, "r"))
        elif e.kind == "write":
            out.append((e.obj, "w"))
        elif e.kind == "call":
            if e.obj is not None:
                out.append((e.obj, "r"))
            for L in e.locs:
                if L is not None:
                    out.append((L, "r"))
        for L, rw in out:
            while isinstance(L, tuple) and L[0] in ("f", "e") and not is_this_field(L):
                L = L[1]
            if is_this_field(L) and L[2] in ftypes:
                yield i, e, L[2], rw, L


def idle_value(p):
    """(state field, value that means "no background thread") - the value tested on
    every path that starts the thread."""
    st = [n for n, t in p.ftypes.items() if "Run_state" in t or (base_name(t) == "std::atomic" and any(x in p.m.enums for x in [strip_type(targs_(t))])) or t in p.m.enums]
    out = None
    for n, r in p.all_fg():
        for i, e in enumerate(r.trace):
            if e.kind == "ctor" and e.name == "std::thread::(ctor)" and any(a[0] in ("fnref", "lambda") for a in e.args):
                for a, v in facts(r.trace[:i]):
                    s = state_eq(a, st)
                    if s and v:
                        out = s
    return out


def targs_(t):
    from model import targs
    a = targs(t)
    return a[0] if a else ""


def state_eq(atom, fields):
    """(field, value) if the atom compares one of the fields with a constant."""
    if atom[0] == "eq0" and len(atom[2]) == 1:
        t, c = atom[2][0]
        L = t[1] if t[0] == "init" else None
        if L and is_this_field(L) and L[2] in fields and c in (1, -1):
            return (L[2], -atom[1] * c)
        if t[0] == "r" and str(t[1]).startswith(("woken:", "loop:")) and t[1].split(":", 1)[1] in fields:
            return (t[1].split(":", 1)[1], -atom[1] * c)
    return None


def alive_track(p, trace, idle):
    """For each event: may a background thread exist when it happens?"""
    alive = True
    for i, e in enumerate(trace):
        if e.kind == "fact" and idle:
            s = state_eq(e.name, [idle[0]])
            if s == idle and e.args[0]:
                alive = False
        if e.kind == "fact" and not e.args[0] and mentions(e.name, lambda t: len(t) > 1 and t[1] == "std::thread::joinable"):
            alive = False
        if e.kind == "ctor" and e.name == "std::thread::(ctor)" and any(a[0] in ("fnref", "lambda") for a in e.args):
            alive = True
        if e.kind == "mthrow" and e.name == "std::thread::(ctor)":
            alive = False
        yield alive
        if e.kind == "call" and e.name == "std::thread::join":
            alive = False
    yield alive     # after the last event


GROW = ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "resize", "assign", "push")
SHRINK = ("clear", "pop_front", "pop_back", "erase", "resize", "pop")


def predicate_needs(p, e):
    """{field: set of 'grow'/'shrink'/'value'} - the changes that can make the
    predicate of this wait true."""
    lam = next((a for a in e.args if a[0] == "lambda"), None)
    if lam is None:
        node = None
        for n in walk(e.fn.body):
            if n.get("k") in ("while", "do", "for") and n.get("c") is not None and any(x is e.node for x in walk(n.get("body"))):
                node = n
        if node is None:
            return None
        c = node["c"]
        node = {"k": "lambda", "l": c.get("l", 0), "params": [], "caps": [], "body": {"k": "block", "l": c.get("l", 0), "s": [
            {"k": "return", "l": c.get("l", 0), "e": {"k": "un", "op": "!", "l": c.get("l", 0), "t": "bool", "a": c}}]}}
    else:
        node = lam[3].node
    out = {}
    from absint import Interp
    for r in Interp(p.m, this_cls=p.cls).run_lambda(node, e.fn):
        if r.outcome != "return":
            continue
        fs = facts(r.trace)
        v = r.value
        if v == ("c", False):
            continue
        if v[0] == "cond":
            fs = fs + [(v[1], v[2])]
        for a, pol in fs:
            for t in subterms(a):
                L = None
                if len(t) > 2 and t[0] == "m" and is_this_field(t[2]):
                    L = t[2]
                elif len(t) > 1 and t[0] == "init" and is_this_field(t[1]):
                    L = t[1]
                if L is None:
                    continue
                nmx = short(t[1]) if t[0] == "m" else "value"
                s = out.setdefault(L[2], set())
                if nmx == "empty":
                    s.add("shrink" if pol else "grow")
                elif nmx == "size" and a[0] == "pos":
                    c = next((c for x, c in a[2] if x == t), 0)
                    s.add("grow" if (c > 0) == bool(pol) else "shrink")
                elif nmx == "size" and a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1:
                    s.add("shrink" if pol else "grow")
                elif nmx == "size":
                    s.update(("grow", "shrink"))
                elif a == ("has", t) and t[0] == "m":
                    s.update(("grow", "shrink", "value"))
                else:
                    s.add("value")
    return out


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def change_kind(trace, i):
    """What the write event i does to a container: 'grow', 'shrink' or both."""
    e = trace[i]
    for j in (i + 1, i - 1, i + 2, i + 3):
        if 0 <= j < len(trace) and trace[j].kind == "call" and trace[j].line == e.line:
            s = short(trace[j].name)
            if s in GROW and s in SHRINK:
                return {"grow", "shrink", "value"}
            if s in GROW:
                return {"grow"}
            if s in SHRINK:
                return {"shrink"}
            if s == "swap":
                return {"grow", "shrink", "value"}
    return {"grow", "shrink", "value"}
