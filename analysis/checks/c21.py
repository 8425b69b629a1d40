"""The columns of a CSV dataset: names, types, selection and the tensor every column is decoded into.

The paths of the steps that find the names, the types, the overrides and the parsers of the columns, and of the decoding of a row, are run over
the source with the columns as symbolic positions; every iteration over the columns has to do the same thing to every per-column table."""
from util import *
from absint import Interp, show, NULL
from model import base_name, strip_type
import model as F

ASSUMPTIONS = ["The records of a CSV file and the fields of a record are taken apart correctly (C19, C20).",
               "tbb::zip_iterator advances all of its iterators together."]
TRUE, FALSE = ("c", True), ("c", False)
ADD = ("emplace_back", "push_back")
ZIP = "tbb::make_zip_iterator"


def by_type(m, c, want):
    fs = [x["n"] for k, x in m.fields(c) if k == c and want(strip_type(x["t"]))]
    return fs[0] if len(fs) == 1 else None


class Csv:
    def __init__(self, ck):
        self.ck = ck
        m = self.m = ck.model("core")
        self.c = "mlio::Csv_reader"
        ck.need(self.c in m.classes, "the CSV reader")
        vec = lambda elt: (lambda t: t.startswith("std::vector<") and elt(t[len("std::vector<"):]))
        self.names = by_type(m, self.c, vec(lambda t: t.startswith(("std::basic_string<", "std::string"))))
        self.types = by_type(m, self.c, vec(lambda t: "Data_type" in t.split(",")[0]))
        self.ignores = by_type(m, self.c, vec(lambda t: t.split(",")[0].split(">")[0].strip() in ("int", "bool", "char", "unsigned char", "signed char")))
        self.parsers = by_type(m, self.c, vec(lambda t: "Parser" in t or "std::function" in t or "fu2" in t))
        for n in ("names", "types", "ignores", "parsers"):
            ck.need(getattr(self, n), "the table of the %s of the columns" % n)
        self.file = m.method(self.c, "infer_schema").file
        self.roles = {self.names: "names", self.types: "types", self.ignores: "ignores", self.parsers: "parsers"}

    def interp(self, f, extra=(), this_cls=None):
        i = Interp(self.m, this_cls=this_cls or f.cls, peel=0,
                   opaque=lambda fn, call: fn.file != self.file or fn.id in extra or fn.name.startswith("mlio::logger::"))
        return i, self.ck.interp_done(i, i.run(f))

    # ------------------------------------------------- what a value says about a column
    def arg_role(self, a):
        """What one iterator of a zip walks over, and from where: (role, "begin"|"end")."""
        if a[0] == "new" and a[1].endswith("counting_iterator"):
            if a[3:] == (("c", 0),):
                return ("index", "begin")
            v = a[3] if len(a) > 3 else None
            return ("index", "end") if v is not None and self.is_count(v) else ("index", None)
        if a[0] == "m":
            for n, r in self.roles.items():
                if field_term(a[2], n) or (isinstance(a[2], tuple) and mentions_field(a[2], n)):
                    s = short(a[1]).lstrip("c")
                    return (r, s if s in ("begin", "end") else None)
        return (None, None)

    def is_count(self, v):
        """Is v the number of columns?"""
        return v[0] == "m" and v[1].endswith("::size") and any(mentions_field(v[2], n) for n in self.roles)

    def zips(self, trace):
        out = {}
        for e in evs(trace, "call", ZIP):
            out[e.extra] = [self.arg_role(a) for a in e.args]
        return out

    def column(self, v, ends):
        """(position, role) of a value read from a per-column table; `ends` maps iterators to their roles."""
        while v[0] in ("some", "ref") and len(v) == 2 and isinstance(v[1], tuple):
            v = v[1]
        if v[0] == "init":
            v = v[1]
        if v[0] == "fld" and isinstance(v[2], str) and v[2].startswith("get") and v[1][0] == "m" and short(v[1][1]) in ("operator*", "operator[]"):
            it = v[1][2]
            n = int("".join(ch for ch in v[2] if ch.isdigit()))
            roles = ends(it)
            if roles and n < len(roles):
                return (it, roles[n][0])
        if v[0] == "e" and v[1][0] == "f" and v[1][2] in self.roles:
            return (v[2], self.roles[v[1][2]])
        if v[0] == "m" and short(v[1]) in ("operator*",) and v[2] and v[2] != ():
            roles = ends(v[2])
            if roles and len(roles) == 1:
                return (v[2], roles[0][0])
        return None


class Walk:
    """The loops of a path that go over the columns."""

    def __init__(self, csv, i, r, preset=None):
        self.csv, self.i, self.r = csv, i, r
        self.z = csv.zips(r.trace)
        self.entry = dict(preset or {})
        self.after = {}             # what a loop leaves behind -> what it began with
        last = {}
        for e in r.trace:
            if e.kind == "loop":
                for L, (en, fr) in (e.extra or {}).items():
                    self.entry[fr] = en
                    last[id(e.node), L] = fr
            elif e.kind == "endloop":
                for L, fr in (e.extra or {}).items():
                    if (id(e.node), L) in last and isinstance(fr, tuple):
                        self.after[fr] = last[id(e.node), L]

    def root(self, it, behind=False):
        for _ in range(12):
            if behind and it in self.after:
                it = self.after[it]
                continue
            if it in self.z:
                return self.z[it]
            c, d = self.i.lin(it)
            if c == 0 and len(d) == 1 and list(d.values()) == [1]:
                k = next(iter(d))
                if k in self.z:
                    return self.z[k]
                if k in self.entry:
                    it = self.entry[k]
                    continue
                if k[0] == "m" and short(k[1]).lstrip("c") == "begin":
                    return [self.csv.arg_role(k)]
            return None
        return None

    def col(self, v):
        return self.csv.column(v, self.root)

    def loops(self):
        """[(first event, last event, position term, events)] of the complete iterations over all the columns; position terms None when
        the loop is not one over the columns."""
        out = []
        t = self.r.trace
        for j, k, kind in loop_segments(t):
            if kind == "iter":
                out.append((j, k, self.counted(j, k)))
        return out

    def counted(self, j, k):
        """The position terms of a loop that goes over all columns in order."""
        pos = []
        for L, n, atom in trip_counts(self.i, self.r.trace, j, k):
            en, fr = self.r.trace[j].extra[L]
            if self.csv.is_count(n) and en == ("c", 0):
                pos.append(fr)
            c, d = self.i.lin(n)
            if c == 0 and sorted(d.values()) == [-1, 1]:
                end = [x for x, y in d.items() if y == 1][0]
                beg = [x for x, y in d.items() if y == -1][0]
                b, e = self.root(beg), self.z.get(end) or ([self.csv.arg_role(end)] if end[0] == "m" else None)
                if b and e and len(b) == len(e) and all(x[0] == y[0] is not None and x[1] == "begin" and y[1] == "end" for x, y in zip(b, e)):
                    pos.append(fr)
            if self.csv.is_count(n) and self.i.lin(en)[1] == {} and self.i.lin(en)[0] == 1:
                pos.append(fr)
        return pos


def closure(m, f, file):
    seen, todo = {}, [f]
    while todo:
        g = todo.pop()
        if g.id in seen:
            continue
        seen[g.id] = g
        for n in F.fn_nodes(g):
            if n.get("k") == "call":
                h = m.resolve_call(n, g.tu)
                if h is not None and h.body is not None and h.file == file:
                    todo.append(h)
    return list(seen.values())


def adds_to(fns, field):
    for f in fns:
        for n in F.fn_nodes(f):
            if n.get("k") == "call" and n.get("obj") and short(n.get("fn") or "") in ADD + ("resize", "assign", "insert"):
                o = n["obj"]
                if o.get("k") == "mem" and o.get("f") == field:
                    return True
    return False


def mentions_mem(fns, field):
    return any(n.get("k") == "mem" and n.get("f") == field for f in fns for n in F.fn_nodes(f))


def where_of(f, e=None):
    return "%s:%s" % (f.file, e.line if e is not None else f.line)


def added(trace, field):
    """[(event, value)] of what is appended to a table that is a member."""
    out = []
    for e in trace:
        if e.kind == "call" and short(e.name) in ADD and e.obj is not None and e.obj[0] == "f" and e.obj[2] == field:
            out.append((e, e.args[0] if e.args else None))
    return out


def run(ck):
    csv = Csv(ck)
    m = csv.m
    steps = step_functions(ck, csv)
    header(ck, csv)
    schema_order(ck, csv, steps)
    names_and_types(ck, csv, steps)
    overrides(ck, csv, steps)
    parsers(ck, csv, steps)
    tensors(ck, csv)
    rows(ck, csv)


def step_functions(ck, csv):
    m = csv.m
    root = m.method(csv.c, "infer_schema")
    direct = []
    for n in F.fn_nodes(root):
        if n.get("k") == "call":
            h = m.resolve_call(n, root.tu)
            if h is not None and h.body is not None and h.file == csv.file and h not in direct:
                direct.append(h)
    out = {"root": root, "direct": direct}
    for role, test in (("types", lambda fs: adds_to(fs, csv.types)), ("names", lambda fs: adds_to(fs, csv.names)),
                       ("overrides", lambda fs: mentions_mem(fs, "column_types_by_index")),
                       ("parsers", lambda fs: adds_to(fs, csv.parsers))):
        hit = [h for h in direct if test(closure(m, h, csv.file))]
        out[role] = hit[0] if len(hit) == 1 else root
        ck.need(hit or test(closure(m, root, csv.file)), "the step that settles the %s of the columns" % role)
    return out


def run_step(csv, steps, role):
    f = steps[role]
    other = {h.id for h in steps["direct"] if h is not f} if f is steps["root"] else set()
    i, rs = csv.interp(f, other, csv.c)
    csv.ck.saw(f.name)
    return f, i, rs


def normal(r):
    return r.outcome == "return"


def known(trace, pred):
    """Truth of the first fact whose atom satisfies pred, or None."""
    for a, v in facts(trace):
        t = pred(a)
        if t is not None:
            return v if t else not v
    return None


def about(t, field):
    """Does t speak of a member, or of what a loop made of it?"""
    return mentions_field(t, field) or mentions(t, lambda x: x[0] == "r" and len(x) == 3 and x[1] == "loop:" + field)


def expand(trace, v, depth=6):
    """v with the results of calls replaced by the calls' arguments (in order)."""
    if not isinstance(v, tuple) or not v or depth == 0:
        return v
    if v[0] in ("r", "mut"):
        for e in trace:
            if e.kind == "call" and e.extra == v:
                obj = (e.obj,) if e.obj is not None else ()
                return ("call", e.name) + obj + tuple(expand(trace, a, depth - 1) for a in e.args)
        return v
    return tuple(expand(trace, x, depth) if isinstance(x, tuple) else x for x in v)


def empty_of(a, field):
    """For an atom about the emptiness of a member: does True mean empty?"""
    if not about(a, field) or names_in(a, lambda s: short(s) in ("find", "count", "end") and "::" in s):
        return None
    if a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1 and a[2][0][0][0] == "m" and a[2][0][0][1].endswith("::size"):
        return True
    if a[0] == "pos" and len(a[2]) == 1 and a[2][0][0][0] == "m" and a[2][0][0][1].endswith("::size"):
        n = a[2][0][1]
        if n == 1 and a[1] == 0:
            return False
        if n == -1 and a[1] == 1:
            return True
    return None


def flag_of(a, field):
    """For an atom that is the truth (or presence) of a member: does the atom's truth mean that?"""
    if field_term(a, field) or (a[0] in ("init", "truth", "has", "b") and len(a) > 1 and field_term(a[1], field)):
        return True
    if a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1 and mentions_field(a[2][0][0], field):
        return False
    if mentions_field(a, field) and a[0] not in ("pos", "eq0", "eq"):
        return True
    return None


# ------------------------------------------------------------------ the header
def header(ck, csv):
    m = csv.m
    f = m.method(csv.c, "make_record_reader")
    i, rs = csv.interp(f, this_cls=csv.c)
    ck.saw(f.name)
    flag = by_type(m, csv.c, lambda t: t == "bool")
    ck.need(flag, "the flag that the header is still to be read")
    L = ("f", ("obj", "this"), flag)
    seen = set()
    for r in rs:
        if not normal(r):
            continue
        t = r.trace
        has = known(t, lambda a: flag_of(a, "header_row_index"))
        lost = known_empty_names(t, csv)
        fresh = known(t, lambda a: flag_of(a, flag))
        single = known(t, lambda a: flag_of(a, "has_single_header"))
        segs = loop_segments(t)
        inside = lambda k: [(a, b) for a, b, kind in segs if a < k and (b is None or k <= end_of(t, a))]
        reads = [(k, e) for k, e in enumerate(t) if e.kind == "call" and short(e.name) == "read_record"]
        outer = [(k, e) for k, e in reads if not inside(k)]
        inner = [(k, e) for k, e in reads if inside(k)]
        collects = any(added(t, csv.names))
        w = where_of(f, reads[0][1]) if reads else where_of(f)
        if has is None and (reads or collects):
            ck.ob("header-is-optional", f.name, False, "records are taken from the store as a header without a header row having been asked for", w)
            continue
        if not has:
            ck.ob("no-header-nothing-read", f.name, not reads, "a record of the dataset is dropped although it has no header row", w)
            seen.add("none")
            continue
        if lost is None:
            # the decision may be taken without looking at the names only when it is the same for both
            ck.ob("header-names-decided", f.name, False, "the header is handled without looking whether the names of the columns are known", w)
            continue
        # records before the header
        if lost:
            mode = "names"
        elif fresh is True or single is False:
            mode = "skip"
        elif fresh is False and single is True:
            mode = "leave"
        else:
            ck.ob("header-repeats", f.name, False, "with known names, the header row is handled without deciding whether this data store has one", w)
            continue
        seen.add(mode)
        if mode == "leave":
            ck.ob("single-header-once", f.name, not reads,
                  "with a single header, a record of a later data store is dropped as if it were the header", w)
        elif any(present(a, v, e.extra) is False for a, v in facts(t) for _, e in reads):
            seen.add(mode)          # the data store ends before its header row
        else:
            left = [(a, b, kind) for a, b, kind in segs if kind == "leave"]
            ck.ob("header-row-reached", f.name, not left, "the way to the header row is left although there are more rows", w)
            ok = len(outer) == 1
            ck.ob("header-row-read", f.name, ok, "%d records are taken as the header row, not 1" % len(outer), w)
            # the loop that goes to the header row
            sk = [(a, b, kind) for a, b, kind in segs if any(a < k <= end_of(t, a) for k, _ in inner) or
                  any(mentions_field(en, "header_row_index") for en, _ in (t[a].extra or {}).values()) or
                  any(mentions_field(x, "header_row_index") for x, _ in facts(t[a:end_of(t, a) + 1]))]
            for a, b, kind in sk:
                if kind != "iter":
                    continue
                n = [e for e in t[a:b] if e.kind == "call" and short(e.name) == "read_record"]
                ck.ob("rows-before-header", f.name, len(n) == 1, "a step towards the header row takes %d records" % len(n), w)
                tc = [c for _, c, _ in trip_counts(i, t, a, b)]
                good = any(mentions_field(c, "header_row_index") and i.lin(c)[0] == 0 and list(i.lin(c)[1].values()) == [1] for c in tc)
                ck.ob("rows-before-header-count", f.name, good or not tc and not any(mentions_field(x, "header_row_index") for x, _ in facts(t[a:b])),
                      "the rows in front of the header row are not exactly header_row_index many: %s" % ", ".join(show(c) for c in tc), w)
            ck.ob("rows-before-header-skipped", f.name, bool(sk) or leads_to_zero(t), "the rows in front of the header row are not skipped", w)
        fin = [e for e in t if e.kind == "write" and e.obj == L]
        ck.ob("header-remembered", f.name, bool(fin) and fin[-1].args[0] == FALSE or (not fin and fresh is False),
              "after the header has been handled, it is still taken as outstanding", w)
        ck.ob("header-names-from-header-only", f.name, collects == (mode == "names") or (mode == "names"),
              "names of columns are added although they were known", w)
        if mode == "names":
            names_from_header(ck, csv, f, i, r, w)
    ck.ob("header-cases", f.name, {"none", "names", "skip", "leave"} <= seen, "cases of the header row not told apart: %s" %
          ", ".join(sorted({"none", "names", "skip", "leave"} - seen)), where_of(f))
    g = m.method(csv.c, "reset")
    j, rs = csv.interp(g, this_cls=csv.c)
    ck.saw(g.name)
    for r in rs:
        if normal(r):
            fin = [e for e in r.trace if e.kind == "write" and e.obj == L]
            ck.ob("header-again-after-reset", g.name, bool(fin) and fin[-1].args[0] == TRUE,
                  "after a reset the header of the first data store is read as data", where_of(g))


def present(a, v, rec):
    """Does the fact say whether the record is there?"""
    if rec is None or not contains(a, rec) or a[0] in ("pos", "eq0"):
        return None
    if a[0] == "eq":
        return not v if NULL in a[1:3] else None
    return v


def end_of(t, a):
    """Index of the endloop event of the loop that begins at t[a] (or the end of the path)."""
    depth = 0
    for k in range(a, len(t)):
        if t[k].kind == "loop" and t[k].node is t[a].node:
            depth += 1
        if t[k].kind == "endloop" and t[k].node is t[a].node:
            return k
    return len(t) - 1


def leads_to_zero(t):
    return any(mentions_field(a, "header_row_index") and a[0] in ("pos", "eq0") for a, _ in facts(t))


def known_empty_names(t, csv):
    for e in t:
        if e.kind == "fact":
            p = empty_of(e.name, csv.names)
            if p is not None:
                return e.args[0] if p else not e.args[0]
        if e.kind == "call" and short(e.name) in ADD and e.obj is not None and field_term(e.obj, csv.names):
            return None
    return None


def names_from_header(ck, csv, f, i, r, w):
    t = r.trace
    rec = [e for e in t if e.kind == "call" and short(e.name) == "read_record"]
    for j, k, kind in loop_segments(t):
        if kind != "iter":
            continue
        seg = t[j:k]
        nx = [e for e in seg if e.kind == "call" and short(e.name) == "next" and "okenizer" in e.name]
        if not nx:
            continue
        a = added(seg, csv.names)
        ck.ob("name-per-header-field", f.name, len(a) == 1, "a field of the header row gives %d names" % len(a), w)
        for e, v in a:
            has = any(x.kind == "call" and short(x.name) == "value" for x in seg)
            v = expand(seg, v)
            good = has and names_in(v, lambda s: s.endswith("okenizer::value"))
            ck.ob("name-is-header-field", f.name, good, "the name of a column is not the field of the header row", where_of(f, e))
            pre = known(seg, lambda x: empty_of(x, "name_prefix"))
            mp = mentions_field(v, "name_prefix")
            ck.ob("name-prefix", f.name, mp or pre is True, "the prefix asked for is left out of a name", where_of(f, e))
            if mp:
                ck.ob("name-prefix-first", f.name, prefix_first(v), "the prefix does not come in front of the name", where_of(f, e))
    # the payload of the header record is what is taken apart
    tk = [e for e in t if e.kind == "ctor" and "okenizer" in e.name]
    for e in tk:
        good = any(names_in(a, lambda s: short(s) == "payload") for a in e.args)
        ck.ob("header-record-tokenised", f.name, good, "the names are not taken from the header row's record", where_of(f, e))
    # a blank header
    blank = [(k, e) for k, e in enumerate(t) if e.kind == "fact" and empty_of(e.name, csv.names) is not None]
    if tk and len(blank) >= 1:
        last_end = max([k for k, e in enumerate(t) if e.kind == "endloop"] or [0])
        later = [(k, e) for k, e in blank if k > last_end]
        for k, e in later:
            emp = e.args[0] if empty_of(e.name, csv.names) else not e.args[0]
            a = added(t[k:], csv.names)
            ck.ob("blank-header-one-column", f.name, (len(a) == 1) == emp, "a blank header row does not give exactly one column", w)
        ck.ob("blank-header-considered", f.name, bool(later), "a blank header row leaves the dataset without a column", w)
    elif tk:
        ck.ob("blank-header-considered", f.name, False, "a blank header row leaves the dataset without a column", w)


def prefix_first(v):
    """In the concatenation v, does the prefix come before the field?"""
    flat = []

    def go(x):
        if isinstance(x, tuple):
            if field_term(x, "name_prefix"):
                flat.append("p")
                return
            if x and x[0] == "m" and isinstance(x[1], str) and x[1].endswith("okenizer::value"):
                flat.append("v")
                return
            if x and x[0] == "r" and isinstance(x[1], str) and "to_string" in x[1]:
                flat.append("v")
                return
            for y in x:
                go(y)
    go(v)
    return "v" not in flat or flat.index("p") < flat.index("v")


# ------------------------------------------------------------------ the schema
def schema_order(ck, csv, steps):
    f = steps["root"]
    i, rs = csv.interp(f, {h.id for h in steps["direct"]}, csv.c)
    ck.saw(f.name)
    order = [steps[x].id for x in ("types", "names", "overrides", "parsers") if steps[x] is not f]
    named = {steps[x].id: x for x in ("types", "names", "overrides", "parsers")}
    for r in rs:
        if not normal(r):
            continue
        calls = [e for e in r.trace if e.kind == "call" and callee_id(csv.m, e, f) in order]
        ids = [callee_id(csv.m, e, f) for e in calls]
        inst = known(r.trace, lambda a: True if a[0] in ("has", "init", "truth") or a == ("obj", "arg0") or names_in(a, lambda s: s == "arg0") and a[0] not in ("eq0", "pos") else None)
        emp = known_empty_names(r.trace, csv)
        if r.value == NULL or (not ids and order):
            ck.ob("schema-needs-names-or-data", f.name, inst is False and emp is True,
                  "no schema is made although a row or the names of the columns are known", where_of(f))
        else:
            ck.ob("schema-steps", f.name, ids == order, "the steps that settle the columns are %s" % ", ".join(named.get(x, "?") for x in ids), where_of(f))


def callee_id(m, e, f):
    if e.node is None or e.node.get("k") != "call":
        return None
    h = m.resolve_call(e.node, f.tu)
    return h.id if h is not None else None


def opt_param(trace):
    """Is the optional instance given, as far as the path knows?"""
    for a, v in facts(trace):
        if a[0] in ("pos", "eq0", "eq"):
            continue
        if names_in(a, lambda s: s == "arg0") and not names_in(a, lambda s: "::" in s):
            return v
    return None


def names_and_types(ck, csv, steps):
    f, i, rs = run_step(csv, steps, "types")
    for r in rs:
        t = r.trace
        given = opt_param(t)
        if normal(r):
            outside = [e for e, v in added(t, csv.types) if not any(a < t.index(e) <= end_of(t, a) for a, _, _ in loop_segments(t))]
            ck.ob("type-per-field-only", f.name, not outside, "a type is added that belongs to no column", where_of(f))
        wk = Walk(csv, i, r)
        for j, k, kind in loop_segments(t):
            if kind != "iter":
                continue
            seg = t[j:k]
            a = added(seg, csv.types)
            nx = [e for e in seg if e.kind == "call" and short(e.name) == "next" and "okenizer" in e.name]
            over = wk.counted(j, k)
            if not (nx or over or a):
                continue
            ck.ob("type-per-column", f.name, len(a) == 1, "a column is given %d types" % len(a), where_of(f, t[j]))
            dflt = known(t[:k], lambda x: flag_of(x, "default_data_type"))
            for e, v in a:
                if dflt is None:
                    ck.ob("default-type-considered", f.name, mentions_field(v, "default_data_type"), "a type is settled without looking at the default type", where_of(f, e))
                elif dflt:
                    ck.ob("default-type-used", f.name, mentions_field(v, "default_data_type"), "the default type asked for is not used", where_of(f, e))
                elif nx:
                    inf = [x for x in seg if x.kind == "call" and x.extra == v and any(names_in(y, lambda s: s.endswith("okenizer::value")) for y in x.args)]
                    ck.ob("type-from-field", f.name, bool(inf), "the type of a column does not come from its field of the first row", where_of(f, e))
                else:
                    en = {n: x for n, x in m_enum(csv.m)}
                    ck.ob("type-without-data", f.name, i.lin(v) == (en.get("string"), {}) or names_in(v, lambda s: short(s) == "string"), "without data, a column is not taken as text", where_of(f, e))
        if normal(r) and given is True:
            nx = [e for e in t if e.kind == "call" and short(e.name) == "next" and "okenizer" in e.name]
            ck.ob("types-from-row", f.name, bool(nx), "the fields of the first row are not looked at", where_of(f))
            tk = [e for e in t if e.kind == "ctor" and "okenizer" in e.name] + [e for e in t if e.kind == "call" and short(e.name) == "reset" and "okenizer" in e.name]
            ck.ob("types-from-instance", f.name, any(names_in(a, lambda s: short(s) == "bits") for e in tk for a in e.args), "the types do not come from the row that was read", where_of(f))
    f, i, rs = run_step(csv, steps, "names")
    both = set()
    for r in rs:
        t = r.trace
        emp = known_empty_names(t, csv)
        if emp is None:
            ck.ob("names-decided", f.name, not any(added(t, csv.names)) and not normal(r) or False, "the names of the columns are settled without looking whether there are any", where_of(f))
            continue
        both.add(emp)
        if emp:
            for j, k, kind in loop_segments(t):
                if kind != "iter":
                    continue
                seg = t[j:k]
                a = added(seg, csv.names)
                ck.ob("default-name-per-column", f.name, len(a) == 1, "a column is given %d names" % len(a), where_of(f, t[j]))
                tc = trip_counts(i, t, j, k)
                wk = Walk(csv, i, r)
                good = [x for x in tc if csv.is_count(x[1]) and mentions_field(x[1], csv.types)]
                ck.ob("default-names-count", f.name, bool(good) or bool(wk.counted(j, k)), "the number of default names is not the number of columns: %s" %
                      ", ".join(show(n) for _, n, _ in tc), where_of(f, t[j]))
                for e, v in a:
                    v = expand(seg, v)
                    nums = [x for x in seg if x.kind == "call" and names_in(x.name, lambda s: short(s) in ("to_string", "format", "to_chars")) and any(contains(v, ("call", x.name) + x.args[k:]) or contains(v, x.extra) for k in (0,))]
                    val = nums[-1].args[-1] if nums and nums[-1].args else None
                    first = None
                    if val is not None:
                        c, d = i.lin(val)
                        for L, (en, fr) in (t[j].extra or {}).items():
                            if d == {fr: 1} and i.lin(en)[1] == {}:
                                first = c + i.lin(en)[0]
                    if val is None and not nums:
                        ck.ob("default-name-is-number", f.name, False, "a default name is not the number of its column", where_of(f, e))
                        continue
                    ck.ob("default-name-is-number", f.name, first == 1, "default names do not count the columns from 1", where_of(f, e))
                    pre = known(seg, lambda x: empty_of(x, "name_prefix"))
                    mp = mentions_field(v, "name_prefix")
                    ck.ob("default-name-prefix", f.name, mp or pre is True, "the prefix asked for is left out of a default name", where_of(f, e))
                    if mp:
                        ck.ob("default-name-prefix-first", f.name, prefix_first(v), "the prefix does not come in front of the number", where_of(f, e))
        else:
            same = None
            for a, v in facts(t):
                if mentions_field(a, csv.names) and mentions_field(a, csv.types):
                    if a[0] in ("eq", "eq0"):
                        same = v
                    elif a[0] == "pos" and v:
                        same = False
            if normal(r):
                ck.ob("names-match-fields", f.name, same is True and not any(added(t, csv.names)),
                      "a row whose number of fields is not the number of names is accepted", where_of(f))
            else:
                ck.ob("names-mismatch-reported", f.name, same is False and "Schema_error" in str(r.exc_type if hasattr(r, "exc_type") else exc_of(r)),
                      "names and fields that do not match are reported as %s" % exc_of(r), where_of(f))
    ck.ob("names-cases", f.name, both == {True, False}, "known and unknown names are not told apart", where_of(f))


def exc_of(r):
    v = r.value
    return str(v[1]) if isinstance(v, tuple) and len(v) > 1 else str(v)


def m_enum(m):
    for k, v in m.enums.items():
        if k == "mlio::Data_type":
            return v["c"]
    return []


# ------------------------------------------------------------------ type overrides
def overrides(ck, csv, steps):
    f, i, rs = run_step(csv, steps, "overrides")
    seen = set()
    for r in rs:
        t = r.trace
        wk = Walk(csv, i, r)
        order = []
        for j, k, kind in loop_segments(t):
            if kind != "iter":
                continue
            seg = t[j:k]
            src = [(key, p) for key in ("column_types_by_index", "column_types") for p in [lookups(i, wk, r, seg, key)] if p]
            if not src:
                continue
            over = wk.counted(j, k)
            for key, ls in src:
                order.append((j, key))
                seen.add(key)
                ck.ob("override-all-columns", f.name, bool(over), "the types asked for by %s are not looked up for every column" % say(key), where_of(f, t[j]))
                for found, arg, term in ls:
                    want = "index" if key.endswith("index") else "names"
                    c = wk.col(arg)
                    isidx = want == "index" and arg in over
                    ck.ob("override-key", f.name, isidx or (c is not None and c[1] == want and (not over or c[0] in over)),
                          "the types asked for by %s are looked up by something else" % say(key), where_of(f, t[j]))
                    ws = [(e, col_written(i, wk, e)) for e in seg if e.kind in ("write", "lwrite")]
                    ws = [(e, c2) for e, c2 in ws if c2 is not None and c2[1] == "types"]
                    if found:
                        ok = len(ws) == 1 and (not over or ws[0][1][0] in over) and contains(ws[0][0].args[0], term) and names_in(ws[0][0].args[0], lambda s: s in ("second",))
                        ck.ob("override-applied", f.name, ok, "a type asked for by %s is not given to the column it names" % say(key), where_of(f, t[j]))
                        used = [e for e in seg if e.kind == "call" and short(e.name) == "erase"]
                        ck.ob("override-accounted", f.name, len(used) == 1, "an override that was used is not told apart from one that names no column", where_of(f, t[j]))
                    else:
                        ck.ob("override-only-asked", f.name, not ws, "a column gets another type without one having been asked for", where_of(f, t[j]))
        ks = [k for _, k in sorted(order)]
        if "column_types_by_index" in ks and "column_types" in ks and ks[0] != "column_types_by_index":
            ck.ob("override-order", f.name, False, "a type asked for by index wins over one asked for by name", where_of(f))
        left = {}
        for a, v in facts(t):
            if a[0] in ("eq0", "pos") and names_in(a, lambda s: s.endswith("::size")) and len(a[2]) == 1:
                w = a[2][0][0]
                key = table_of(w, wk)
                if key:
                    emp = v if a[0] == "eq0" else (not v if a[2][0][1] > 0 else v)
                    left[key] = emp
        if normal(r):
            ck.ob("override-leftovers", f.name, left.get("column_types_by_index") is True and left.get("column_types") is True,
                  "types asked for columns that do not exist are silently ignored", where_of(f))
        elif any(v is False for v in left.values()):
            ck.ob("override-leftovers-reported", f.name, "invalid_argument" in exc_of(r), "types asked for columns that do not exist are reported as %s" % exc_of(r), where_of(f))
        else:
            ck.ob("override-fails-only-for-leftovers", f.name, exc_of(r) == "?", "the overrides are refused although all of them name a column", where_of(f))
    ck.ob("override-kinds", f.name, seen >= {"column_types_by_index", "column_types"}, "types asked for by index or by name are not applied", where_of(f))


def say(key):
    return "index" if key.endswith("index") else "name"


def table_of(term, wk):
    """Which table of overrides a term is about (through copies and what loops did to them)."""
    for _ in range(12):
        for key in ("column_types_by_index", "column_types"):
            if mentions_field(term, key):
                return key
        hit = None

        def look(x):
            nonlocal hit
            if (x in wk.entry or x in wk.after) and hit is None:
                hit = x
            return False
        mentions(term, look)
        if hit is None:
            return None
        term = wk.entry[hit] if hit in wk.entry else wk.after[hit]
    return None


def lookups(i, wk, r, seg, key):
    """[(found, key looked up, the result)] of the searches in a table of overrides decided in seg."""
    out = []
    for e in seg:
        if e.kind != "fact":
            continue
        a, v = e.name, e.args[0]
        terms = []

        def look(x):
            if x and x[0] == "m" and isinstance(x[1], str) and short(x[1]) in ("find", "count") and len(x) > 3 and x not in terms:
                terms.append(x)
            return False
        mentions(a, look)
        for x in terms:
            if table_of(x[2], wk) != key:
                continue
            arg = x[3][0] if isinstance(x[3], tuple) and x[3] and isinstance(x[3][0], tuple) else x[3]
            if short(x[1]) == "find" and a[0] == "eq":
                out.append((not v, arg, x))
            elif short(x[1]) == "count" and a[0] in ("eq0", "pos"):
                out.append((not v if a[0] == "eq0" else v, arg, x))
    return out


def col_written(i, wk, e):
    L = e.obj
    if L in i.tmpsrc:
        return wk.col(i.tmpsrc[L])
    if L is not None and L[0] == "e":
        return wk.col(L)
    return None


# ------------------------------------------------------------------ parsers, selection, schema
def skip_truth(csv, wk, seg):
    """Is the column left out, by the facts of the iteration?"""
    st = {}
    for e in seg:
        if e.kind != "fact":
            continue
        a, v = e.name, e.args[0]
        for key in ("use_columns_by_index", "use_columns"):
            if not mentions_field(a, key):
                continue
            p = empty_of(a, key)
            if p is not None:
                st[key, "empty"] = v if p else not v
                continue
            terms = []

            def look(x):
                if x and x[0] == "m" and isinstance(x[1], str) and short(x[1]) in ("find", "count") and len(x) > 3:
                    terms.append(x)
                return False
            mentions(a, look)
            for x in terms:
                arg = x[3][0] if isinstance(x[3], tuple) and x[3] and isinstance(x[3][0], tuple) else x[3]
                found = not v if a[0] in ("eq", "eq0") else v
                st[key, "found"] = found
                st[key, "arg"] = arg
    def out(key):
        e, fd = st.get((key, "empty")), st.get((key, "found"))
        if e is True or fd is True:
            return False
        if e is False and fd is False:
            return True
        return None
    a, b = out("use_columns_by_index"), out("use_columns")
    res = True if a is True or b is True else False if a is False and b is False else None
    return res, st


def parsers(ck, csv, steps):
    f, i, rs = run_step(csv, steps, "parsers")
    seen = set()
    for r in rs:
        t = r.trace
        wk = Walk(csv, i, r)
        segs = loop_segments(t)
        found = False
        for j, k, kind in segs:
            seg = t[j:k if k is not None else len(t)]
            ig, pa = added(seg, csv.ignores), added(seg, csv.parsers)
            if kind != "iter":
                if kind == "leave" and (ig or pa) and normal(r):
                    ck.ob("columns-all-visited", f.name, False, "the columns behind one are left without a parser", where_of(f, t[j]))
                continue
            over = wk.counted(j, k)
            if not (ig or pa):
                if over:
                    ck.ob("parser-per-column", f.name, not over or inner_of(segs, t, j), "a column is given no parser", where_of(f, t[j]))
                continue
            found = True
            w = where_of(f, t[j])
            ck.ob("columns-all-visited", f.name, bool(over), "the parsers are not made for all columns in order", w)
            ck.ob("flag-per-column", f.name, len(ig) == 1, "a column is given %d flags whether it is left out" % len(ig), w)
            ck.ob("parser-per-column", f.name, len(pa) == 1, "a column is given %d parsers" % len(pa), w)
            at = [e for e in seg if e.kind == "call" and short(e.name) in ADD and not (e.obj is not None and e.obj[0] == "f" and e.obj[2] in csv.roles)]
            sk, st = skip_truth(csv, wk, seg)
            for key, want in (("use_columns_by_index", "index"), ("use_columns", "names")):
                a = st.get((key, "arg"))
                if a is not None:
                    c = wk.col(a)
                    ck.ob("selection-key", f.name, (want == "index" and a in over) or (c is not None and c[1] == want and c[0] in over),
                          "the columns to use are looked up by something other than the column's %s" % say(key), w)
            ck.ob("selection-decided", f.name, sk is not None, "whether a column is used is not settled by the columns asked for", w)
            if sk is None or len(ig) != 1 or len(pa) != 1:
                continue
            seen.add(sk)
            iv, pv = ig[0][1], pa[0][1]
            if sk:
                ck.ob("unused-column", f.name, i.lin(iv)[0] not in (0, False) and not i.lin(iv)[1] or iv == TRUE, "a column that was not asked for is not marked as left out", w)
                ck.ob("unused-column-attribute", f.name, not at, "a column that was not asked for is in the schema", w)
            else:
                ck.ob("used-column", f.name, iv in (("c", 0), FALSE), "a column that was asked for is marked as left out", w)
                mk = [e for e in seg if e.kind == "call" and e.extra == pv]
                cols = [wk.col(a) for e in mk for a in e.args]
                ck.ob("parser-of-own-type", f.name, any(c is not None and c[1] == "types" and c[0] in over for c in cols),
                      "the parser of a column is not the one for its type", w)
                ck.ob("used-column-attribute", f.name, len(at) == 1, "a column that was asked for has %d attributes in the schema" % len(at), w)
                for e in at:
                    parts = flatten(e.args)
                    cs = [wk.col(a) for a in parts]
                    ck.ob("attribute-type", f.name, any(c is not None and c[1] == "types" and c[0] in over for c in cs),
                          "the type of a column in the schema is not the type it is parsed as", where_of(f, e))
                    named = any(c is not None and c[1] == "names" and c[0] in over for c in cs)
                    dd = known(seg, lambda x: flag_of(x, "dedupe_column_names"))
                    other = any(a[0] == "r" and "loop:" in str(a[1]) or a[0] in ("mut", "m") for a in parts)
                    ck.ob("attribute-name", f.name, named or (dd is True and other), "the name of a column in the schema is not its name", where_of(f, e))
                    if dd:
                        tries = [x for x in seg if x.kind == "call" and short(x.name) in ("try_emplace", "emplace", "insert")]
                        ck.ob("dedupe", f.name, bool(tries) and any(mentions_truth(x, seg) for x in [1]), "a repeated name is kept although it should be made unique", where_of(f, e))
                    elif dd is None:
                        ck.ob("dedupe-considered", f.name, False, "whether repeated names are made unique is not looked at", where_of(f, e))
                    else:
                        ck.ob("dedupe-not-asked", f.name, named, "a name is changed although repeated names need not be made unique", where_of(f, e))
                    dims = [x for a in e.args for x in lists_in(a)]
                    ok = any(len(d) == 2 and names_in(d[0], lambda s: s == "batch_size") and d[1] == ("c", 1) for d in dims)
                    ck.ob("attribute-shape", f.name, ok, "the shape of a column in the schema is not batch size by 1", where_of(f, e))
        dedupe_loop(ck, csv, f, i, r, wk)
    ck.ob("selection-cases", f.name, seen == {True, False}, "used and unused columns are not told apart", where_of(f))


def mentions_truth(_, seg):
    """Does the path know that the last name it tried was a new one?"""
    return any(e.kind == "fact" and e.args[0] and (names_in(e.name, lambda s: "try_emplace" in s or "emplace" in s or "insert" in s or s.startswith("loop:"))) for e in seg)


def dedupe_loop(ck, csv, f, i, r, wk):
    """In the loop that looks for an unused name, every try is made with a name that has just been changed."""
    t = r.trace
    for j, k, kind in loop_segments(t):
        if kind != "iter" or wk.counted(j, k):
            continue
        seg = t[j:k]
        tries = [x for x in seg if x.kind == "call" and short(x.name) in ("try_emplace", "emplace", "insert") and not field_term(x.obj, csv.names)]
        if not tries:
            continue
        ch = [e for e in seg if e.kind in ("lwrite", "write") and e.obj is not None and any(x[0] == e.obj for x in (t[j].extra or {}).items())]
        before = [e for e in ch if seg.index(e) < seg.index(tries[-1])]
        vals = [e.args[0] for e in before]
        arg = tries[-1].args[0] if tries[-1].args else None
        ck.ob("dedupe-changes-name", f.name, arg is not None and any(contains(arg, v) or v == arg for v in vals),
              "the name tried next is the one that was already taken", where_of(f, tries[-1]))


def inner_of(segs, t, j):
    return any(a < j <= end_of(t, a) for a, _, _ in segs if a != j)


def flatten(args):
    out = []
    for a in args:
        out.append(a)
        if isinstance(a, tuple) and a and a[0] == "new":
            out += flatten([x for x in a[3:] if isinstance(x, tuple)])
        if isinstance(a, tuple) and a and a[0] == "agg":
            out += flatten([v for _, v in a[2]])
    return out


def lists_in(t):
    out = []

    def look(x):
        if x and x[0] == "list":
            out.append([y for y in x[2:]] if not (len(x) == 3 and isinstance(x[2], tuple) and x[2] and isinstance(x[2][0], tuple)) else list(x[2]))
        return False
    mentions(t, look)
    return out


# ------------------------------------------------------------------ the tensors of a batch
def tensors(ck, csv):
    m = csv.m
    fs = [f for f in m.methods(csv.c) if f.body is not None and "Tensor" in (f.ret or "") and "vector" in (f.ret or "")] if hasattr(next(iter(m.fns.values())), "ret") else []
    if not fs:
        fs = [f for f in m.methods(csv.c) if f.body is not None and f.short == "make_tensors"]
    ck.need(fs, "the function that makes the tensors of a batch")
    f = fs[0]
    i, rs = csv.interp(f, this_cls=csv.c)
    ck.saw(f.name)
    seen = set()
    for r in rs:
        if not normal(r):
            continue
        t = r.trace
        wk = Walk(csv, i, r)
        for j, k, kind in loop_segments(t):
            seg = t[j:k if k is not None else len(t)]
            at = [e for e in seg if e.kind == "call" and short(e.name) in ADD]
            if kind == "leave" and at:
                ck.ob("tensors-all-columns", f.name, False, "the columns behind one get no tensor", where_of(f, t[j]))
            if kind != "iter":
                continue
            w = where_of(f, t[j])
            over = wk.counted(j, k)
            ck.ob("tensors-all-columns", f.name, bool(over), "tensors are not made for all columns in order", w)
            ign = ignored(wk, seg, over)
            ck.ob("tensor-selection", f.name, ign is not None, "a tensor is made without looking whether its column is used", w)
            if ign is None:
                continue
            seen.add(ign)
            ck.ob("tensor-per-used-column", f.name, len(at) == (0 if ign else 1), "%s column gets %d tensors" % ("an unused" if ign else "a used", len(at)), w)
            if not ign:
                mk = [e for e in seg if e.kind == "call" and names_in(e.name, lambda s: short(s).startswith("make_") and "array" in s)]
                good = any(any((lambda c: c is not None and c[1] == "types" and c[0] in over)(wk.col(a)) for a in e.args) for e in mk)
                ck.ob("tensor-of-own-type", f.name, good, "the tensor of a column does not have the column's type", w)
                size = any(("init", ("obj", "arg0")) == a or names_in(a, lambda s: s == "arg0") for e in mk for a in e.args)
                ck.ob("tensor-of-batch-size", f.name, size, "the tensor of a column has not room for the batch", w)
    ck.ob("tensor-cases", f.name, seen == {True, False}, "used and unused columns are not told apart", where_of(f))


def ignored(wk, seg, over):
    for e in seg:
        if e.kind != "fact":
            continue
        a, v = e.name, e.args[0]
        if a[0] == "eq0" and a[1] == 0 and len(a[2]) == 1:
            c = wk.col(a[2][0][0])
            if c is not None and c[1] == "ignores" and (not over or c[0] in over):
                return not v
        if a[0] == "eq0" and len(a[2]) == 1 and abs(a[1]) == 1:
            c = wk.col(a[2][0][0])
            if c is not None and c[1] == "ignores" and (not over or c[0] in over):
                return v
        c = wk.col(a)
        if c is not None and c[1] == "ignores":
            return v
        if a[0] == "pos" and len(a[2]) == 1:
            c = wk.col(a[2][0][0])
            if c is not None and c[1] == "ignores" and a[1] == 0 and a[2][0][1] > 0:
                return v
    return None


# ------------------------------------------------------------------ a row
def rows(ck, csv):
    m = csv.m
    # what the iterators handed to the decoder walk over
    maker = [f for f in m.methods(csv.c) if f.body is not None and any(
        n.get("k") == "call" and n.get("fn") == ZIP and len(n.get("args", ())) >= 4 for n in F.fn_nodes(f))]
    beg = end = None
    mk = maker[0] if maker else None
    if mk is not None:
        i, rs = csv.interp(mk, this_cls=csv.c)
        ck.saw(mk.name)
        for r in rs:
            for z in csv.zips(r.trace).values():
                if all(x[1] == "begin" for x in z):
                    beg = z
                elif all(x[1] == "end" for x in z):
                    end = z
        ck.ob("columns-begin-end", mk.name, bool(beg) and bool(end) and [x[0] for x in beg] == [x[0] for x in end] and None not in [x[0] for x in beg],
              "the first and the last position over the columns do not walk over the same tables", where_of(mk))
    fs = [f for f in m.fns.values() if f.file == csv.file and f.body is not None and any(
        n.get("k") == "call" and short(n.get("fn") or "") == "next" and "okenizer" in (n.get("cls") or n.get("fn") or "") for n in F.fn_nodes(f)) and
        any(n.get("k") == "call" and is_parse_call(n) for n in F.fn_nodes(f))]
    ck.need(fs, "the function that decodes a row")
    for f in fs:
        decode_row(ck, csv, f, beg)


def is_parse_call(n):
    return n.get("op") == "()" and "function" in (n.get("cls") or "") or "std::function" in (n.get("fn") or "") and "operator()" in (n.get("fn") or "")


def decode_row(ck, csv, f, beg):
    i, rs = csv.interp(f)
    ck.saw(f.name)
    cases = set()
    for r in rs:
        t = r.trace
        wk = Walk(csv, i, r)
        # where the walk over the columns starts: the member given at construction
        for fr, en in list(wk.entry.items()):
            if beg and en[0] in ("f", "init") and names_in(en, lambda s: "beg" in s or "col" in s or "pos" in s) and en not in wk.z and is_colbeg(csv, f, en):
                wk.z[en] = beg
        for j, k, kind in loop_segments(t):
            seg = t[j:k if k is not None else len(t)]
            nx = [e for e in seg if e.kind == "call" and short(e.name) == "next" and "okenizer" in e.name]
            if not nx:
                continue
            if not any(e.kind == "fact" and ends_walk(e.name, wk) for e in seg) and kind == "iter":
                # a loop that only counts the remaining fields
                if not any(e.kind == "call" and short(e.name) == "operator()" for e in seg) and not advances(t, j, k, wk):
                    continue
            ig = ignored(wk, seg, [])
            calls = [e for e in seg if e.kind == "call" and e.name == "std::function::operator()"]
            w = where_of(f, t[j])
            if kind != "iter":
                if calls:
                    check_parse(ck, csv, f, i, wk, seg, calls, ig, w)
                continue
            adv = advances(t, j, k, wk)
            ck.ob("field-per-column", f.name, adv.get("col") == 1 and len(nx) == 1, "a field is read and the column goes on by %s" % adv.get("col"), w)
            ck.ob("unused-column-known", f.name, ig is not None, "a field is handled without looking whether its column is used", w)
            if ig is None:
                continue
            cases.add(ig)
            if ig:
                ck.ob("unused-column-no-tensor", f.name, not calls and adv.get("tsr", 0) == 0, "a column that is not used takes a tensor", w)
            else:
                ck.ob("used-column-next-tensor", f.name, adv.get("tsr") == 1, "a column that is used does not take exactly one tensor", w)
                ck.ob("used-column-parsed", f.name, len(calls) == 1, "a field of a used column is parsed %d times" % len(calls), w)
                check_parse(ck, csv, f, i, wk, seg, calls, ig, w)
                for c in calls:
                    okv = parsed_ok(seg, c)
                    ck.ob("field-accepted-only-if-parsed", f.name, okv is True, "a field that cannot be parsed is accepted", w)
        if normal(r):
            if r.value == TRUE or (r.value[0] == "c" and r.value[1] is True):
                at_end = any(v and ends_walk(a, wk) for a, v in facts(t))
                last = [e for e in t if e.kind == "call" and short(e.name) == "next" and "okenizer" in e.name]
                done = any(v and names_in(a, lambda s: s.endswith("okenizer::eof")) for a, v in facts(t)) or \
                    (last and any((not v) and a == last[-1].extra for a, v in facts(t)))
                ck.ob("row-complete", f.name, at_end, "a row with too few fields is accepted", where_of(f))
                ck.ob("row-not-longer", f.name, done, "a row with too many fields is accepted", where_of(f))
            elif not (r.value[0] == "c"):
                ck.ob("row-result", f.name, False, "whether the row is good is not settled: %s" % show(r.value), where_of(f))
        rs_ = [e for e in t if e.kind == "call" and short(e.name) == "reset" and "okenizer" in e.name] + [e for e in t if e.kind == "ctor" and "okenizer" in e.name]
        if any(e.kind == "call" and short(e.name) == "next" for e in t):
            ck.ob("row-from-instance", f.name, bool(rs_) and any(names_in(a, lambda s: short(s) == "bits") for e in rs_ for a in e.args),
                  "the fields are not those of the row that is decoded", where_of(f))
    ck.ob("row-cases", f.name, cases == {True, False}, "used and unused columns are not told apart when a row is decoded", where_of(f))


def is_colbeg(csv, f, en):
    L = en[1] if en[0] == "init" else en
    return L[0] == "f" and any("zip_iterator" in x["t"] and x["n"] == L[2] for _, x in csv.m.fields(f.cls)) if f.cls else True


def ends_walk(a, wk):
    """Is the atom "the column position is the end position"?"""
    if a[0] == "eq":
        return bool(any(is_col_term(x, wk) for x in a[1:3]))
    return False


def is_col_term(x, wk):
    z = wk.root(x, True)
    return bool(z) and any(p[0] == "ignores" for p in z)


def advances(t, j, k, wk):
    out = {}
    for L, (en, fr) in (t[j].extra or {}).items():
        end = (t[k].extra or {}).get(L)
        if end is None:
            continue
        c, d = wk.i.lin(end)
        step = c if d == {fr: 1} else "?"
        if is_col_term(fr, wk):
            out["col"] = step
        elif names_in(en, lambda s: short(s) == "begin") and names_in(en, lambda s: "tensors" in s):
            out["tsr"] = step
    return out


def parsed_ok(seg, c):
    en = None
    for e in seg:
        if e.kind == "fact" and e.name[0] == "eq0" and any(x[0] == c.extra for x in e.name[2]):
            k = -e.name[1] * (e.name[2][0][1] or 1)
            if k == 0:
                en = e.args[0]
            elif e.args[0]:
                en = False
    return en


def check_parse(ck, csv, f, i, wk, seg, calls, ig, w):
    for c in calls:
        col = None
        x = c.extra
        if x is not None and x[0] == "m":
            col = wk.col(x[2]) if isinstance(x[2], tuple) else None
        ck.ob("parser-of-own-column", f.name, col is not None and col[1] == "parsers", "a field is not parsed by its column's parser", w)
        args = list(c.args)
        val = any(names_in(a, lambda s: s.endswith("okenizer::value")) for a in args)
        ck.ob("parser-gets-field", f.name, val, "what is parsed is not the field", w)
        row = any(a == ("init", ("obj", "arg0")) or names_in(a, lambda s: s == "arg0") for a in args)
        ck.ob("parser-gets-row", f.name, row, "the value is not written to the row's place", w)
        dat = [e for e in seg if e.kind == "call" and short(e.name) == "data" and e.extra in args]
        good = False
        for e in dat:
            term = e.obj
            good = good or names_in(term, lambda s: s.startswith("loop:")) and refers_tensors(term, wk)
        ck.ob("parser-gets-tensor", f.name, good, "the value is not written to the column's tensor", w)


def refers_tensors(term, wk):
    hit = []

    def look(x):
        if x in wk.entry and names_in(wk.entry[x], lambda s: "tensors" in s):
            hit.append(x)
        return False
    mentions(term, look)
    return bool(hit)
