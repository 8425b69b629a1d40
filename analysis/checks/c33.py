"""File lists hold exactly the files that match, in a fixed natural order.

Every path of the functions that list files and objects is followed. What a path does with an entry of the directory tree (takes it, leaves it out,
fails) is compared with what it found out about the entry: its kind, the pattern and the predicate."""
from absint import Interp
from model import calls
from util import *

ASSUMPTIONS = ["fts_open(), fts_read() and fnmatch() do what POSIX and the C library document; strnatcmp() is the natural order",
               "with FTS_NOCHDIR the path of an entry and the path it can be opened with are the same"]
ERRORS = {4: "FTS_DNR", 7: "FTS_ERR", 10: "FTS_NS"}
FILE, FREE = 8, {2}                 # a cycle may be left out or refused
REG = ("S_IFREG", 0o100000)
ADD = ("emplace_back", "push_back", "insert", "emplace")


def run(ck):
    m = ck.model("core", "py")
    fs = [f for f in m.fns.values() if f.body is not None and f.cls is None]
    files = [f for f in fs if f.short == "list_files" and len(f.params) == 2 and "File_list_options" in str(f.params[1]["t"])]
    objs = [f for f in fs if f.short == "list_s3_objects" and len(f.params) == 3 and "S3_object_list_options" in str(f.params[2]["t"])]
    ck.need(len(files) == 1 and len(objs) == 1, "the functions that list files and objects")
    walking(ck, m, files[0])
    listing(ck, m, objs[0])
    n = 0
    for f in fs:
        if f.id in (files[0].id, objs[0].id):
            continue
        for target, skip in ((files[0], 0), (objs[0], 1)):
            n += passing(ck, m, f, target, skip)
    ck.need(n >= 4, "the ways to list files and objects")


def field(t, name):
    return mentions(t, lambda x: x[:1] in (("f",), ("fld",)) and len(x) > 2 and x[2] == name) if isinstance(t, tuple) else False


class Choice:
    """What a stretch of a path found out about the pattern and the predicate."""

    def __init__(self, i, r, seg, entry, before=()):
        self.bad = []
        self.empty = self.nonempty = self.match = self.nomatch = self.broken = None
        self.accepted = self.refused = self.no_predicate = None
        calls = {}
        set_ptr = set_fn = False
        for n, e in enumerate(list(before) + list(seg)):
            if n < len(before):
                # only what holds for all entries
                if e.kind != "fact" or mentions(e.name, lambda x: x[:1] in (("m",), ("r",)) and (str(x[1]) == "fnmatch" or str(x[1]).endswith("operator()"))):
                    continue
            if e.kind == "call" and e.name == "fnmatch":
                calls[e.extra] = e
                a = e.args
                if not (len(a) == 3 and field(a[0], "pattern") and mentions(a[1], entry) and a[2] == ("c", 0)):
                    self.bad.append(("the pattern is not compared as a whole with the path of the entry", e))
                if not self.nonempty:
                    self.bad.append(("an empty pattern, which stands for everything, is compared", e))
            elif e.kind == "call" and e.name == "std::function::operator()" and (field(e.obj, "predicate") if isinstance(e.obj, tuple) else False):
                calls[e.extra] = e
                if not (e.args and mentions(e.args[0], entry)):
                    self.bad.append(("the predicate is not asked about the path of the entry", e))
                if not (set_ptr and set_fn):
                    self.bad.append(("a predicate that may not be there is called", e))
            elif e.kind == "fact":
                a, t = e.name, e.args[0]
                if a[0] in ("eq0", "pos") and len(a) == 3:
                    fm = [x for x, _ in a[2] if x in calls and calls[x].name == "fnmatch"]
                    if fm:
                        x = fm[0]
                        zero, one = (i.decide(r.state, ("eq0", -k, ((x, 1),))) for k in (0, 1))
                        self.match = zero is True
                        self.nomatch = one is True or None
                        self.unequal = zero is False
                        self.broken = zero is False and one is False
                    elif any(field(x, "pattern") for x, _ in a[2]):
                        emp = t if a[0] == "eq0" and a[1] == 0 else (not t if a[0] == "pos" and a[1] == 0 and a[2][0][1] > 0 else None)
                        if emp is not None:
                            self.empty, self.nonempty = emp, not emp
                elif a[0] == "has" and isinstance(a[1], tuple):
                    x = a[1]
                    if x in calls:
                        self.accepted, self.refused = t, not t
                    elif field(x, "predicate"):
                        inner = x[0] == "init" and isinstance(x[1], tuple) and x[1][0] == "*" or x[0] in ("obj", "*") or x[0] == "m" and str(x[1]).endswith("::operator bool")
                        if not t:
                            self.no_predicate = True
                        elif inner:
                            set_fn = True
                        else:
                            set_ptr = True

    def take(self):
        if not (self.empty or self.match):
            return "although the pattern may not match"
        if not (self.no_predicate or self.accepted):
            return "although the predicate may not accept it"
        return None

    def leave(self):
        return bool(self.refused or self.nonempty and getattr(self, "unequal", False))


# -- files

def adds_file(e):
    return e.name.rsplit("::", 1)[-1] in ADD and any(mentions(a, lambda y: y[:1] == ("new",) and y[1] == "mlio::File") for a in e.args)


def walking(ck, m, f):
    ck.saw(f)
    for peel in (0, 1):
        # (a loop that is only left from within is seen to go on only if its first turn is taken apart)
        i = Interp(m, peel=peel, opaque=lambda fn, call: fn.is_ctor or "logger" in fn.name)
        rs = ck.interp_done(i, i.run(f))
        if any(e.kind == "call" and adds_file(e) for r in rs if r.outcome == "return" for e in r.trace):
            break
    took = 0
    order = None
    for r in rs:
        opens = [e for e in r.trace if e.kind == "call" and e.name == "fts_open"]
        reads = [e for e in r.trace if e.kind == "call" and e.name == "fts_read"]
        entry, used = carried(r.trace, {e.extra for e in reads})
        starts = [k for k, e in enumerate(r.trace) if e.kind == "fact" and e.name[0] == "has" and entry(e.name[1])]
        for e in r.trace:
            if e.kind == "call" and e.name in ("std::transform", "std::copy", "std::copy_n", "std::for_each") and mentions(e.args[0], lambda x: x == ("obj", "arg0")):
                a, b = i.lin(e.args[0]), i.lin(e.args[1])
                size = [(x, n) for x, n in (b[1] if b else {}).items() if field(x, "size_") and x not in a[1]] if a and b else []
                ck.ob("C33.walk-paths", f.short, bool(a and b) and a[0] == 0 and b[0] == 0 and len(size) == 1 and size[0][1] == 1 and len(b[1]) == (1 if e.name == "std::copy_n" else 2),
                      "only some of the paths given are walked", where(e))
        for e in opens:
            o = e.args[1][1] if e.args[1][:1] == ("c",) else None
            ck.ob("C33.walk", f.short, isinstance(o, int) and o & 2 and not o & (1 | 8 | 0x10 | 0x20 | 0x40), "the options with which the paths are walked leave out or repeat files", where(e))
            ck.ob("C33.walk-paths", f.short, mentions(e.args[0], lambda x: x[:1] in (("mut",), ("m",), ("r",), ("new",), ("obj",))), "other paths than the ones given are walked", where(e))
            order = e
        if not reads:
            ck.ob("C33.walked", f.short, r.outcome == "throw", "a list is handed out although nothing was walked", f.where(0))
            continue
        for e in reads:
            ck.ob("C33.end", f.short, e.extra in used or any(r.trace[k].name[1] == e.extra for k in starts), "an entry is used that may not be there", where(e))
        for n, k in enumerate(starts):
            e = r.trace[k]
            R = e.name[1]
            end = starts[n + 1] if n + 1 < len(starts) else len(r.trace)
            seg = r.trace[k:end]
            last = end == len(r.trace)
            there = e.args[0]
            adds = [x for x in seg if x.kind == "call" and adds_file(x)]
            if there is not True:
                ck.ob("C33.end", f.short, not adds, "an entry is used that may not be there", where(e))
                continue
            if last and r.outcome == "return":
                ck.ob("C33.all", f.short, False, "the walk ends before all entries were seen", where(e))
                continue
            info = ("init", ("f", ("*", R), "fts_info"))
            kinds = {x for x in range(1, 15) if i.decide(r.state, ("eq0", -x, ((info, 1),))) is not False}
            of = lambda x, R=R: x[:1] == ("f",) and len(x) > 2 and x[2] in ("fts_accpath", "fts_path") and mentions(x[1], lambda y: y == R)
            c = Choice(i, r, seg, of, r.trace[:k])
            for msg, ev in c.bad:
                ck.ob("C33.asked", f.short, False, msg, where(ev))
            reg = None
            for a, t in facts(seg):
                if a[0] == "eq0" and len(a) == 3 and len(a[2]) == 1 and a[1] == -REG[1] and mentions(a[2][0][0], lambda y: y[:1] == ("f",) and y[2:] == ("st_mode",) or y[:1] == ("f",) and "st_mode" in str(y[-1])):
                    reg = t
            if last and r.outcome == "throw":
                ck.ob("C33.refused", f.short, kinds <= set(ERRORS) | FREE or bool(c.broken), "an entry that can be read makes the whole list fail", where(seg[-1]))
                continue
            err = kinds & set(ERRORS)
            ck.ob("C33.unreadable", f.short, not err, "an entry that cannot be read (%s) is passed over in silence" % ", ".join(ERRORS[x] for x in sorted(err)), where(e))
            if adds:
                took += 1
                ck.ob("C33.once", f.short, len(adds) == 1, "a file is listed more than once", where(adds[0]))
                ck.ob("C33.file", f.short, kinds == {FILE} or reg is True, "something that may not be a file is listed", where(adds[0]))
                why = c.take()
                ck.ob("C33.match", f.short, why is None, "a file is listed %s" % why, where(adds[0]))
                new = []
                for a in adds[0].args:
                    mentions(a, lambda y: y[:1] == ("new",) and y[1] == "mlio::File" and new.append(y) and False)
                v = new[0]
                ck.ob("C33.path", f.short, len(v) > 3 and mentions(v[3], of), "the file listed is not the one that was looked at", where(adds[0]))
                ck.ob("C33.how", f.short, len(v) > 5 and field(v[4], "memory_map") and field(v[5], "compression"), "a file is not read as the options say", where(adds[0]))
            elif FILE in kinds and reg is not False:
                ck.ob("C33.missing", f.short, c.leave(), "a file is left out although neither the pattern nor the predicate says so", where(e))
            else:
                ck.ob("C33.missing", f.short, True, "", where(e))
    ck.need(took and order is not None, "the files that are listed")
    natural(ck, m, f, order)


def carried(trace, reads):
    """The terms that stand for an entry: what fts_read() returned, or a variable that always holds such a value."""
    first, later = {}, {}
    for e in trace:
        if e.kind == "loop" and isinstance(e.extra, dict):
            for L, v in e.extra.items():
                first[L] = (v[0], v[1][1] if v[1][:1] == ("r",) else None)
        elif e.kind == "iter" and isinstance(e.extra, dict):
            for L, v in e.extra.items():
                later.setdefault(L, []).append(v)
    good = {s: {v} | set(x for x in later.get(L, ()) if x in reads) for L, (v, s) in first.items() if s and v in reads and all(
        x in reads or x[:2] == ("r", s) for x in later.get(L, ()))}
    return (lambda x: x in reads or x[:1] == ("r",) and x[1] in good), set().union(*good.values()) if good else set()


def natural(ck, m, f, e):
    """The order in which the entries of a directory are visited."""
    g = e.args[2]
    lam, ref = [], []
    mentions(g, lambda x: x[:1] == ("lambda",) and lam.append(x) and False)
    mentions(g, lambda x: x[:1] == ("fnref",) and ref.append(x) and False)
    i = Interp(m, peel=0)
    h = next((x for x in m.fns.values() if ref and x.id == ref[0][2]), None)
    if not lam and h is None:
        ck.ob("C33.order", f.short, g != ("null",) and g != ("c", 0), "files are listed in the order in which they lie on the disk", where(e))
        ck.need(g == ("null",) or g == ("c", 0), "the order of files")
        return
    for r in ck.interp_done(i, i.run_lambda(lam[0][3].node, f) if lam else i.run(h)):
        nat = [x for x in r.trace if x.kind == "call" and x.name == "strnatcmp"]
        what = h.short if h else "order"
        at = where(nat[0]) if nat else (h or f).where(0)
        ck.ob("C33.order", what, len(nat) >= 1 and all(direction(x) for x in nat), "files are not listed in natural order", at)
        if not nat or not all(direction(x) for x in nat):
            continue
        x = nat[0].extra
        tie = i.decide(r.state, ("eq0", 0, ((x, 1),)))
        lin = i.lin(r.value) if isinstance(r.value, tuple) else None
        own = lin is not None and lin[0] == 0 and list(lin[1].items()) == [(x, direction(nat[0]))]
        if tie is False:
            good = own
            if not own and r.value[:1] == ("c",):
                pos = i.decide(r.state, ("pos", 0, ((x, direction(nat[0])),)))
                good = pos is not None and (r.value[1] > 0) == pos and r.value[1] != 0
            ck.ob("C33.order", what, good, "files are not listed in natural order", at)
        else:
            ck.ob("C33.tie", what, tie is True and not own and mentions(r.value, lambda y: y[:1] in (("r",), ("m",))),
                  "different names that compare the same (they differ in white space) are listed in the order in which they lie on the disk", at)


def direction(e):
    a = [{k for k in (0, 1) if mentions(x, lambda y, k=k: y == ("obj", "arg%d" % k))} for x in e.args[:2]]
    return 1 if a == [{0}, {1}] else -1 if a == [{1}, {0}] else 0


# -- objects

def listing(ck, m, f):
    ck.saw(f)
    i = Interp(m, peel=0, opaque=lambda fn, call: fn.is_ctor or fn.short == "list_objects" or "split" in fn.short or "logger" in fn.name)
    sorts, filters, asked = {}, {}, 0
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        at = None
        for k, e in enumerate(r.trace):
            if e.kind != "call":
                continue
            if e.name == "mlio::S3_client::list_objects":
                asked += 1
                a = e.args
                parts = [x for x in a[:2] if mentions(x, lambda y: y[:1] == ("r",) and "split" in str(y[1]))]
                ck.ob("C33.objects", f.short, len(parts) == 2 and a[0] != a[1], "the objects of another bucket or prefix are listed", where(e))
                if len(parts) == 2:
                    ck.ob("C33.objects", f.short, a[0][-1] in ("#0", "first") and a[1][-1] in ("#1", "second"), "the objects of another bucket or prefix are listed", where(e))
                mentions(a[2], lambda x: x[:1] == ("lambda",) and filters.__setitem__(x[1], x) and False)
            elif e.name in ("std::sort", "std::stable_sort"):
                at = k
                b, d = e.args[0], e.args[1]
                ck.ob("C33.sorted", f.short, "begin" in str(b[1]) and "end" in str(d[1]) and b[2:3] == d[2:3], "only a part of the objects is sorted", where(e))
                for a in e.args[2:]:
                    mentions(a, lambda x: x[:1] == ("lambda",) and sorts.__setitem__(x[1], x) and False)
        ck.ob("C33.sorted", f.short, at is not None, "objects are not listed in natural order", f.where(0))
        if at is None:
            continue
        tail = r.trace[at:]
        more = sum(1 for a, t in facts(tail) if a[0] == "more" and t)
        adds = [e for e in tail if e.kind == "call" and e.name.rsplit("::", 1)[-1] in ADD and any(mentions(a, lambda y: y[:1] == ("new",) and y[1] == "mlio::S3_object") for a in e.args)]
        ck.ob("C33.once", f.short, len(adds) == more, "an object is left out or listed more than once", f.where(0))
        for e in adds:
            new = []
            for a in e.args:
                mentions(a, lambda y: y[:1] == ("new",) and y[1] == "mlio::S3_object" and new.append(y) and False)
            v = new[0]
            ck.ob("C33.how", f.short, field(v[-1], "compression"), "an object is not read as the options say", where(e))
            ck.ob("C33.path", f.short, len(v) > 4 and mentions(v[4], lambda y: y[:1] == ("r",) and y[1] == "iter"), "the object listed is not the one that was found", where(e))
    ck.need(asked and filters, "how objects are found")
    for lam in sorts.values():
        less(ck, m, f, lam)
    for lam in filters.values():
        li = Interp(m, peel=0, opaque=lambda fn, call: fn.is_ctor)
        n = 0
        for r in ck.interp_done(li, li.run_lambda(lam[3].node, f)):
            ent = lambda x: x == ("obj", "arg0")
            c = Choice(li, r, r.trace, ent)
            for msg, ev in c.bad:
                ck.ob("C33.asked", f.short, False, msg, where(ev))
            adds = [e for e in r.trace if e.kind == "call" and e.name.rsplit("::", 1)[-1] in ADD and e.args and any(mentions(a, ent) for a in e.args)]
            at = where(adds[0]) if adds else f.where(0)
            if r.outcome == "throw":
                ck.ob("C33.refused", f.short, bool(c.broken), "an object makes the whole list fail", at)
            elif adds:
                n += 1
                why = c.take()
                ck.ob("C33.once", f.short, len(adds) == 1, "an object is listed more than once", at)
                ck.ob("C33.match", f.short, why is None, "an object is listed %s" % why, at)
            else:
                ck.ob("C33.missing", f.short, c.leave(), "an object is left out although neither the pattern nor the predicate says so", at)
        ck.need(n, "the objects that are listed")


def less(ck, m, f, lam):
    i = Interp(m, peel=0)
    for r in ck.interp_done(i, i.run_lambda(lam[3].node, f)):
        nat = [x for x in r.trace if x.kind == "call" and x.name == "strnatcmp"]
        good = bool(nat) and all(direction(x) for x in nat)
        if good:
            x, d = nat[0].extra, direction(nat[0])
            lts = [(("pos", 1, ((x, d),)), False), (("pos", 0, ((x, -d),)), True)]
            v = r.value
            known = [i.decide(r.state, a) == t for a, t in lts if i.decide(r.state, a) is not None]
            if i.decide(r.state, ("eq0", 0, ((x, 1),))) is True:
                good = True
            elif v[:1] == ("cond",):
                good = v[1:3] in lts
            else:
                good = v[:1] == ("c",) and bool(known) and all(bool(v[1]) == k for k in known)
        ck.ob("C33.order", f.short, good, "objects are not listed in natural order", where(nat[0]) if nat else f.where(0))


# -- the other ways in

def passing(ck, m, f, target, skip):
    if not any(True for _ in calls(f.body, target.name)):
        return 0
    ck.saw(f)
    i = Interp(m, peel=0, opaque=lambda fn, call: fn.id == target.id or fn.is_ctor)
    n = 0
    for r in ck.interp_done(i, i.run(f)):
        if r.outcome != "return":
            continue
        cs = [e for e in r.trace if e.kind == "call" and e.name == target.name and len(e.args) == len(target.params)]
        ck.ob("C33.same", f.short, len(cs) == 1 and r.value == cs[0].extra, "the list handed out is not the one that was made", f.where(0))
        for e in cs:
            n += 1
            o = e.args[-1]
            o = dict(o[2]) if o[:1] == ("agg",) else {}
            for k, p in enumerate(f.params):
                t = str(p["t"])
                arg = lambda x, k=k: x == ("obj", "arg%d" % k)
                if "S3_client" in t:
                    got = e.args[0]
                elif "function<" in t or "Predicate" in t:
                    got = o.get("predicate")
                elif "Compression" in t:
                    got = o.get("compression")
                elif t.strip() in ("bool", "const bool", "_Bool"):
                    got = o.get("memory_map")
                elif k == skip:
                    got = e.args[skip]
                elif "string" in t:
                    got = o.get("pattern")
                else:
                    continue
                gone = any((a[0] == "eq0" and t and a[1] == 0 or a[0] == "has" and not t) and mentions(a, arg) for a, t in facts(r.trace))
                ck.ob("C33.passed", f.short, gone or isinstance(got, tuple) and mentions(got, arg), "'%s' is not used as asked for" % p["n"], where(e))
    return 1 if n else 0

