"""Every error, warning and textual representation can be formatted: each format string is fixed by the program, each of
its placeholders refers to a value that is passed and whose type takes the given format, and each passed value is used.

All calls of the formatting functions and of the logging functions built on them, over the type-checked program with
template instantiations."""
import re
from model import walk, fn_nodes
from util import *

ASSUMPTIONS = ["fmt's format grammar (with the presentation type 'n', as in the fmt 6 API the code is written for)."]
FORMAT = {"fmt::format": 0, "fmt::print": 0, "fmt::format_to": 1, "fmt::format_to_n": 2, "fmt::formatted_size": 0, "fmt::sformat": 0}
INT = re.compile(r"^(?:unsigned |signed )?(?:long long|long|int|short|char)(?: int)?$|^(?:unsigned|__int128|bool|size_t|std::u?int\d+_t|u?int\d+_t|std::size_t|std::ptrdiff_t|unsigned char|signed char)$")
SPEC = re.compile(r"^(?:(?P<fill>[^{}]?)(?P<align>[<>=^]))?(?P<sign>[+\- ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+|\{[^{}]*\})?(?:\.(?P<prec>\d+|\{[^{}]*\}))?(?P<loc>L)?(?P<type>[a-zA-Z%?])?$")


def kind(t):
    t = (t or "").replace("const ", "").strip().rstrip("&").strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    if t == "bool":
        return "bool"
    if t == "char":
        return "char"
    if INT.match(t):
        return "int"
    if t in ("float", "double", "long double"):
        return "float"
    if re.match(r"^(char ?(\*|\[\d*\])|std::basic_string<char|std::basic_string_view<char|std::string|fmt::basic_string_view<char|fmt::v\d+::basic_string_view<char)", t):
        return "str"
    if t in ("void *", "std::nullptr_t"):
        return "ptr"
    mm = re.match(r"^fmt::(?:v\d+::)?join_view<(.*)$", t)
    if mm:
        e = re.search(r"<(?:const )?((?:unsigned |signed )?(?:long long|long|int|short|char|float|double))(?: const)?(?: \*|[,>])", "<" + mm.group(1) if not mm.group(1).startswith("<") else mm.group(1))
        if e:
            return kind(e.group(1))
        if re.search(r"basic_string(_view)?<char", mm.group(1)[:120]):
            return "str"
        e = re.match(r"^(?:const )?([\w: ]+?)(?: const)? \*", mm.group(1))
        return kind(e.group(1)) if e else "other"
    return "other"


def accepts(k, s):
    """Does a value of kind k take the format specification s?  Returns an error text or None."""
    g = SPEC.match(s)
    if k == "other":
        return None if g and not (g.group("type") or g.group("sign") or g.group("alt") or g.group("zero") or g.group("loc")) else "a format for numbers or text is given for a value that is printed as an object"
    if g is None:
        return "'%s' is not a format specification" % s
    ty = g.group("type")
    num = k in ("int", "float", "bool", "char")
    ok = {"int": "bBcdoxXn", "bool": "bBcdoxXns", "char": "bBcdoxXn?", "float": "aAeEfFgGn%", "str": "s?", "ptr": "p"}[k] if k != "ptr" else "p"
    if ty and ty not in ok and not (k == "str" and ty == "p"):
        return "the presentation type '%s' does not fit a value of type %s" % (ty, NAMES[k])
    if (g.group("sign") or g.group("alt") or g.group("loc") or g.group("align") == "=") and not num:
        return "a numeric format is given for %s" % NAMES[k]
    if g.group("zero") and k == "str":
        return "a numeric format is given for %s" % NAMES[k]
    if g.group("prec") and k in ("int", "ptr", "char", "bool"):
        return "a precision is given for %s" % NAMES[k]
    return None


NAMES = {"int": "an integer", "float": "a floating-point number", "str": "text", "bool": "a boolean", "char": "a character", "ptr": "a pointer", "other": "an object"}


def parse(s):
    """[(index or None, spec)], error"""
    out, i, auto = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == "{":
            if s[i + 1:i + 2] == "{":
                i += 2
                continue
            d, j = 1, i + 1
            while j < len(s) and d:
                d += {"{": 1, "}": -1}.get(s[j], 0)
                j += 1
            if d:
                return out, "an opening brace is not closed"
            body = s[i + 1:j - 1]
            idx, _, spec = body.partition(":")
            if idx == "":
                n, auto = auto, auto + 1
            elif idx.isdigit():
                n = int(idx)
            else:
                return out, "the placeholder '{%s}' has no index" % body
            out.append((n, spec))
            for x in re.findall(r"\{(\d*)\}", spec):
                n, auto = (int(x), auto) if x else (auto, auto + 1)
                out.append((n, None))
            i = j
            continue
        if c == "}":
            if s[i + 1:i + 2] != "}":
                return out, "a closing brace has no opening one"
            i += 2
            continue
        i += 1
    return out, None


def strip(e):
    while isinstance(e, dict) and e.get("k") == "init" and len(e.get("a") or ()) == 1:
        e = e["a"][0]
    while isinstance(e, dict) and e.get("k") in ("cast", "icast", "move", "fwd", "temp", "paren") and e.get("e") is not None:
        e = e["e"]
    while isinstance(e, dict) and e.get("k") == "ctor" and len([a for a in e.get("args", ()) if a.get("k") != "defarg"]) == 1 and ("string_view" in str(e.get("fn")) or "basic_string" in str(e.get("fn")) or "runtime" in str(e.get("fn")) or "format_string" in str(e.get("fn"))):
        e = strip(e["args"][0])
    if isinstance(e, dict) and e.get("k") == "call" and e.get("fn") in ("fmt::runtime", "fmt::to_string_view") and e.get("args"):
        return strip(e["args"][0])
    return e


def literals(f, e, depth=0):
    """The string literals e can stand for; None if it can be anything else."""
    if depth > 4:
        return None
    e = strip(e)
    if e is None:
        return None
    if e.get("k") == "str":
        return [e]
    if e.get("k") == "cond":
        a, b = literals(f, e.get("a") or e.get("then"), depth), literals(f, e.get("b") or e.get("else"), depth)
        return None if a is None or b is None else a + b
    if e.get("k") == "call" and e.get("id") and M:
        g = M[0].resolve_call(e, f.tu)
        if g is None or g.body is None:
            return None
        out = []
        for n in fn_nodes(g, lambdas=False):
            if n.get("k") == "return":
                l = literals(g, n.get("e"), depth + 1)
                if l is None:
                    return None
                out += l
        return out or None
    if e.get("k") == "ref" and e.get("dk") == "parm" and M:
        i = next((i for i, p in enumerate(f.params) if p.get("d") == e.get("d")), None)
        out = []
        for c, n in M[1].get(f.id, ()) if i is not None else ():
            l = literals(c, n["args"][i], depth + 1) if i < len(n.get("args", ())) else None
            if l is None:
                return None
            out += l
        return out or None
    if e.get("k") == "ref" and M and (M[0].globals.get(e.get("qn")) or {}).get("init"):
        return literals(f, M[0].globals[e["qn"]]["init"], depth + 1)
    if e.get("k") == "ref" and e.get("dk") in ("var", "slocal"):
        out, seen = [], False
        for n in fn_nodes(f):
            src = None
            if n.get("k") == "var" and n.get("d") == e.get("d"):
                src, seen = n.get("init"), True
                if src is None or (src.get("k") in ("init", "ctor", "zero", "null") and not src.get("args") and not src.get("a")):
                    continue
            elif n.get("k") == "bin" and n.get("op") == "=" and strip(n.get("a")).get("k") == "ref" and strip(n["a"]).get("d") == e.get("d"):
                src = n.get("b")
            elif n.get("k") == "call" and str(n.get("fn", "")).endswith("operator=") and strip(n.get("obj") or {}) and strip(n["obj"]).get("d") == e.get("d"):
                src = n["args"][0] if n.get("args") else None
            else:
                continue
            l = literals(f, src, depth + 1)
            if l is None:
                return None
            out += l
        return out if seen and out else None
    return None


M = ()


def wrappers(m):
    """Functions that pass one of their parameters on as a format string together with a parameter pack."""
    out = {}
    for _ in range(4):
        n0 = len(out)
        for f in m.fns.values():
            if f.body is None or f.name in FORMAT:
                continue
            for n in fn_nodes(f):
                if n.get("k") != "call":
                    continue
                k = position(n, out)
                if k is None or k >= len(n.get("args", ())):
                    continue
                e = strip(n["args"][k])
                if e and e.get("k") == "ref" and e.get("dk") == "parm":
                    for i, p in enumerate(f.params):
                        if p.get("d") == e.get("d") and (i + 1 < len(f.params) or f.d.get("variadic")) and all(forwards(a, f) for a in n["args"][k + 1:]):
                            out[f.id] = (i, f.name)
        if len(out) == n0:
            break
    return out


def forwards(a, f):
    """Is the argument a made of the function's parameters only (a forwarded pack)?"""
    ds = {p.get("d") for p in f.params}
    return all(x.get("d") in ds for x in walk(a) if x.get("k") == "ref" and x.get("dk") in ("parm", "var")) and not any(x.get("k") in ("mem", "this") for x in walk(a))


def position(n, wr):
    fn = n.get("fn") or ""
    if fn.startswith("fmt::"):
        fn = re.sub(r"^fmt::v\d+::", "fmt::", fn)
    if fn in FORMAT:
        return FORMAT[fn]
    if fn in ("fmt::vformat", "fmt::vformat_to"):
        return {"fmt::vformat": 0, "fmt::vformat_to": 1}[fn]
    w = wr.get(n.get("id"))
    return w[0] if w else None


def run(ck):
    m = ck.model("core", "py", "insights")
    callers = {}
    for f in m.fns.values():
        if f.body is not None:
            for n in fn_nodes(f):
                if n.get("k") == "call" and n.get("id"):
                    callers.setdefault(n["id"], []).append((f, n))
    global M
    M = (m, callers)
    wr = wrappers(m)
    wid = set(wr)
    sites = 0
    log1 = {}
    for f in m.fns.values():
        if f.body is None:
            continue
        for n in fn_nodes(f):
            if n.get("k") != "call":
                continue
            k = position(n, wr)
            args = [a for a in n.get("args", ()) if a.get("k") != "defarg"]
            if k is None:
                # the unformatted overload
                fn = n.get("fn") or ""
                if fn.startswith("mlio::logger::") and args and strip(args[-1]).get("k") == "str":
                    sites += 1
                    s = text(strip(args[-1]))
                    ck.ob("F5 a message without values has no placeholders", f.name, not re.search(r"\{\d*(:[^{}]*)?\}", s.replace("{{", "").replace("}}", "")), "the message '%s' is printed as it is" % s[:60], f.where(n["l"]))
                continue
            if k >= len(args):
                continue
            e = strip(args[k])
            if f.id in wid and e.get("k") == "ref" and e.get("dk") == "parm":
                continue
            if short(n["fn"]) in ("vformat", "vformat_to"):
                if f.id not in wid:
                    ck.ob("F1 the format string is fixed", f.name, literals(f, e) is not None, "the format string is computed at run time", f.where(n["l"]))
                continue
            sites += 1
            ck.saw(f.name)
            ls = literals(f, e)
            w = f.where(n["l"])
            if not ck.ob("F1 the format string is fixed", f.name, ls is not None, "the format string is not a literal: text from outside the program can make formatting fail", w):
                continue
            types = [a.get("t") for a in args[k + 1:]]
            for l in ls:
                s = text(l)
                ph, err = parse(s)
                if not ck.ob("F2 the format string is well-formed", f.name, err is None, "%s in '%s'" % (err, s[:80]), w):
                    continue
                for i, spec in ph:
                    if not ck.ob("F3 every placeholder has its value", f.name, i < len(types), "placeholder {%d} of '%s' has no value: %d passed" % (i, s[:60], len(types)), w):
                        continue
                    if spec is None:
                        ck.ob("F4 every value fits its format", f.name, kind(types[i]) == "int", "a width or precision is not an integer", w)
                    elif spec:
                        why = accepts(kind(types[i]), spec)
                        ck.ob("F4 every value fits its format", f.name, why is None, "value {%d} of '%s': %s" % (i, s[:60], why), w)
                used = {i for i, _ in ph}
                miss = [i for i in range(len(types)) if i not in used]
                ck.ob("F6 every value passed is printed", f.name, not miss, "the value {%s} is not part of '%s'" % (",".join(map(str, miss)), s[:80]), w)
    ck.need(sites >= 40, "calls of formatting functions (found %d)" % sites)
    ck.notes.append("%d formatting calls, %d forwarding functions" % (sites, len(wr)))


def text(l):
    return l.get("v") or ""
