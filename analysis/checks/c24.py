"""Every image of an example is the centre crop of the encoded image, in its own slot of a batch x height x width x channels tensor.

The decoder of one image is followed on all paths with everything of its file; the cv::Mat that every call produces is tracked with
what is known of its number of channels and depth, so that the copy to the tensor provably is one that does not reallocate."""
from util import *
from absint import Interp, show
from checks.c23 import meth, peel, interp, results, enums, entries, last

ASSUMPTIONS = ["OpenCV does what it documents: imdecode yields 8-bit images of 1 or 3 channels unless asked to leave the image unchanged, resize keeps the type, cvtColor yields the number of channels of its code, and copyTo reallocates its destination only if size or type differ.",
               "Sizes of images fit into int, also when multiplied with the resize value.",
               "A record reader yields at most batch_size instances per batch (C08)."]
CLS = "mlio::Image_reader"
# colour codes that swap red and blue: code -> (channels taken, channels made)
SWAP = {4: ({3, 4}, 3), 5: ({4}, 4)}
INQUIRE = {"empty", "channels", "depth", "type", "size", "total", "elemSize", "elemSize1", "isContinuous", "dims", "data", "~Mat", "(ctor)", "operator()", "ptr"}


def run(ck):
    m = ck.model("core")
    ck.need(CLS in m.classes, "the image reader")
    f = image_decoder(ck, m)
    image(ck, m, f)
    batch(ck, m, f)
    schema(ck, m)
    dimensions(ck, m)
    frames(ck, m)


def image_decoder(ck, m):
    """the function decode() calls for every instance"""
    g = m.method(CLS, "decode")
    ck.need(g is not None and g.body is not None, "the decoder of a batch")
    c = [x for x in m.methods(CLS) if x.body is not None and x is not g and any("span" in p["t"] for p in x.params) and any(strip(p["t"]) == "mlio::Instance" for p in x.params)]
    ck.need(len(c) == 1, "the decoder of an image")
    return c[0]


def strip(t):
    return t.replace("const ", "").rstrip("&* ").strip()


def run_fn(ck, m, f, opaque=()):
    i = Interp(m, this_cls=f.cls, peel=0, opaque=lambda fn, call: fn.id in opaque or fn.file != f.file and not fn.file.endswith("/span.h"))
    return i, ck.interp_done(i, i.run(f))


def param(f, pred):
    return next(("obj", "arg%d" % k) for k, p in enumerate(f.params) if pred(p["t"]))


def dim(t, k):
    """the k-th of the dimensions (channels, height, width), as given or as converted"""
    t = unconv(t)
    for n in (("e", "elt")):
        if isinstance(t, tuple) and t[0] == n and len(t) == 3 and t[2] == ("c", k):
            return isdims(t[1])
    return meth(t, "at", "operator[]") is not None and len(t) == 4 and t[3] == (("c", k),) and isdims(t[2])


def isdims(b):
    b = peel(b)
    return field_term(b, "img_dims_") or field_term(b, "image_dimensions") or isinstance(b, tuple) and b[0] == "f" and b[2] in ("img_dims_", "image_dimensions")


def unconv(t):
    """without reading, or converting between integral types"""
    while isinstance(t, tuple) and t:
        if t[0] in ("init", "cast") and len(t) >= 2 and isinstance(t[-1], tuple) and (t[0] == "init" and t[1][0] in ("e", "f") or t[0] == "cast"):
            t = t[-1] if t[0] == "cast" else t[1]
        else:
            return t
    return t


def opt_field(a, n):
    """the flag or optional parameter n"""
    return len(a) == 2 and a[0] == "has" and field_term(peel(a[1]), n) or False


def facts_on(fs, n):
    return [v for a, v in fs if opt_field(a, n)]


class Image:
    """what is known of the image behind a term"""
    def __init__(self, kind, src=None, chan=None, depth=None, root=None):
        self.kind, self.src, self.chan, self.depth = kind, src, chan, depth


def refuted(fs, x, what, want):
    """the path established that x.what() is not the wanted value"""
    for a, v in fs:
        if a[0] == "eq0" and len(a[2]) == 1:
            t, k = a[2][0]
            if meth(t, what) is not None and t[2] == x and (-a[1] // k == want) is (not v):
                return True
    return False


def num(t):
    if isinstance(t, tuple) and t[0] == "c" and not isinstance(t[1], bool) and isinstance(t[1], int):
        return t[1]
    if isinstance(t, tuple) and t[0] == "enum":
        return t[2]
    return None


def proxied(t):
    """the image in a proxy for an argument"""
    while isinstance(t, tuple) and t[0] == "new" and t[1] in ("cv::_InputArray", "cv::_OutputArray", "cv::_InputOutputArray") and len(t) > 3:
        t = t[3]
    return t


def args_of(t):
    return t[3:]


def product(i, t):
    """(factors, divisors) of a term made by * and /, sorted; None if it is something else"""
    t = unconv(t)
    if t[0] == "op" and t[1] == "*":
        n = []
        for x in t[2:]:
            p = product(i, x)
            if p[1]:
                return ([t], [])
            n += p[0]
        return (sorted(n, key=repr), [])
    if t[0] == "op" and t[1] == "/" and len(t) == 4:
        p = product(i, t[2])
        return (p[0], p[1] + [unconv(t[3])])
    return ([t], [])


def side(t, x, n):
    """is it the number of rows / cols of the image?"""
    return isinstance(t, tuple) and t[0] == "fld" and t[1] == x and t[2] == n


# ------------------------------------------------------------ one image
def image(ck, m, f):
    i, rs = run_fn(ck, m, f)
    w, at = f.where(), short(f.name)
    E = enums(m, "mlio::Image_frame")
    out, inst = param(f, lambda t: "span" in t), param(f, lambda t: strip(t) == "mlio::Instance")
    seen = set()
    for r in rs:
        if r.outcome == "stop":
            continue
        P = Path(ck, i, m, f, r, E, out, inst)
        if P.impossible():
            continue
        if r.outcome == "return" and r.value == ("c", True):
            P.accepted(at, w)
            seen.add((P.C, P.frame))
        elif r.outcome == "return" and r.value == ("c", False):
            ck.ob("an image is refused only for one of the documented reasons", at, P.reason(), "an image is refused that could be decoded", w)
            ck.ob("a refused image leaves its slot alone", at, not P.stores(), "an image is written and then refused", w)
        elif r.outcome == "return":
            ck.ob("the outcome of decoding is told", at, False, "returns %s" % show(r.value)[:60], w)
    for c in (1, 3, 4):
        for fr in sorted(E):
            ck.ob("images of %d channels can be read with frame %s" % (c, fr), at, (c, fr) in seen, "no path decodes such an image", w)


class Path:
    def __init__(self, ck, i, m, f, r, E, out, inst):
        self.ck, self.i, self.m, self.f, self.r, self.E, self.out, self.inst = ck, i, m, f, r, E, out, inst
        self.fs = facts(r.trace)
        self.img = {}
        self.pend = {}
        self.outs = []
        self.bad = []
        self.attr = {}
        self.dead = False
        self.C = self.channels_wanted()
        self.frame = self.frame_read()
        self.walk()

    def channels_wanted(self):
        for a, v in self.fs:
            if a[0] == "eq0" and v is True and len(a[2]) == 1 and dim(a[2][0][0], 0):
                return -a[1] // a[2][0][1]
        return None

    def frame_read(self):
        no = set()
        for a, v in self.fs:
            if a[0] == "eq0" and len(a[2]) == 1 and field_term(peel(a[2][0][0]), "image_frame"):
                x = next((n for n, c in self.E.items() if c == -a[1] // a[2][0][1]), None)
                if v:
                    return x
                no.add(x)
        left = set(self.E) - no
        return left.pop() if len(left) == 1 else None

    # -------------------------------------------------------- images
    def walk(self):
        T = self.r.trace
        prev = None
        for e in T:
            if e.kind == "ctor" and e.name in ("cv::_OutputArray::(ctor)", "cv::_InputOutputArray::(ctor)") and prev is not None and prev.kind == "lwrite":
                # the variable still holds the image it held: it changes with the call
                self.pend[e.extra] = prev.args[0]
                self.img[prev.args[0]] = Image("same", (e.args[0],))
            elif e.kind == "fact":
                self.learn(e.name, e.args[0])
            elif e.kind == "ctor" and e.name == "cv::Mat::(ctor)":
                self.made(e)
            elif e.kind == "call" and isinstance(e.name, str) and e.name.startswith("cv::"):
                self.call(e)
            prev = e

    def made(self, e):
        a = [x for x in e.args]
        if not a:
            self.img[e.extra] = Image("empty")
        elif len(a) == 1:
            self.img[e.extra] = self.img.get(peel(a[0]))
        elif len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == "new" and a[1][1] == "cv::Rect_":
            self.img[e.extra] = Image("roi", (peel(a[0]), a[1]), *self.type_of(peel(a[0])))
        else:
            self.img[e.extra] = Image("mat", e.extra)

    def type_of(self, x):
        im = self.img.get(x)
        if im is None:
            return (None, None)
        c, d = im.chan, im.depth
        if im.kind == "same":
            return self.type_of(im.src[0])
        t = self.attr.get((x, "type"))
        if t is not None:
            return (t // 8 + 1, t % 8)
        c = c if c is not None else self.attr.get((x, "channels"))
        d = d if d is not None else self.attr.get((x, "depth"))
        if (c is None or d is None) and im.kind in ("resized", "roi"):
            c2, d2 = self.type_of(im.src[0])
            c, d = c if c is not None else c2, d if d is not None else d2
        return (c, d)

    def learn(self, a, v):
        """what a decision tells about an image, or that it cannot be taken"""
        if len(a) == 2 and a[0] == "has" and meth(a[1], "empty") is not None:
            im = self.origin(a[1][2])[1]
            if im is not None and im.kind == "empty" and v is False or im is not None and im.kind in ("resized", "swapped", "roi") and v is True:
                self.dead = True
        if a[0] == "eq0" and len(a[2]) == 1:
            t, k = a[2][0]
            what = next((n for n in ("channels", "depth", "type") if meth(t, n) is not None), None)
            if what is None or a[1] % k:
                return
            x, im = self.origin(t[2])
            if im is None:
                return
            c, d = self.type_of(x)
            have = {"channels": c, "depth": d, "type": None if c is None or d is None else (c - 1) * 8 + d}[what]
            if have is not None and (have == -a[1] // k) is not v:
                self.dead = True
            if v is True:
                self.attr[x, what] = -a[1] // k
                c2, d2 = self.type_of(x)
                while im is not None and im.kind in ("resized", "roi", "same"):
                    x = im.src[0]
                    im = self.img.get(x)
                    if what != "type":
                        self.attr[x, what] = -a[1] // k

    def origin(self, x):
        im = self.img.get(x)
        while im is not None and im.kind == "same":
            x = im.src[0]
            im = self.img.get(x)
        return x, im

    def call(self, e):
        n = last(e.name)
        if n == "imdecode":
            mode = num(e.args[1]) if len(e.args) > 1 else None
            kind = {0: (1, 0), 1: (3, 0)}.get(mode, (None, None))
            self.img[e.extra] = Image("decoded", (proxied(e.args[0]), mode), *kind)
            if len(e.args) > 2 and e.args[2] in self.pend:
                self.img[self.pend[e.args[2]]] = self.img[e.extra]
        elif n == "resize" and len(e.args) > 2 and e.args[1] in self.pend:
            src = proxied(e.args[0])
            self.img[self.pend[e.args[1]]] = Image("resized", (src, e.args[2], e.args[3:5]), *self.type_of(src))
        elif n == "cvtColor" and len(e.args) > 2 and e.args[1] in self.pend:
            src, code = proxied(e.args[0]), num(e.args[2])
            dcn = num(e.args[3]) if len(e.args) > 3 else 0
            c, d = self.type_of(src)
            made = self.pend[e.args[1]]
            takes = SWAP.get(code)
            ok = takes is not None and dcn == 0 and c in takes[0]
            self.img[made] = Image("swapped", (src, ok), takes[1] if takes else None, d)
        elif n == "copyTo":
            self.outs.append((self.image_of(e), e.args))
        elif n == "operator()" and len(e.args) == 1:
            x = e.extra[2] if meth(e.extra, "operator()") is not None else None
            self.img[e.extra] = Image("roi", (x, e.args[0]), *self.type_of(x))
        elif n in INQUIRE or e.name.startswith(("cv::Size", "cv::Rect", "cv::Point", "cv::MatSize", "cv::Exception")):
            pass
        else:
            self.bad.append(e.name)

    def image_of(self, e):
        return e.extra[2] if isinstance(e.extra, tuple) and e.extra[0] == "m" else None

    def stores(self):
        return bool(self.outs)

    def impossible(self):
        """an image made empty that is not, or a type that is another"""
        return self.dead

    # -------------------------------------------------------- refused
    def reason(self):
        fs = self.fs
        for a, v in fs:
            if len(a) == 2 and a[0] == "has" and v is True and meth(a[1], "empty") is not None:
                im = self.img.get(a[1][2])
                if im is not None and im.kind == "decoded":
                    return True
                # an empty image stands for one that was refused
            if a[0] == "eq0" and len(a[2]) == 1:
                t = a[2][0][0]
                im = self.img.get(t[2]) if meth(t, "channels", "depth", "type") is not None else None
                if im is not None and im.kind == "decoded" and im.chan is None:
                    if refuted(fs, t[2], "channels", self.C) or refuted(fs, t[2], "depth", 0) or refuted(fs, t[2], "type", ((self.C or 1) - 1) * 8):
                        return True
            if a[0] == "pos":
                if self.short_header(a, v) or self.too_small(a, v):
                    return True
        return any(e.kind == "catch" for e in self.r.trace)

    def short_header(self, a, v):
        """the instance is shorter than 24 bytes"""
        if len(a[2]) != 1 or self.frame != "recordio":
            return False
        t, k = a[2][0]
        return self.size_of_bits(t) and (k == 1 and v is False and a[1] == -23 or k == -1 and v is True and a[1] == 24)

    def size_of_bits(self, t):
        return meth(t, "size") is not None and self.bits(t[2])

    def bits(self, t):
        return meth(peel(t), "bits") is not None and peel(peel(t)[2]) == self.inst

    def too_small(self, a, v):
        """an image has fewer rows than the height, or fewer columns than the width, asked for"""
        return self.compare(a, v) is False

    def compare(self, a, v):
        """True: rows >= height (or cols >= width) was established, False: the opposite, None: something else"""
        d = dict(a[2])
        if len(d) != 2:
            return None
        for n, k in (("rows", 1), ("cols", 2)):
            s = [t for t in d if isinstance(t, tuple) and t[0] == "fld" and t[2] == n and t[1] in self.img]
            h = [t for t in d if dim(t, k)]
            if s and h and d[s[0]] == -d[h[0]]:
                if d[s[0]] == 1 and a[1] == 1:
                    return v
                if d[s[0]] == -1 and a[1] == 0:
                    return not v
        return None

    # -------------------------------------------------------- accepted
    def accepted(self, at, w):
        ck, fs = self.ck, self.fs
        ck.ob("an image is stored once", at, len(self.outs) == 1, "%d copies are made" % len(self.outs), w)
        ck.ob("pixels are changed only by decoding, scaling, and swapping red and blue", at, not self.bad, "%s changes the image" % ", ".join(self.bad), w)
        if len(self.outs) != 1:
            return
        x, args = self.outs[0]
        dst = proxied(args[0])
        crop = self.img.get(x)
        D = args_of(dst) if isinstance(dst, tuple) and dst[:2] == ("new", "cv::Mat") else ()
        ok = len(D) in (4, 5) and dim(D[0], 1) and dim(D[1], 2) and self.slot(D[3]) and (len(D) == 4 or num(D[4]) == 0)
        ck.ob("the image goes to its slot as height x width", at, ok, "the destination is %s" % show(dst)[:120], w)
        ty = num(D[2]) if len(D) > 2 else None
        ck.ob("the destination has the number of channels asked for, 8 bits each", at, self.C in (1, 3, 4) and ty == (self.C - 1) * 8, "the type of the destination is %s" % ty, w)
        c, d = self.type_of(x)
        ck.ob("the copy does not reallocate the slot", at, ty is not None and (c, d) == (ty // 8 + 1, ty % 8),
              "the image copied may have %s channels of depth %s, not those of the slot: the slot stays unset" % (c if c else "any number of", d if d is not None else "any"), w)
        ok = crop is not None and crop.kind == "roi"
        ck.ob("the copy is a crop of the size of the slot", at, ok, "the image is not cropped to its slot", w)
        if not ok:
            return
        src, roi = crop.src
        self.crop(src, roi, at, w)
        self.chain(src, at, w)

    def slot(self, t):
        t = peel(t)
        if isinstance(t, tuple) and t[0] in ("fld", "f") and t[2] == "data_":
            return peel(t[1]) == self.out
        if isinstance(t, tuple) and t[0] == "init":
            return self.slot(t[1])
        return meth(t, "data") is not None and peel(t[2]) == self.out

    def same_size(self, x):
        """the images that have the size of x because only colours changed between them"""
        out = [x]
        while self.img.get(x) is not None and self.img[x].kind == "swapped":
            x = self.img[x].src[0]
            out.append(x)
        return out

    def crop(self, src, roi, at, w):
        ck, i = self.ck, self.i
        sizes = self.same_size(src)
        got = {n: False for n in ("rows", "cols")}
        for a, v in self.fs:
            if a[0] == "pos" and self.compare(a, v) is True:
                for t, k in a[2]:
                    if isinstance(t, tuple) and t[0] == "fld" and t[1] in sizes:
                        got[t[2]] = True
        ck.ob("an image is cropped only if it is not smaller than the slot", at, all(got.values()), "nothing tells that the %s suffice" % " and the ".join(n for n in got if not got[n]), w)
        R = args_of(roi) if isinstance(roi, tuple) and roi[0] == "new" and len(roi) == 7 else (None,) * 4
        ok = R[0] is not None and dim(R[2], 2) and dim(R[3], 1)
        ck.ob("the crop has the width and height of the slot", at, ok, "it is %s" % show(roi)[:160], w)
        ok = R[0] is not None and self.centred(R[0], sizes, "cols", 2) and self.centred(R[1], sizes, "rows", 1)
        ck.ob("the crop is the centre of the image", at, ok, "it is %s" % show(roi)[:160], w)

    def centred(self, t, sizes, n, k):
        t = unconv(t)
        if t[0] == "op" and t[1] in ("/", ">>") and t[3] == ("c", {"/": 2, ">>": 1}[t[1]]):
            c, d = self.i.lin(unconv(t[2]))
            d = {unconv(a) if not dim(a, k) else a: v for a, v in d.items()}
            s = [a for a in d if a[0] == "fld" and a[2] == n and a[1] in sizes]
            h = [a for a in d if dim(a, k)]
            return c == 0 and len(d) == 2 and len(s) == 1 and len(h) == 1 and d[s[0]] == 1 and d[h[0]] == -1
        return False

    def chain(self, x, at, w):
        ck, fs = self.ck, self.fs
        swaps = scales = 0
        while True:
            im = self.img.get(x)
            if im is None or im.kind not in ("swapped", "resized"):
                break
            if im.kind == "swapped":
                swaps += 1
                ck.ob("swapping red and blue keeps the other channels", at, im.src[1] is True, "the conversion is none from BGR to RGB for the channels of the image", w)
            else:
                scales += 1
                self.scaled(im, at, w)
            x = im.src[0]
        rgb = facts_on(fs, "to_rgb")
        want = 1 if rgb[-1:] == [True] and self.C != 1 else 0
        ck.ob("red and blue are swapped exactly if asked for", at, swaps == want if rgb or self.C != 1 else swaps == 0, "swapped %d time(s), to_rgb is %s, %s channel(s)" % (swaps, rgb[-1:] or "not looked at", self.C), w)
        rs_ = facts_on(fs, "resize")
        ck.ob("an image is scaled exactly if asked for", at, scales == (1 if rs_[-1:] == [True] else 0) and bool(rs_), "scaled %d time(s), resize is %s" % (scales, rs_[-1:] or "not looked at"), w)
        ok = im is not None and im.kind == "decoded"
        ck.ob("what is stored was decoded from the instance", at, ok, "the image stored does not come from the decoder", w)
        if not ok:
            return
        buf, mode = im.src
        ck.ob("the decoder is told the channels", at, mode == {1: 0, 3: 1, 4: -1}.get(self.C), "mode %s for %s channels" % (mode, self.C), w)
        self.payload(buf, at, w)

    def scaled(self, im, at, w):
        src, size, fxy = im.src
        sizes = self.same_size(src)
        S = args_of(size) if isinstance(size, tuple) and size[:2] == ("new", "cv::Size_") and len(size) == 5 else None
        ok = False
        if S:
            (wn, wd), (hn, hd) = product(self.i, S[0]), product(self.i, S[1])
            narrow = self.orientation(sizes)           # True: rows > cols, False: rows <= cols, "eq"-tolerant
            for short_, long_, (sn, sd), (ln, ld), when in (("cols", "rows", (wn, wd), (hn, hd), (True, "ge")), ("rows", "cols", (hn, hd), (wn, wd), (False, "le"))):
                if narrow in when and self.is_value(sn) and not sd and len(ld) == 1 and any(side(ld[0], x, short_) for x in sizes):
                    a = [t for t in ln if any(side(t, x, long_) for x in sizes)]
                    b = [t for t in ln if self.is_value([t])]
                    ok = len(ln) == 2 and len(a) == 1 and len(b) == 1
        self.ck.ob("scaling makes the shorter edge the value asked for and keeps the aspect", at, ok, "the new size is %s" % show(size)[:160], w)

    def is_value(self, ts):
        return len(ts) == 1 and mentions_field(ts[0], "resize") and not names_in(ts[0], lambda s: s in ("rows", "cols"))

    def orientation(self, sizes):
        for a, v in self.fs:
            if a[0] == "pos" and len(a[2]) == 2:
                d = {t[2]: k for t, k in a[2] if isinstance(t, tuple) and t[0] == "fld" and t[1] in sizes}
                if sorted(d) == ["cols", "rows"]:
                    c, k = a[1], d["rows"]
                    # c + k*(rows-cols) > 0
                    if k == 1:
                        if c == 0:
                            return True if v else False
                        if c == 1:
                            return "ge" if v else False
                    if k == -1:
                        if c == 0:
                            return False if v else "ge"
                        if c == 1:
                            return "le" if v else True
        return None

    def payload(self, buf, at, w):
        A = args_of(buf) if isinstance(buf, tuple) and buf[:2] == ("new", "cv::Mat") else ()
        ok, msg = False, "the decoder is given %s" % show(buf)[:120]
        if len(A) >= 4:
            n = [a for a in A[:2] if a != ("c", 1)]
            d = peel(A[3])
            if len(n) == 1 and num(A[2]) == 0 and meth(d, "data") is not None and meth(unconv(n[0]), "size") is not None:
                s1, s2 = peel(d[2]), peel(unconv(n[0])[2])
                if s1 == s2:
                    if self.frame == "none":
                        ok = self.bits(s1)
                    elif self.frame == "recordio":
                        ok = meth(s1, "subslice") is not None and self.bits(s1[2]) and s1[3] == (("c", 24),)
                        if ok and not any(a[0] == "pos" and len(a[2]) == 1 and self.size_of_bits(a[2][0][0]) and (a[2][0][1] == 1 and v is True and a[1] >= -23 and a[1] == -23 or a[2][0][1] == -1 and v is False and a[1] == 24) for a, v in self.fs):
                            ok, msg = False, "the header is skipped without knowing that there is one"
                    else:
                        msg = "the frame was not looked at"
        self.ck.ob("the encoded image is the instance, without the header of a RecordIO image", at, ok, msg, w)


# ------------------------------------------------------------ the batch
def poly(i, t, mp):
    """{monomial: coefficient} of a term, where the terms of mp are replaced"""
    if t in mp:
        return poly(i, mp[t], {k: v for k, v in mp.items() if k != t})
    if isinstance(t, tuple) and t and t[0] == "fld" and isinstance(t[1], tuple):
        b = mp.get(t[1], t[1])
        if isinstance(b, tuple) and b[0] == "agg":
            for n, v in b[2]:
                if n == t[2]:
                    return poly(i, v, mp if b is t[1] else {k: v2 for k, v2 in mp.items() if k != t[1]})
        return {(("fld", b, t[2]),): 1}
    c, d = i.lin(t) if isinstance(t, tuple) and t and t[0] in ("lin", "c") and not isinstance(t[1], bool) and (t[0] != "c" or isinstance(t[1], int)) else (0, {t: 1})
    out = {(): c} if c else {}
    for k, n in d.items():
        if isinstance(k, tuple) and k[0] == "op" and k[1] == "*" and len(k) == 4:
            x, y = poly(i, k[2], mp), poly(i, k[3], mp)
            p = {}
            for a, u in x.items():
                for b, v in y.items():
                    z = tuple(sorted(a + b, key=repr))
                    p[z] = p.get(z, 0) + u * v
        elif k == t and d == {t: 1} and c == 0:
            p = {(k,): 1}
        else:
            p = poly(i, k, mp)
        for a, u in p.items():
            out[a] = out.get(a, 0) + n * u
    return {a: u for a, u in out.items() if u}


def minus(p, q):
    out = dict(p)
    for a, u in q.items():
        out[a] = out.get(a, 0) - u
    return {a: u for a, u in out.items() if u}


def pointer(t):
    """the position a span begins at, as a term"""
    t = peel(t) if not (isinstance(t, tuple) and t and t[0] == "agg") else t
    if isinstance(t, tuple) and t[0] == "agg":
        return next((v for n, v in t[2] if n == "data_"), None)
    return ("fld", t, "data_")


def is_stride(i, t, fs=()):
    """the stride of the batch dimension of the only attribute, or height * width * channels"""
    t = unconv(t)
    if t[0] == "r" and last(t[1]) == "as_size":
        return True                                    # checked by its call
    p, d = product(i, t)
    return not d and len(p) == 3 and sorted(k for x in p for k in range(3) if dim(x, k)) == [0, 1, 2]


def stride_terms(i, r):
    """the terms for the stride: results of as_size(schema()->attributes()[0].strides()[0])"""
    out = set()
    for e in evs(r.trace, "call"):
        if last(e.name) in ("as_size",) and e.args and strided(e.args[0]):
            out.add(e.extra)
        if strided(e.extra):
            out.add(e.extra)
    return out


def strided(t):
    """schema()->attributes()[0].strides()[0]"""
    t = peel(t)
    f = first(t)
    if f is None or meth(peel(f), "strides") is None:
        return False
    g = first(peel(peel(f)[2]))
    if g is None or meth(peel(g), "attributes") is None:
        return False
    return meth(strip_deref(peel(g)[2]), "schema") is not None


def strip_deref(t):
    while isinstance(t, tuple) and t[0] in ("*", "init") and len(t) == 2:
        t = t[1]
    return t


def first(t):
    """the container whose first element this is"""
    if isinstance(t, tuple) and t[0] in ("elt", "e") and t[2] == ("c", 0):
        return t[1]
    if meth(t, "front") is not None:
        return t[2]
    if meth(t, "at", "operator[]") is not None and t[3] == (("c", 0),):
        return t[2]
    return None


def instances_of(t):
    return meth(peel(t), "instances") is not None


def batch(ck, m, f):
    g = m.method(CLS, "decode")
    i, rs = run_fn(ck, m, g, opaque={f.id})
    w, at = g.where(), short(g.name)
    b = ("obj", "arg0")
    done = set()
    for r in rs:
        T = r.trace
        if r.outcome != "return" or not names_in(r.value, lambda s: s == "mlio::Example"):
            continue
        strides = stride_terms(i, r)
        ts = [e for e in evs(T, "make") if e.name == "mlio::Dense_tensor"]
        ck.ob("an example has one tensor", at, len(ts) == 1, "%d tensors are made" % len(ts), w)
        if len(ts) != 1:
            continue
        tensor(ck, i, r, ts[0], strides, b, at, w)
        ex = next((e for e in evs(T, "make") if e.name == "mlio::Example"), None)
        app = [e for e in T if e.kind == "call" and last(e.name) in ("emplace_back", "push_back") and e.args and peel(e.args[0]) == ts[0].extra]
        listed = ex is not None and any(mentions((a,), lambda t: t == ts[0].extra) for a in ex.args)
        ck.ob("the tensor is part of the example", at, ex is not None and (len(app) == 1 or listed), "the tensor decoded into is not the one of the example", w)
        calls = [e for e in evs(T, "call") if e.name == f.name]
        loops = [(j, k, kind) for j, k, kind in loop_segments(T) if any(x in calls for x in T[j:k + 1 if k else None]) or over_instances(i, T, j, k)]
        ck.ob("every instance of the batch is decoded, in order", at, len(loops) == 1 and loops[0][2] != "leave", "an example is made without going through all of its instances", w)
        for j, k, kind in loops:
            if kind != "iter":
                continue
            seg = T[j:k + 1]
            cs = [e for e in seg if e.kind == "call" and e.name == f.name]
            ck.ob("an instance is decoded once", at, len(cs) == 1, "decoded %d times" % len(cs), w)
            if len(cs) != 1:
                continue
            e = cs[0]
            oi = next((a for a, p in zip(e.args, f.params) if "span" in p["t"]), None)
            ii = next((a for a, p in zip(e.args, f.params) if strip(p["t"]) == "mlio::Instance"), None)
            ck.ob("every instance of the batch is decoded, in order", at, this_instance(i, T, j, ii), "the instance decoded is %s" % show(ii)[:80], w)
            ent = entries(T, j)
            end = next((x for x in T[j:] if x.kind == "iter" and id(x.node) == id(T[j].node)), None)
            v = [v for a, v in facts(seg) if len(a) == 2 and a[0] == "has" and a[1] == e.extra]
            good = v[-1] if v else None
            P = pointer(oi)
            enter = poly(i, P, {fr: en for fr, (en, L) in ent.items()})
            base = poly(i, ("fld", ("*", "span"), "data_"), {})
            spans = [x.extra for x in evs(T, "call") if last(x.name) == "as" and isinstance(x.extra, tuple) and x.obj is not None and isdata(i, T, x, ts[0].extra)]
            ck.ob("the first image goes to the beginning of the tensor", at, any(minus(enter, poly(i, pointer(s), {})) == {} for s in spans), "it goes to %s" % show(P)[:80], w)
            fin = poly(i, P, {fr: (end.extra or {}).get(L, fr) for fr, (en, L) in ent.items()}) if end else None
            step = minus(fin, poly(i, P, {})) if fin is not None else None
            if good is None:
                ok = False
            elif good:
                ok = step is not None and any(step == poly(i, s, {}) for s in strides) or step is not None and len(step) == 1 and list(step.values()) == [1] and sorted(k_ for x in list(step)[0] for k_ in range(3) if dim(x, k_)) == [0, 1, 2] and len(list(step)[0]) == 3
            else:
                ok = step == {}
            done.add(good)
            ck.ob("a slot is used up by an image that was decoded" if good else "an image that was refused uses up no slot", at, ok, "the next image goes %s further" % (" + ".join(show(x) for k_ in step for x in k_)[:80] if step else "0 bytes"), w)
    ck.ob("both kinds of images are told apart", at, done == {True, False} or done == {True}, "the outcome of decoding an image is not looked at", w)


def over_instances(i, T, j, k):
    """the loop ends when there are no more instances"""
    for e in T[j:(k + 2 if k else j + 6)]:
        if e.kind == "fact":
            src = e.name[1]
            if e.name[0] == "more" and instances_of(i.tmpval.get(src, src)) or names_in(e.name, lambda s: s == "mlio::Instance_batch::instances"):
                return True
    return False


def this_instance(i, T, j, t):
    """the element of the list of instances that the iteration is for"""
    t = peel(t)
    if isinstance(t, tuple) and t[0] in ("elt", "e") and instances_of(i.tmpval.get(t[1], t[1])):
        x = t[2]
        if isinstance(x, tuple) and x[0] == "r" and str(x[1]).startswith("iter"):
            return True
        ent = entries(T, j)
        return x in ent and ent[x][0] == ("c", 0) and stepped_by_one(i, T, j, x)
    if isinstance(t, tuple) and t[0] == "*":
        ent = entries(T, j)
        return t[1] in ent and meth(ent[t[1]][0], "begin", "cbegin") is not None and instances_of(ent[t[1]][0][2]) and stepped_by_one(i, T, j, t[1])
    return False


def stepped_by_one(i, T, j, x):
    L = entries(T, j)[x][1]
    for e in T[j:]:
        if e.kind == "iter" and id(e.node) == id(T[j].node):
            v = (e.extra or {}).get(L)
            return v is not None and (i.add(v, x, -1) == ("c", 1) or v == ("m", "inc", x, ()))
    return True


def isdata(i, T, e, tensor):
    """e is tensor->data().as<...>()"""
    o = i_obj(e)
    for x in evs(T, "call"):
        if last(x.name) == "data" and x.extra == o:
            y = strip_deref(peel(x.obj)) if x.obj is not None else None
            return y == tensor or contains(x.obj, tensor)
    return False


def i_obj(e):
    return e.extra[2] if isinstance(e.extra, tuple) and e.extra[0] == "m" else None


def vec(t):
    """the terms of a vector written as a list"""
    while isinstance(t, tuple) and t and t[0] == "new" and len(t) > 3:
        t = t[3]
    if isinstance(t, tuple) and t and t[0] == "list":
        return t[2:]
    return None


def flat_list(t):
    v = vec(t)
    if v is None:
        return None
    return v[0] if len(v) == 1 and isinstance(v[0], tuple) and v[0] and isinstance(v[0][0], tuple) else v


def tensor(ck, i, r, e, strides, b, at, w):
    T = r.trace
    sh = flat_list(e.args[0]) if e.args else None
    ok = sh is not None and len(sh) == 4 and meth(peel(sh[0]), "size") is not None and peel(peel(sh[0])[2]) == b and dim(sh[1], 1) and dim(sh[2], 2) and dim(sh[3], 0)
    ck.ob("the tensor is batch x height x width x channels", at, ok, "its shape is %s" % (", ".join(show(x) for x in sh) if sh else show(e.args[0])[:80] if e.args else "missing"), w)
    a = next((x for x in evs(T, "call") if last(x.name) == "make_cpu_array" and len(e.args) > 1 and x.extra == peel(e.args[1])), None)
    ok = a is not None and num(a.args[0]) == uint8(ck)
    ck.ob("the tensor is of bytes", at, ok, "its data are no unsigned bytes", w)
    if a is None:
        return
    n, d = product(i, a.args[1]) if len(a.args) > 1 else ([], [])
    bs = [x for x in n if meth(peel(x), "size") is not None and peel(peel(x)[2]) == b]
    rest = [x for x in n if x not in bs]
    ok = not d and len(bs) == 1 and (len(rest) == 1 and rest[0] in {unconv(s) for s in strides} or len(rest) == 3 and sorted(k for x in rest for k in range(3) if dim(x, k)) == [0, 1, 2])
    ck.ob("the tensor has room for every image of the batch", at, ok, "it has %s elements" % show(a.args[1])[:100], w)


def uint8(ck):
    return enums(ck.model("core"), "mlio::Data_type").get("uint8")


# ------------------------------------------------------------ schema and parameters
def schema(ck, m):
    g = m.method(CLS, "infer_schema")
    ck.need(g is not None and g.body is not None, "the schema of the image reader")
    i, rs = run_fn(ck, m, g)
    w, at = g.where(), short(g.name)
    n = 0
    for r in rs:
        if r.outcome != "return":
            continue
        n += 1
        T = r.trace
        at_ = [e for e in T if e.kind == "call" and last(e.name) in ("emplace_back", "push_back") and len(e.args) >= 3] + \
              [e for e in T if e.kind in ("ctor", "make") and e.name in ("mlio::Attribute::(ctor)", "mlio::Attribute") and len(e.args) >= 3]
        ck.ob("the schema has one attribute", at, len(at_) == 1, "%d attributes" % len(at_), w)
        for e in at_[:1]:
            sh = flat_list(e.args[2])
            ok = sh is not None and len(sh) == 4 and names_in(sh[0], lambda s: s == "batch_size") and dim(sh[1], 1) and dim(sh[2], 2) and dim(sh[3], 0)
            ck.ob("the schema is batch x height x width x channels", at, ok, "the shape is %s" % (", ".join(show(x) for x in sh) if sh else show(e.args[2])[:80]), w)
            ck.ob("the schema is of bytes", at, num(e.args[1]) == uint8(ck), "the type is %s" % show(e.args[1]), w)
            ck.ob("the stride of the schema is the one of the shape", at, len(e.args) == 3 or all(x[0] in ("default",) or flat_list(x) in ((), None) for x in e.args[3:]), "strides are given", w)
    ck.ob("there is a schema", at, n > 0, "none is ever made", w)


def dimensions(ck, m):
    cs = [x for x in m.methods(CLS) if x.is_ctor and x.body is not None and len(x.params) > 1]
    ck.need(cs, "the constructor of the image reader")
    for g in cs:
        i, rs = run_fn(ck, m, g)
        w, at = g.where(), short(g.name)
        n = 0
        for r in rs:
            if r.outcome != "return":
                continue
            n += 1
            T = r.trace
            three = any(a[0] == "eq0" and v is True and a[1] in (-3, 3) and len(a[2]) == 1 and meth(a[2][0][0], "size") is not None and names_in(a[2][0][0], lambda s: s == "image_dimensions") for a, v in facts(T))
            ck.ob("there are three dimensions", at, three, "the number of dimensions is not checked", w)
            ck.ob("the dimensions are taken as given", at, copied(i, T), "the dimensions used are not the ones given", w)
        ck.ob("readers can be made", at, n > 0, "the constructor always throws", w)
    for g in m.methods(CLS):
        if g.is_ctor or g.is_dtor or g.body is None:
            continue
        i, rs = run_fn(ck, m, g, opaque={x.id for x in m.methods(CLS)} - {g.id})
        bad = [e for r in rs for e in r.trace if e.kind == "write" and isinstance(e.obj, tuple) and names_in(e.obj, lambda s: s in ("img_dims_", "image_dimensions"))]
        ck.ob("the dimensions do not change", short(g.name), not bad, "they are written here", g.where())


def copied(i, T):
    d = "image_dimensions"
    for e in evs(T, "call"):
        n = last(e.name)
        if n in ("copy", "transform") and len(e.args) >= 3 and meth(e.args[0], "begin", "cbegin", "data") is not None and names_in(e.args[0], lambda s: s == d) \
                and meth(e.args[1], "end", "cend") is not None and names_in(e.args[1], lambda s: s == d) and e.args[0][2] == e.args[1][2] and names_in(e.args[2], lambda s: s in ("_M_elems", "img_dims_")):
            return n == "copy"
        if n == "copy_n" and len(e.args) >= 3 and names_in(e.args[0], lambda s: s == d) and names_in(e.args[2], lambda s: s in ("_M_elems", "img_dims_")):
            return num(e.args[1]) == 3 or meth(e.args[1], "size") is not None
    # element by element
    got = {}
    for e in T:
        if e.kind == "write" and isinstance(e.obj, tuple) and e.obj[0] in ("e", "elt") and names_in(e.obj, lambda s: s in ("img_dims_",)) and e.args:
            v = unconv(e.args[0])
            ok = isinstance(v, tuple) and v[0] in ("e", "elt") and v[2] == e.obj[2] and names_in(v[1], lambda s: s == d)
            got[e.obj[2]] = ok
    if not got or not all(got.values()):
        return False
    return {("c", k) for k in range(3)} <= set(got) or any(t[0] != "c" for t in got)


def frames(ck, m):
    g = m.method(CLS, "make_record_reader")
    ck.need(g is not None and g.body is not None, "the record reader of images")
    E = enums(m, "mlio::Image_frame")
    i, rs = run_fn(ck, m, g)
    w, at = g.where(), short(g.name)
    seen = {}
    for r in rs:
        if r.outcome != "return":
            continue
        fr = None
        no = set()
        for a, v in facts(r.trace):
            if a[0] == "eq0" and len(a[2]) == 1 and names_in(a[2][0][0], lambda s: s == "image_frame"):
                x = next((n for n, c in E.items() if c == -a[1] // a[2][0][1]), None)
                if v:
                    fr = x
                no.add(x)
        if fr is None:
            left = set(E) - no
            fr = left.pop() if len(left) == 1 else None
        mk = [e for e in evs(r.trace, "make")]
        if fr == "recordio":
            ok = len(mk) == 1 and last(mk[0].name) == "Recordio_record_reader" and any(names_in(a, lambda s: s.endswith("open_read")) for a in mk[0].args)
            ck.ob("images in RecordIO files are read as records", at, ok, "no RecordIO reader of the store is made", w)
        elif fr == "none":
            ck.ob("an image file is one instance", at, not mk, "a record reader is made for single images", w)
        else:
            ck.ob("only known frames are read", at, False, "an unknown frame is accepted", w)
        seen[fr] = True
    for n in sorted(E):
        ck.ob("frame %s can be read" % n, at, n in seen, "it is always rejected", w)
