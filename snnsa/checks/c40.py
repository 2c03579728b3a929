"""C40: bitmaps show the data, the outputs of the filters and their weights."""
from ..layers import *
from ..interp import Event

BMP = r"CALL:ctor:bitmap_image"


def view(name, args):
    m = name.split("::")[-1]
    if m == "set_pixel" and len(args) == 6:
        return "pixel", list(args)
    if m == "save_image":
        return "save", list(args)
    return None


def saves(name, args):
    return ("save", list(args)) if name.split("::")[-1] == "save_image" else None


def key(x):
    # pixels of one image commute; what is written to one pixel does not
    return (x[0] == "save", str(x[1][0]) if x[0] != "save" else "", *(x[1][1:3] if x[0] == "pixel" else ()))


def image(w, h):
    return mk("call", "ctor:bitmap_image", w, h)


def pixel(img, x, y, r, g, b, guard=TRUE):
    return ev_("bitmap_image::set_pixel", img, x, y, mk("trunc", t_(r)), mk("trunc", t_(g)), mk("trunc", t_(b)), guard=guard)


def concat(*xs):
    r = t_(xs[0])
    for x in xs[1:]:
        r = mk("call", "strcat", r, t_(x))
    return r


def text(i):
    return mk("call", "std::to_string", i)


def run(ck):
    P = ck.prog
    unit = lambda e, m: Fraction(e.rnd(m.group(0)).randint(0, 255), 255)
    base = [(BMP, lambda e, a: ("image",) + tuple(a)), (r"CALL:std::to_string", lambda e, a: "<%s>" % (a[0],))]
    T_ = {"this": SNN, "data": "snn::Data", "path": "std::string", "i": "int"}
    # spec: last effect on a bitmap is the save
    def finished(name, S):
        evs = [e for e in S.trace if e.name.startswith("bitmap_image::")]
        last = [k for k, e in enumerate(evs) if e.name.endswith("::save_image")]
        if not evs:
            raise Skip("no bitmap is drawn")
        later = [e for e in evs[(last[0] if last else -1) + 1:] if not e.name.endswith("::save_image")]
        ck.rule(name, bool(last) and not later, "drawn after the image was saved: %s" % [e.name for e in later] if last else "never saved", S.site)

    def data2d():
        S = ck.summary(P.method(SNN, "saveData2DAsBitmap"), args=[sym("path"), LV("data"), sym("i")],
                       policy=opaque_q(r"Data::getTestingData", r"\w+::getShapeOfInput"))
        shape = call_(BL + "getShapeOfInput", deref(THIS["layers"][ZERO]))
        v = call_("snn::Data::getTestingData", sym("data"), sym("i"))
        c, w, h = shape[0], shape[1], shape[2]
        drawn = eq_(length(shape), 3)
        gray = eq_(c, 1)
        img = image(w, h)

        def at(x, y, k):
            return v[(y * w + x) * c + k] * 255
        evs = loop_(h, lambda y: loop_(w, lambda x: [
            pixel(img, x, y, at(x, y, 0), at(x, y, 0), at(x, y, 0), and_(drawn, gray)),
            pixel(img, x, y, at(x, y, 0), at(x, y, 1), if_(c > 2, at(x, y, if_(c > 2, 2, 0)), 0), and_(drawn, not_(gray)))]))
        evs.append(ev_("bitmap_image::save_image", img, concat(sym("path"), "_input", text(sym("i")), ".bmp"), guard=drawn))
        sh = r"call:snn::internal::BaseLayer::getShapeOfInput\(\w+\)"

        def dim(k, lo, hi):
            return lambda e, m: e.size("dim" + k, lo, hi)
        kw = dict(types=T_, calltypes={BL + "getShapeOfInput": "std::vector<int>", "snn::Data::getTestingData": "std::vector<float>"},
                  rules=base + [(r"CALL:.*::getShapeOfInput", lambda e, a: 3 if e.rnd("nd").random() < .8 else e.rnd("nd2").randint(1, 2)),
                                (sh + r"\[0\]", lambda e, m: e.rnd("C").choice([1, 3, 3, 2, 4])), (sh + r"\[1\]", dim("X", 1, 4)), (sh + r"\[2\]", dim("Y", 1, 4)),
                                (r"CALL:snn::Data::getTestingData", lambda e, a: e.rnd("C").choice([1, 3, 3, 2, 4]) * e.size("dimX", 1, 4) * e.size("dimY", 1, 4)),
                                (r"call:snn::Data::getTestingData\(\w+\)\[\d+\]", unit)])
        ck.no_throw("drawing a datum never fails", S, **kw)
        ck.trace("a datum: each pixel shows the channels of its own position, nothing is drawn unless the input has two dimensions", S, evs, view=view, order=key, **kw)
        finished("a datum: the image is complete when it is saved", S)
    ck.group("saveData2DAsBitmap", data2d)

    # ---- layers: a convolution, a locally connected layer, a pooling and one without filters, in any order
    LAY = r"this\.layers\[(\d+)\]->"
    KINDS = ["Convolution2D", "LocallyConnected2D", "MaxPooling2D", "FullyConnected", "Convolution1D"]
    ORDERS = [(0, 1, 2, 3), (1, 3, 0, 2), (3, 4, 1, 0), (2, 0, 3, 1)]

    def kinds(order):
        return lambda path: NS + KINDS[order[int(re.search(r"\[(\d+)\]", path).group(1)) % 4]]

    def layer_rules(order):
        kind = lambda l: KINDS[order[int(l) % 4]]
        filters = lambda e, l: e.size("F" + l, 1, 7)
        K = lambda e, l: e.size("K" + l, 1, 3)
        conv = lambda l: "Convolution" in kind(l)

        def inp(e, l, k):
            return e.size("C" + l, 1, 2) if k == 0 else K(e, l) + e.rnd("d%d" % k + l).randint(0, 2)

        def outp(e, l, k):
            if k == 0:
                return filters(e, l) if kind(l) != "MaxPooling2D" else inp(e, l, 0)
            return inp(e, l, k) - K(e, l) + 1 if conv(l) else -(-inp(e, l, k) // K(e, l))

        def nneurons(e, l):
            if kind(l) == "MaxPooling2D":
                return 0
            return outp(e, l, 0) if conv(l) else outp(e, l, 0) * outp(e, l, 1) * outp(e, l, 2)
        nd = lambda l: 2 if "1D" in kind(l) else 3
        return base + [
            (r"this\.layers", lambda e, m: e.size("layers", 1, 4)),
            (LAY + r"\.(shapeOfInput|shapeOfOutput)", lambda e, m: nd(m.group(1))),
            (LAY + r"\.shapeOfInput\[(\d+)\]", lambda e, m: inp(e, m.group(1), int(m.group(2)))),
            (LAY + r"\.shapeOfOutput\[(\d+)\]", lambda e, m: outp(e, m.group(1), int(m.group(2)))),
            (LAY + r"\.kernelSize", lambda e, m: K(e, m.group(1))),
            (LAY + r"\.numberOfInputs", lambda e, m: inp(e, m.group(1), 0) * inp(e, m.group(1), 1) * inp(e, m.group(1), 2)),
            (LAY + r"\.numberOfFilters", lambda e, m: outp(e, m.group(1), 0)),
            (LAY + r"\.neurons", lambda e, m: nneurons(e, m.group(1))),
            (LAY + r"\.neurons\[\d+\]\.weights", lambda e, m: K(e, m.group(1)) ** 2 * inp(e, m.group(1), 0) + 1),
            (LAY + r"\.neurons\[\d+\]\.weights\[\d+\]", lambda e, m: Fraction(e.rnd(m.group(0)).randint(-16, 16), 4)),
            (r"CALL:snn::internal::BaseLayer::output", lambda e, a: size_of(e, a, outp)),
            (r"call:snn::internal::BaseLayer::output\(\w+\)\[\d+\]", unit)]

    def size_of(e, a, outp):
        l = re.fullmatch(LAY, a[0].path).group(1)
        return outp(e, l, 0) * outp(e, l, 1) * outp(e, l, 2)

    def each(name, S, spec):
        for order in ORDERS:
            ck.trace(name + " (%s)" % ", ".join(KINDS[k] for k in order), S, spec, view=view, order=key, types=T_, rules=layer_rules(order), dyn={r"this\.layers\[\d+\](?:->)?": kinds(order)},
                     calltypes=dict(BL_TYPES, **{"snn::Data::getTestingData": "std::vector<float>"}))
    idle = mk("boolof", THIS["isIdle"])
    ls = THIS["layers"]

    def filter_layer(l):
        return deref(if_(mk("isa", deref(ls[l]), NS + "FilterLayer"), ls[l], NULL))

    def tiles(n):
        fx = vfirst(n + 1, lambda i: n <= i * i)
        return fx, idiv(n + fx - 1, fx)

    def drawn(l, shape):
        return and_(idle, mk("isa", deref(ls[l]), NS + "FilterLayer"), eq_(length(shape), 3))

    def spec(shape, color, guard):
        """one image per drawn layer, one tile per filter, left to right and top to bottom"""
        evs = []
        body = lambda l: layer(l)

        def layer(l):
            s, g = shape(l), guard(l)
            n = filter_layer(l)["shapeOfOutput"][0]
            fx, fy = tiles(n)
            img = image((s[1] + 1) * fx - 1, (s[2] + 1) * fy - 1)
            r = []
            r += loop_(n, lambda f: loop_(s[2], lambda y: loop_(s[1], lambda x: [
                (lambda c: pixel(img, imod(f, fx) * (s[1] + 1) + x, idiv(f, fx) * (s[2] + 1) + y, c, c, c, g))(color(l, f, x, y))])))
            r.append(ev_("bitmap_image::save_image", img, concat(sym("path"), "_layer_", text(l), ".bmp"), guard=g))
            return r
        return loop_(length(ls), body)

    def filters_():
        S = ck.summary(P.method(SNN, "saveFilterLayersAsBitmap"), args=[sym("path"), LV("data"), sym("i")], policy=opaque_q(r"Data::getTestingData", r"BaseLayer::\w+"))
        ck.equal("filter outputs: refused exactly while the network is training", S.throw_cond, not_(idle), S, types=T_)
        v = call_("snn::Data::getTestingData", sym("data"), sym("i"))
        shape = lambda l: filter_layer(l)["shapeOfOutput"]

        def out(l):
            return vfold(l, [call_(BL + "output", deref(ls[ZERO]), v, TRUE)], lambda j, x: call_(BL + "output", deref(ls[j + 1]), x, TRUE))

        def color(l, f, x, y):
            s = shape(l)
            return out(l)[(y * s[1] + x) * s[0] + f] * 255

        each("filter outputs: each filter's map fills its own tile, in an image per filter layer with two dimensions", S,
             spec(shape, color, lambda l: drawn(l, shape(l))))
        finished("filter outputs: the image is complete when it is saved", S)
    ck.group("saveFilterLayersAsBitmap", filters_)

    def weights():
        S = ck.summary(P.method(SNN, "saveFeatureMapsAsBitmap"), args=[sym("path")], policy=opaque_q(r"BaseLayer::\w+"))
        ck.equal("filter weights: refused exactly while the network is training", S.throw_cond, not_(idle), S, types=T_)
        shape = lambda l: filter_layer(l)["shapeOfInput"]

        def color(l, f, px, py):
            o = filter_layer(l)
            s, so, k = o["shapeOfInput"], o["shapeOfOutput"], o["kernelSize"]
            c = s[0]
            # a convolution applies the same weights at every position, a locally connected layer has a neuron per position
            conv = vsum(k * k, lambda i: (lambda x, y: if_(and_(x >= 0, y >= 0, x < so[1], y < so[2]), vsum(c, lambda j: o["neurons"][f]["weights"][i * c + j]), 0))(
                px - imod(i, k), py - idiv(i, k)))
            own = vsum(c, lambda j: o["neurons"][(idiv(py, k) * so[1] + idiv(px, k)) * so[0] + f]["weights"][(imod(py, k) * k + imod(px, k)) * c + j])
            w = if_(eq_(length(o["neurons"]), so[0]), conv, own)
            return mk("call", "round", (mk("call", "tanh", w / 2) + 1) * Fraction(255, 2))
        each("filter weights: each filter's summed weights fill its own tile", S,
             spec(shape, color, lambda l: and_(drawn(l, shape(l)), not_(eq_(length(filter_layer(l)["neurons"]), 0)))))
        finished("filter weights: the image is complete when it is saved", S)
    ck.group("saveFeatureMapsAsBitmap", weights)
