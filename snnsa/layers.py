"""Layers as the factory builds them: declared architecture -> layer object, in closed form."""
from .lib import *

C_, X_, Y_, K_, F_ = sym("C"), sym("X"), sym("Y"), sym("K"), sym("F")
SN = NS + "SimpleNeuron::"
FILTERS = [("convolution", 1), ("convolution", 2), ("locallyConnected", 1), ("locallyConnected", 2)]
KIND_CLS = {("convolution", 1): "Convolution1D", ("convolution", 2): "Convolution2D", ("locallyConnected", 1): "LocallyConnected1D",
            ("locallyConnected", 2): "LocallyConnected2D", ("maxPooling", 1): "MaxPooling1D", ("maxPooling", 2): "MaxPooling2D",
            ("fullyConnected", 1): "FullyConnected", ("recurrence", 1): "Recurrence", ("gruLayer", 1): "GruLayer"}


def dims(nd, flat=False):
    return (C_, X_) if nd == 1 and not flat else (C_, X_, Y_) if nd == 2 else (X_,)


def factory(P):
    return P.find(NS + "LayerFactory::build", lambda f: f["params"][0]["t"] == "snn::LayerModel &")


N_, ACT = sym("N"), sym("act")
DECL = {"fullyConnected": ("FullyConnected", (N_, ACT)), "recurrence": ("Recurrence", (N_, ACT)), "gruLayer": ("GruLayer", (N_,)),
        "maxPooling": ("MaxPooling", (K_,)), "locallyConnected": ("LocallyConnected", (F_, K_, ACT)), "convolution": ("Convolution", (F_, K_, ACT))}


def declared(ck, kind, optimizers=()):
    """the layer model made by the public declaration function of this kind"""
    name, args = DECL[kind]
    args = list(args) + list(optimizers)
    fs = [f for f in ck.prog.byq.get("snn::" + name, []) if len(f["params"]) == len(args) and "LayerModel" in str(f.get("rt", f.get("t", "LayerModel")))]
    if not fs:
        raise Skip("no declaration function %s with %d parameters" % (name, len(args)))
    return ck.summary(fs[0], this=None, args=args)


class Built:
    """what LayerFactory::build makes of one layer declaration on an input of the given shape"""

    def __init__(self, ck, kind, shape, optimizers=lst(), cls=None, model=None):
        P = ck.prog
        self.kind, self.shape = kind, shape
        m = model
        if m is None:
            m = with_(sym("model"), type=num(enum_value(P, "snn::layerType", kind)), kernelSize=K_, numberOfFilters=F_)
        if optimizers is not None:
            m = with_(m, optimizers=optimizers)
        self.model = m
        self.S = ck.summary(factory(P), args=[LV("model"), LV("shape"), sym("optimizer")], store={"model": m, "shape": lst(*shape)},
                            policy=opaque_q(r"tools::random\w*"))

    @property
    def obj(self):
        o = self.S.deref(self.S.ret)
        if o.op != "obj":
            raise Skip("the built layer could not be determined")
        return o

    @property
    def cls(self):
        o = self.obj.args[0]
        return str(o.args[0]) if o.op in ("undef", "new") else None


def built(ck, kind, nd):
    b = Built(ck, kind, dims(nd))
    want = NS + KIND_CLS[kind, nd]
    if b.cls != want:
        raise Skip("a %s builds a %s" % (want, b.cls))
    return b


def abstract(b):
    """the built layer with its neurons as free symbols (as many as were built)"""
    return setf(b.obj, "neurons", sym("neurons"))


def layer_kw(b, nd, neuron="SimpleNeuron", extra=(), types=None, hi=3):
    obj = b.obj

    def dim(k, lo=1, hi_=3):
        return lambda e, m: e.size("dim" + k, lo, hi_)

    def K(e):
        return e.value("K", "int")
    rules = list(extra) + [
        (r"K", dim("K")), (r"F", dim("F")), (r"C", dim("C")),
        (r"X", lambda e, m: K(e) + e.rnd("dX").randint(0, 5)), (r"Y", lambda e, m: K(e) + e.rnd("dY").randint(0, 5)),
        (r"act", lambda e, m: e.rnd("act").randint(0, 6)),
        (r"model\.numberOfNeurons", lambda e, m: e.size("nn")),
        (r"model\.neuron\.activationFunction", lambda e, m: e.rnd("act").randint(0, 6)),
        (r"neurons", lambda e, m: e.ev(length(obj["neurons"]))),
        (r"inputs", lambda e, m: e.value("C", "int") * e.value("X", "int") * (e.value("Y", "int") if nd == 2 else 1)),
        (r"CALL:snn::internal::\w+::backOutput", lambda e, a: e.ev(obj["neurons"][ZERO][
            "updateGate.numberOfInputs" if neuron == "GatedRecurrentUnit" else "numberOfInputs"]))]
    t = {"neurons": "std::vector<%s%s>" % (NS, neuron), "inputs": "std::vector<float>", "inputErrors": "std::vector<float>", "reset": "bool",
         "model": "snn::LayerModel", "K": "int", "F": "int", "C": "int", "X": "int", "Y": "int", "N": "int"}
    t.update(types or {})
    n = NS + neuron + "::"
    return dict(types=t, rules=rules, calltypes={n + "output": "float", n + "backOutput": "std::vector<float>"})


def by_neuron(x):
    """effects on different neurons commute: only the order on each neuron matters"""
    return str(x[1][0]) if len(x) > 1 and x[1] else ""


# ---- windows: neuron and input index of each window cell
def out_shape(kind, nd):
    if kind == "convolution":
        d = lambda x: x - K_ + 1
    else:
        d = lambda x: idiv(x + K_ - 1, K_)
    return [d(X_)] + ([d(Y_)] if nd == 2 else [])


def positions(kind, nd):
    s = out_shape(kind, nd)
    return mul(*s) if nd == 2 else s[0]


def cells(nd):
    return K_ * K_ * C_ if nd == 2 else K_ * C_


def cell_index(kind, nd, k, i):
    """(inside the input?, input index) of cell i of window k"""
    step = ONE if kind == "convolution" else K_
    c = imod(i, C_)
    if nd == 1:
        x = k * step + idiv(i, C_)
        return lt(x, X_), x * C_ + c
    px, py = imod(k, out_shape(kind, nd)[0]), idiv(k, out_shape(kind, nd)[0])
    x = px * step + imod(idiv(i, C_), K_)
    y = py * step + idiv(i, C_ * K_)
    return and_(lt(x, X_), lt(y, Y_)), (y * X_ + x) * C_ + c


def window(kind, nd, k, inputs):
    def cell(i):
        inside, j = cell_index(kind, nd, k, i)
        return if_(inside, inputs[j], 0)
    return vmap(cells(nd), cell)


def neuron_of(kind, k, f):
    ns = sym("neurons")
    return ns[f] if kind == "convolution" else ns[k * F_ + f]
