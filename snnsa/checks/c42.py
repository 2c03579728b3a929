"""C42: the validity verdict of a network covers every part of it."""
from ..layers import *
from .c13 import FLAT, NEURON

LOW, HIGH = -100000, 10000
GATES = ("resetGate", "updateGate", "outputGate")


def out_of(x):
    return or_(x < LOW, x > HIGH)


def first(*codes):
    """the first code that is not 0"""
    r = t_(0)
    for c in reversed(codes):
        r = if_(eq_(c, 0), r, c)
    return r


def neuron_code(n):
    w = n["weights"]
    return if_(out_of(n["bias"]), 301, if_(vany(length(w), lambda i: out_of(w[i])), 303, 0))


def odd(e, m):
    """a weight or bias: nearly always accepted, sometimes at or beyond a bound"""
    r = e.rnd(m.group(0))
    if r.random() > (0, .03, .1, .3)[e.value("odd", "int")]:
        return Fraction(r.randint(-40, 40), 8)
    return r.choice([LOW, HIGH, LOW - 1, HIGH + 1, Fraction(HIGH * 2 + 1, 2), HIGH - 1, LOW + 1, 50000, -50000, -99999, 3 * HIGH, 3 * LOW])


def run(ck):
    P = ck.prog

    def layer(kind, shape):
        b = Built(ck, kind, shape, None, model=declared(ck, kind).ret)
        L = b.cls
        if L is None:
            raise Skip("the built layer could not be determined")
        neuron = NEURON.get(kind, "SimpleNeuron")
        nm = "%s on a %dD input" % (kind, len(shape))
        kw = layer_kw(b, 2 if len(shape) == 3 else 1, neuron)
        pooling = kind == "maxPooling"
        o = b.obj if pooling else abstract(b)
        gru = neuron == "GatedRecurrentUnit"
        if not pooling:
            n0 = b.obj["neurons"][ZERO]
            gate = n0["resetGate"] if gru else n0
            g = r"neurons\[\d+\]" + (r"\.(?:%s)" % "|".join(GATES) if gru else "")
            kw["rules"] = [(r"N", lambda e, m: e.size("nn", 1, 4)),
                           (r"neurons\[\d+\]\.numberOfInputs", lambda e, m: e.ev(n0["numberOfInputs"])),
                           (g + r"\.numberOfInputs", lambda e, m: e.ev(gate["numberOfInputs"])),
                           (g + r"\.weights", lambda e, m: e.ev(length(gate["weights"]))),
                           (g + r"\.(?:bias|weights\[\d+\])", odd)] + kw["rules"]
        S = ck.summary(P.method(L, "isValid"), store={"this": o}, cls=L)
        ns = sym("neurons")
        code = lambda x: first(*[neuron_code(x[g]) for g in GATES]) if gru else neuron_code(x)
        if pooling:
            want = ZERO
        else:
            bad = lambda i: not_(eq_(code(ns[i]), 0))
            n = length(ns)
            k = vfirst(n, bad)
            want = if_(vany(n, bad), code(ns[k]), 0)
        kw["types"] = dict(kw["types"], odd="int")
        small = lambda k: (k, lambda e, m: e.size("dim" + k, 1, 2))
        kw["rules"] = [("odd", lambda e, m: e.rnd("odd").randint(0, 3)), small("K"), small("F"), small("C")] + [(k, lambda e, m: e.value("K", "int") + e.rnd("d" + m.group(0)).randint(0, 2)) for k in ("X", "Y")] + kw["rules"]
        kw["n"] = ck.n * 2
        ck.equal("%s: the verdict is that of its first neuron out of bounds, gates included" % nm if not pooling else "%s: a layer as built is valid" % nm,
                 S.ret, want, S, **kw)
        ck.no_throw("%s: the verdict is always given" % nm, S, **kw)
        ck.equal("%s: nothing is changed" % nm, S.this, o, S, **kw)

    for kind in DECL:
        for shape in ([(X_,)] if kind in FLAT else []) + [(C_, X_), (C_, X_, Y_)]:
            ck.group("%s %d" % (kind, len(shape)), lambda: layer(kind, shape))

    def network():
        S = ck.summary(P.method(SNN, "isValid"), args=[], policy=opaque_q(r"(?:BaseLayer|NeuralNetworkOptimizer)::isValid", r"BaseLayer::getNumberOf\w+"))
        ls = THIS["layers"]
        val = lambda x: call_(BL + "isValid", deref(x))
        n = length(ls)
        bad = lambda i: not_(eq_(val(ls[i]), 0))
        ni = call_(BL + "getNumberOfInputs", deref(ls[ZERO]))
        opt = call_(NS + "NeuralNetworkOptimizer::isValid", deref(THIS["optimizer"]))
        want = if_(or_(ni < 1, ni > 2073600), 101, if_(or_(n < 1, n > 1000), 102, first(opt, if_(vany(n, bad), val(ls[vfirst(n, bad)]), 0))))
        kw = dict(types={"this": SNN}, calltypes={BL + "isValid": "int", BL + "getNumberOfInputs": "int", NS + "NeuralNetworkOptimizer::isValid": "int"},
                  rules=[(r"this\.layers", lambda e, m: e.rnd("n").choice([1, 2, 3, 4] * 10 + [1000, 1001])),
                         (r"CALL:.*BaseLayer::getNumberOfInputs", lambda e, a: e.rnd("ni").choice([0, -1, 1, 2, 5, 9, 2073600, 2073601])),
                         (r"CALL:.*Optimizer::isValid", lambda e, a: e.rnd("oi").choice([0, 0, 0, 103, 104])),
                         (r"CALL:.*BaseLayer::isValid", lambda e, a: e.rnd("li%s" % (a[0],)).choice([0, 0, 0, 201, 303]))], n=ck.n * 4)
        ck.equal("the verdict of a network is that of its first invalid part", S.ret, want, S, **kw)
        ck.equal("nothing is changed", S.this, THIS, S, **kw)
    ck.group("network", network)

    def optimizer():
        S = ck.summary(P.method(NS + "StochasticGradientDescent", "isValid"), cls=NS + "StochasticGradientDescent")
        lr, mo = THIS["learningRate"], THIS["momentum"]
        near = lambda e, m: e.rnd(m.group(0)).choice([Fraction(k, 8) for k in (-9, -1, 0, 1, 4, 7, 8, 9)])
        kw = dict(types={"this": NS + "StochasticGradientDescent"}, rules=[(r"this\.(?:learningRate|momentum)", near)], n=ck.n * 4)
        ck.equal("an optimizer is valid when its learning rate is in ]0, 1[ and its momentum in [0, 1]", S.ret,
                 if_(or_(lr <= 0, lr >= 1), 103, if_(or_(mo < 0, mo > 1), 104, 0)), S, **kw)
        ck.equal("the verdict of an optimizer changes nothing", S.this, THIS, S, **kw)
    ck.group("optimizer", optimizer)
