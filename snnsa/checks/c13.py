"""C13: declared sizes and shapes are the real ones."""
from ..layers import *

FLAT = ("fullyConnected", "recurrence", "gruLayer")
NEURON = {"fullyConnected": "SimpleNeuron", "recurrence": "RecurrentNeuron", "gruLayer": "GatedRecurrentUnit"}
GATES = ("resetGate", "updateGate", "outputGate")


def inner_build(fn):
    return fn["q"] == NS + "LayerFactory::build" and "vector" not in (fn.get("pt") or [p["t"] for p in fn["params"]])[0]


def assemble(ck):
    """summary of LayerFactory::build(layers, models, optimizer) over uninterpreted construction of each layer"""
    P = ck.prog
    f = P.find(NS + "LayerFactory::build", lambda f: "vector" in f["params"][0]["t"])

    def pol(fn, d, this, args, st, I):
        return "opaque" if inner_build(fn) or fn["q"] == NS + "BaseLayer::getShapeOfOutput" else None
    S = ck.summary(f, args=[LV("layers"), LV("models"), sym("optimizer")], store={"layers": lst()}, policy=pol)
    kw = dict(types={"models": "std::vector<snn::LayerModel>", "optimizer": "std::shared_ptr<snn::internal::NeuralNetworkOptimizer>"},
              rules=[(r"models", lambda e, m: e.size("models", 0, 5)), (r"models\[\d+\]\.type", lambda e, m: e.rnd(m.group(0)).choice([0, 0, 0, 1, 2])),
                     (r"models\[\d+\]\.shapeOfInput", lambda e, m: e.rnd("rank").randint(1, 3)),
                     (r"models\[\d+\]\.shapeOfInput\[\d+\]", lambda e, m: e.rnd(m.group(0)).randint(1, 6))],
              calltypes={NS + "BaseLayer::getShapeOfOutput": "std::vector<int>", NS + "LayerFactory::build": "std::unique_ptr<snn::internal::BaseLayer>"})
    return S, kw


def shape_at(i):
    """shape of the values layer i is given"""
    ms = sym("models")
    return vfold(i, [ms[0]["shapeOfInput"]], lambda j, s: call_(NS + "BaseLayer::getShapeOfOutput", mk("deref", layer_at(j, s))))


def layer_at(j, shape):
    return call_(NS + "LayerFactory::build", sym("models")[j + 1], shape, sym("optimizer"))


def product(shape):
    return mul(*shape) if len(shape) > 1 else shape[0]


def spec_shape(kind, shape):
    if kind in FLAT:
        return [N_]
    nd = len(shape) - 1
    if kind == "maxPooling":
        return [shape[0]] + [idiv(x + K_ - 1, K_) for x in shape[1:]]
    o = out_shape(kind, nd)
    m = {X_: shape[1]}
    if nd == 2:
        m[Y_] = shape[2]
    return [F_] + [subst(x, m) for x in o]


def run(ck):
    P = ck.prog

    def chain():
        S, kw = assemble(ck)
        n = length(sym("models")) - 1
        pre = bnot(S.throw_cond)
        ck.equal("layers are built in declared order, each on the shape the layer before it outputs", S.returns.st.store["layers"],
                 vmap(n, lambda i: layer_at(i, shape_at(i))), S, pre=pre, **kw)
    ck.group("chain", chain)

    def layer(kind, shape, what):
        D = declared(ck, kind)
        b = Built(ck, kind, shape, None, model=D.ret)
        L = b.cls
        if L is None:
            raise Skip("the built layer could not be determined")
        flat = kind in FLAT
        nd = len(shape) - 1 if not flat else 0
        neuron = NEURON.get(kind, "SimpleNeuron")
        kw = layer_kw(b, max(nd, 1) if len(shape) < 3 else 2, neuron)
        if flat:
            kw["rules"] = [(r"N", lambda e, m: e.size("nn", 0, 4)), (r"inputs", lambda e, m: e.ev(product(shape)))] + kw["rules"]
        real = [ONE, shape[0]] if not flat and len(shape) == 1 else list(shape)
        nin = product(real)
        if not flat and len(shape) == 1:
            kw["rules"] = [(r"inputs", lambda e, m: e.ev(shape[0]))] + kw["rules"]
        o = b.obj
        outs = spec_shape(kind, real)
        nm = "%s on a %dD input" % (kind, len(shape)) if what is None else what

        def get(name):
            return ck.summary(P.method(L, name), store={"this": o}, cls=L).ret
        S = b.S
        ck.equal("%s: number of inputs is the size of the given shape" % nm, get("getNumberOfInputs"), nin, S, **kw)
        si = get("getShapeOfInput")
        if flat:
            ck.equal("%s: declared input shape" % nm, si, lst(nin), S, **kw)
        else:
            ck.equal("%s: declared input shape" % nm, si, lst(*real), S, **kw)
        ck.equal("%s: declared output shape" % nm, get("getShapeOfOutput"), lst(*outs), S, **kw)
        F = ck.summary(P.method(L, "computeOutput"), args=[LV("inputs"), sym("reset")], store={"this": o if kind == "maxPooling" else setf(o, "neurons", sym("neurons"))},
                       cls=L, policy=opaque_q(r"(?:\w*Neuron|GatedRecurrentUnit)::output"))
        ck.equal("%s: it outputs as many values as its output shape holds" % nm, length(F.ret), product(outs), F, **kw)
        if flat:
            count = N_
        elif kind == "maxPooling":
            count = ZERO
        else:
            count = F_ if kind == "convolution" else product(outs)
        ck.equal("%s: number of neurons" % nm, get("getNumberOfNeurons"), count, S, **kw)
        if kind == "maxPooling":
            ck.equal("%s: no parameters" % nm, get("getNumberOfParameters"), ZERO, S, **kw)
            return
        ck.equal("%s: the layer holds that many neurons" % nm, length(o["neurons"]), count, S, **kw)
        window_ = nin if flat else (K_ * real[0] if nd <= 1 else K_ * K_ * real[0])
        weights = window_ + (1 if neuron == "SimpleNeuron" else 2)
        gates = ["%s." % g for g in GATES] if neuron == "GatedRecurrentUnit" else [""]
        ck.equal("%s: number of parameters is what the neurons hold" % nm, get("getNumberOfParameters"), count * weights * len(gates), S, **kw)
        one = dict(kw, pre=lt(ZERO, count))
        n0 = o["neurons"][imod(sym("q"), ite(lt(ZERO, count), count, ONE))]
        one["types"] = dict(kw["types"], q="int")
        one["rules"] = [(r"q", lambda e, m: e.rnd("q").randint(0, 40))] + list(kw["rules"])
        for g in gates:
            t = nm + ": " + (g and g[:-1] + " of " or "") + "each neuron"
            ck.equal("%s holds the weights of its inputs and its own" % t, length(n0[g + "weights"]), weights, S, **one)
            ck.equal("%s takes as many inputs as its window has" % t, n0[g + "numberOfInputs"], window_, S, **one)
            ck.equal("%s: returns as many errors as it takes inputs" % t, length(n0[g + "errors"]), window_, S, **one)
            # a filter's neuron is trained once per position, and its steps are averaged over them
            ck.equal("%s: batch size" % t, n0[g + "batchSize"], positions(kind, nd if len(shape) > 1 else 1) if kind == "convolution" else ONE, S, **one)
        if neuron == "GatedRecurrentUnit":
            ck.equal("%s: each unit takes all inputs" % nm, n0["numberOfInputs"], window_, S, **one)

    for kind in FLAT:
        for shape in ((X_,), (C_, X_), (C_, X_, Y_)):
            ck.group("%s %d" % (kind, len(shape)), lambda: layer(kind, shape, None))
    for kind in ("convolution", "locallyConnected", "maxPooling"):
        for shape in ((X_,), (C_, X_), (C_, X_, Y_)):
            ck.group("%s %d" % (kind, len(shape)), lambda: layer(kind, shape, None))

    # ---- network
    def network():
        ls = sym("this")["layers"]

        def get(name):
            return ck.summary(P.find(NN + "::" + name), policy=opaque_q(r"BaseLayer::\w+"), cls=SNN)

        def of(i, name):
            return call_(BL + name, mk("deref", ls[i]))
        kw = dict(types={"this": SNN}, rules=[(r"this\.layers", lambda e, m: e.size("layers", 1, 5)),],
                  calltypes={BL + "getShapeOfOutput": "std::vector<int>", BL + "getNumberOfInputs": "int", BL + "getNumberOfNeurons": "int",
                             BL + "getNumberOfParameters": "int"})
        n = length(ls)
        S = get("getNumberOfInputs")
        ck.equal("the network takes what its first layer takes", S.ret, of(0, "getNumberOfInputs"), S, **kw)
        S = get("getNumberOfOutputs")
        last = of(n - 1, "getShapeOfOutput")
        ck.equal("the network outputs what its last layer outputs", S.ret,
                 vfold(length(last), [ONE], lambda j, p: p * last[j]), S, **kw)
        S = get("getNumberOfNeurons")
        ck.equal("the network's neurons are its layers' neurons", S.ret, vsum(n, lambda i: of(i, "getNumberOfNeurons")), S, **kw)
        S = get("getNumberOfParameters")
        ck.equal("the network's parameters are its layers' parameters", S.ret, vsum(n, lambda i: of(i, "getNumberOfParameters")), S, **kw)
        S = get("getNumberOfLayers")
        ck.equal("the network counts its layers", S.ret, n, S, **kw)
    ck.group("network", network)

    def neurons():
        for c, fields in (("SimpleNeuron", ["weights"]), ("RecurrentNeuron", ["weights"]), ("GatedRecurrentUnit", [g + ".weights" for g in GATES])):
            S = ck.summary(P.method(NS + c, "getNumberOfParameters"), cls=NS + c)
            want = ZERO
            for f in fields:
                want = want + length(sym("this")[f])
            extra = 1 if c == "SimpleNeuron" else 2
            kw = dict(types={"this": NS + c}, rules=[(r"this\.numberOfInputs|this\.\w+Gate\.numberOfInputs", lambda e, m: e.size("inputs")),
                                                     (r"this\.(?:\w+Gate\.)?weights", lambda e, m: e.size("inputs") + extra)])
            ck.equal("%s counts its weights" % c, S.ret, want, S, **kw)
            S = ck.summary(P.method(NS + c, "getNumberOfInputs"), cls=NS + c)
            ck.equal("%s reports its number of inputs" % c, S.ret, sym("this")["numberOfInputs"], S, **kw)
    ck.group("neurons", neurons)

    def statistics():
        f = P.find(NN + "::NeuralNetwork", lambda f: len(f["params"]) == 2)
        S = ck.summary(f, args=[LV("architecture"), sym("om")], cls=SNN,
                       policy=opaque_q(r"LayerFactory::build", r"NeuralNetworkOptimizerFactory::build", r"BaseLayer::\w+"))
        ls = S.this["layers"]
        last = call_(BL + "getShapeOfOutput", mk("deref", ls[length(ls) - 1]))
        ck.equal("evaluation keeps one statistic per output of the network", length(S.this["clusters"]), vfold(length(last), [ONE], lambda j, p: p * last[j]), S,
                 types={"architecture": "std::vector<snn::LayerModel>"}, rules=[(r"call:out0:[^\[]*LayerFactory::build[^\[]*", lambda e, m: e.size("layers", 1, 4))],
                 calltypes={BL + "getShapeOfOutput": "std::vector<int>", "out0:" + NS + "LayerFactory::build": "std::vector<std::unique_ptr<snn::internal::BaseLayer>>"})
    ck.group("statistics", statistics)
