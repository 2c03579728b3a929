"""C36: the summary reports the network's real structure."""
from ..layers import *
from .c13 import FLAT, NEURON, spec_shape, product

LOS = NS + "LayerOptimizer::summary"
NAME = {"fullyConnected": "FullyConnected", "recurrence": "Recurrence", "gruLayer": "GruLayer", "convolution": "Convolution",
        "locallyConnected": "LocallyConnected", "maxPooling": "MaxPooling"}


def after(text, label):
    return mk("call", "numbersafter", text, string(label))


def shown(*xs):
    return lst(*[mk("call", "shown", x) for x in xs])


def run(ck):
    P = ck.prog

    def layer(kind, shape):
        D = declared(ck, kind)
        b = Built(ck, kind, shape, None, model=D.ret)
        L = b.cls
        if L is None:
            raise Skip("the built layer could not be determined")
        flat = kind in FLAT
        nd = len(shape) - 1 if not flat else 0
        neuron = NEURON.get(kind, "SimpleNeuron")
        kw = layer_kw(b, max(nd, 1) if len(shape) < 3 else 2, neuron)
        if flat:
            kw["rules"] = [(r"N", lambda e, m: e.size("nn", 1, 4))] + kw["rules"]
        kw["rules"] = [(r"opts", lambda e, m: e.size("opts", 0, 3))] + kw["rules"]
        kw["types"] = dict(kw["types"], opts="std::vector<std::unique_ptr<snn::internal::LayerOptimizer>>")
        kw["calltypes"] = dict(kw["calltypes"], **{LOS: "std::string", NS + "ActivationFunction::getName": "std::string"})
        o = setf(setf(b.obj, "neurons", sym("neurons")) if kind != "maxPooling" else b.obj, "optimizers", sym("opts"))
        S = ck.summary(P.method(L, "summary"), store={"this": o}, cls=L, policy=opaque_q(r"LayerOptimizer::summary", r"ActivationFunction::getName"))
        nm = "%s on a %dD input" % (kind, len(shape))

        def get(name):
            return ck.summary(P.method(L, name), store={"this": o}, cls=L).ret
        real = [ONE, shape[0]] if not flat and len(shape) == 1 else list(shape)
        t = S.ret
        ck.equal("%s: it says what kind of layer it is" % nm, mk("call", "mentions", t, string(L.split("::")[-1])), TRUE, S, **kw)
        ck.equal("%s: input shape" % nm, after(t, "Input shape"), shown(product(real)) if flat else shown(*real), S, **kw)
        ck.equal("%s: output shape" % nm, after(t, "Output shape"), shown(*spec_shape(kind, real)), S, **kw)
        if flat:
            ck.equal("%s: number of neurons" % nm, after(t, "Neurons"), shown(N_), S, **kw)
        else:
            ck.equal("%s: kernel size" % nm, after(t, "Kernel size"), shown(*[K_] * max(nd, 1)), S, **kw)
            if kind != "maxPooling":
                ck.equal("%s: number of filters" % nm, after(t, "Filters"), shown(F_), S, **kw)
        if kind != "maxPooling":
            ck.equal("%s: number of parameters" % nm, after(t, "Parameters"), shown(get("getNumberOfParameters")), S, **kw)
            if kind != "gruLayer":
                n0 = o["neurons"][ZERO]
                ck.equal("%s: activation function" % nm, mk("call", "wordafter", t, string("Activation")),
                         call_(NS + "ActivationFunction::getName", deref(n0["outputFunction"])), S, **kw)
        # what of the parts: the optimizers' own summaries, all of them, in order
        os_ = sym("opts")
        k2 = dict(kw)
        marks = mk("call", "marks", t)
        want = vmap(length(os_), lambda i: call_(LOS, deref(os_[i])))
        if kind not in ("maxPooling", "gruLayer"):
            name = lst(call_(NS + "ActivationFunction::getName", deref(o["neurons"][ZERO]["outputFunction"])))
            want = mk("concat", name, want)
        ck.equal("%s: every optimizer of the layer, in order" % nm, marks, want, S, **k2)

    for kind in FLAT:
        ck.group(kind, lambda: layer(kind, (X_,)))
    for kind in ("convolution", "locallyConnected", "maxPooling"):
        for shape in ((C_, X_), (C_, X_, Y_)):
            ck.group("%s %d" % (kind, len(shape)), lambda: layer(kind, shape))

    def network():
        types = {"this": SNN}
        ls = THIS["layers"]
        ct = {BL + "summary": "std::string", BL + "getNumberOfParameters": "int", NS + "NeuralNetworkOptimizer::summary": "std::string"}
        kw = dict(types=types, calltypes=ct, rules=[(r"this\.layers", lambda e, m: e.size("layers", 1, 4)),
                                                    (r"this\.(epoch|numberOfTraining)", lambda e, m: e.rnd(m.group(0)).randint(0, 999))])
        S = ck.summary(P.method(SNN, "summary"), policy=opaque_q(r"BaseLayer::\w+", r"NeuralNetworkOptimizer::summary"), cls=SNN)
        t = S.ret
        ck.equal("the network's name", mk("call", "wordafter", t, string("Name")), THIS["autoSaveFilePath"], S, **kw)
        ck.equal("the network's number of parameters", after(t, "Parameters"),
                 shown(vsum(length(ls), lambda i: call_(BL + "getNumberOfParameters", deref(ls[i])))), S, **kw)
        ck.equal("the network's epoch", after(t, "Epochs"), shown(THIS["epoch"]), S, **kw)
        ck.equal("the network's number of trainings", after(t, "Trainnig") if "Trainnig" in show(t, 60) else after(t, "Training"), shown(THIS["numberOfTraining"]), S, **kw)
        want = mk("concat", lst(THIS["autoSaveFilePath"]), vmap(length(ls), lambda i: call_(BL + "summary", deref(ls[i]))))
        want = mk("concat", want, lst(call_(NS + "NeuralNetworkOptimizer::summary", deref(THIS["optimizer"]))))
        ck.equal("every layer in order, then the optimizer", mk("call", "marks", t), want, S, **kw)
    ck.group("network", network)

    def optimizers():
        C = NS + "StochasticGradientDescent"
        rules = [(r"this\.\w+", lambda e, m: e.rnd(m.group(0)).choice([.5, .25, .125, .75, 1, 0]))]
        kw = dict(types={"this": C}, rules=rules)
        S = ck.summary(P.method(C, "summary"), cls=C)
        ck.equal("learning rate", after(S.ret, "Learning rate"), shown(THIS["learningRate"]), S, **kw)
        ck.equal("momentum", after(S.ret, "Momentum"), shown(THIS["momentum"]), S, **kw)
        for c, f in (("Dropout", "value"), ("L1Regularization", "value"), ("L2Regularization", "value"), ("ErrorMultiplier", "factor"), ("Softmax", None)):
            S = ck.summary(P.method(NS + c, "summary"), cls=NS + c)
            kw = dict(types={"this": NS + c}, rules=rules)
            if f:
                ck.equal("%s shows its coefficient" % c, after(S.ret, c), shown(THIS[f]), S, **kw)
            else:
                ck.equal("%s shows its name" % c, mk("call", "mentions", S.ret, string(c)), TRUE, S, **kw)
    ck.group("optimizers", optimizers)
