"""C26: layer optimizers: place, order, formulas."""
from ..lib import *

KINDS = ["SimpleNeuron", "RecurrentNeuron", "GatedRecurrentUnit"]
LO = NS + "LayerOptimizer::"


def layer_cls(k):
    return NS + "Layer<%s%s>" % (NS, k)


def pipeline(ck, which=("output", "outputForTraining", "backOutput", "train"), kinds=KINDS):
    """Layer::output / outputForTraining / backOutput / train: the optimizers act in declared order"""
    P = ck.prog
    for k in kinds:
        L = layer_cls(k)
        types = {"this": L, "inputs": "std::vector<float>", "errors": "std::vector<float>", "reset": "bool"}
        ct = {L + "::computeOutput": "std::vector<float>", L + "::computeBackOutput": "std::vector<float>",
              LO + "applyAfterOutputForTesting": "std::vector<float>", LO + "applyAfterOutputForTraining": "std::vector<float>",
              LO + "applyBeforeBackpropagation": "std::vector<float>"}
        kw = dict(types=types, calltypes=ct)
        pol = opaque_q(r"LayerOptimizer::apply\w+", r"Layer<.*>::compute(Output|BackOutput|Train)")
        opts = THIS["optimizers"]
        n = length(opts)
        inputs, errors, reset = sym("inputs"), sym("errors"), sym("reset")

        def forward(m, call, extra):
            S = ck.summary(P.method(L, m), args=[LV("inputs"), reset], policy=pol)
            first = call_(L + "::computeOutput", THIS, inputs, reset)
            v = vfold(n, [first], lambda i, x: call_("out0:" + LO + call, deref(opts[i]), x, *extra))
            ck.equal("%s %s: layer optimizers transform the computed outputs in order" % (k, m), S.ret, v, S, **kw)
            sp = [ev_(L + "::computeOutput", THIS, inputs, reset)] + loop_(n, lambda i: [ev_(
                LO + call, deref(opts[i]), vfold(i, [first], lambda j, x: call_("out0:" + LO + call, deref(opts[j]), x, *extra)), *extra)])
            ck.trace("%s %s: compute, then every optimizer once" % (k, m), S, sp, **kw)

        def backward(m, call):
            S = ck.summary(P.method(L, m), args=[LV("errors")], policy=pol)
            f = LO + "applyBeforeBackpropagation"
            v = vfold(n, [errors], lambda i, x: call_("out0:" + f, deref(opts[i]), x))
            sp = loop_(n, lambda i: [ev_(f, deref(opts[i]), vfold(i, [errors], lambda j, x: call_("out0:" + f, deref(opts[j]), x)))])
            ck.trace("%s %s: every optimizer once on the errors, then the neurons" % (k, m), S, sp + [ev_(L + "::" + call, THIS, v)], **kw)
            if m == "backOutput":
                ck.equal("%s backOutput returns what the neurons pass back" % k, S.ret, call_(L + "::" + call, THIS, v), S, **kw)
        if "output" in which:
            ck.group(k + " output", lambda: forward("output", "applyAfterOutputForTesting", ()))
        if "outputForTraining" in which:
            ck.group(k + " outputForTraining", lambda: forward("outputForTraining", "applyAfterOutputForTraining", (reset,)))
        if "backOutput" in which:
            ck.group(k + " backOutput", lambda: backward("backOutput", "computeBackOutput"))
        if "train" in which:
            ck.group(k + " train", lambda: backward("train", "computeTrain"))


def build_order(ck):
    """one optimizer object per declared one, of its kind, in order, referring to the layer it belongs to"""
    P = ck.prog
    fs = P.by_q.get(NS + "LayerOptimizerFactory::build", []) if hasattr(P, "by_q") else []
    f = P.find(NS + "LayerOptimizerFactory::build", lambda f: len(f["params"]) == 3)
    kinds = [("dropout", "Dropout"), ("l1Regularization", "L1Regularization"), ("l2Regularization", "L2Regularization"),
             ("errorMultiplier", "ErrorMultiplier"), ("softmax", "Softmax")]
    types = {"model": "snn::LayerModel", "optimizers": "std::vector<std::unique_ptr<snn::internal::LayerOptimizer>>",
             "layer": NS + "BaseLayer *"}
    for e, c in kinds:
        def one(e=e, c=c):
            m = sym("model")
            v = num(enum_value(P, "snn::layerOptimizerType", e))
            one_ = P.find(NS + "LayerOptimizerFactory::build", lambda f: len(f["params"]) == 2)
            st = {"model": with_(sym("model"), type=v)}
            S = ck.summary(one_, args=[LV("model"), sym("layer")], store=st, policy=opaque_q("BaseLayer::getNumberOfNeurons"))
            o = S.deref(S.ret)
            kw = dict(types={"model": "snn::LayerOptimizerModel", "layer": NS + "BaseLayer *"})
            cls = o.args[0].args[0] if o.op == "obj" and o.args[0].op in ("undef", "new") else None
            ck.rule("declared %s builds a %s" % (e, c), None if cls is None else str(cls) == NS + c, "builds %s" % cls, S.site)
            ck.equal("declared %s refers to its layer" % e, o["layer"], sym("layer"), S, **kw)
            if e != "softmax":
                ck.equal("declared %s keeps its coefficient" % e, o["factor" if e == "errorMultiplier" else "value"], m["value"], S, **kw)
        ck.group("build " + e, one)

    def order():
        S = ck.summary(f, args=[LV("optimizers"), LV("model"), sym("layer")],
                       policy=lambda fn, d, t, a, s, I: "opaque" if fn["q"].endswith("LayerOptimizerFactory::build") and nparams(fn) == 2 else None)
        ms = sym("model")["optimizers"]
        q = NS + "LayerOptimizerFactory::build"
        sp = loop_(length(ms), lambda i: [ev_(q, ms[i], sym("layer"))])
        ck.trace("every declared layer optimizer is built once, in order", S, sp, types=types)
        got = S.final("optimizers")
        ck.equal("the layer's optimizers are the built ones, in the declared order", got,
                 mk("concat", sym("optimizers"), vmap(length(ms), lambda i: call_(q, ms[i], sym("layer")))), S,
                 types=types, calltypes={q: "std::unique_ptr<snn::internal::LayerOptimizer>"})
        ck.equal("one object per declared optimizer", length(got), add(length(sym("optimizers")), length(ms)), S, types=types)
    ck.group("declared order", order)

    def declared(name, c):
        d = P.find("snn::" + name, lambda f: f.get("kind") not in ("ctor", "method"))
        D = ck.summary(d, this=None, args=[sym("v")] if name != "Softmax" else [])
        one_ = P.find(NS + "LayerOptimizerFactory::build", lambda f: len(f["params"]) == 2)
        S = ck.summary(one_, args=[LV("model"), sym("layer")], store={"model": D.ret}, policy=opaque_q("BaseLayer::getNumberOfNeurons"))
        o = S.deref(S.ret)
        kw = dict(types={"v": "float", "layer": NS + "BaseLayer *"})
        cls = o.args[0].args[0] if o.op == "obj" and o.args[0].op in ("undef", "new") else None
        ck.rule("snn::%s declares a %s" % (name, c), None if cls is None else str(cls) == NS + c, "builds %s" % cls, D.site)
        if name != "Softmax":
            ck.equal("snn::%s declares its coefficient" % name, o["factor" if name == "ErrorMultiplier" else "value"], sym("v"), D, **kw)
    for n in ("Dropout", "L1Regularization", "L2Regularization", "ErrorMultiplier", "Softmax"):
        ck.group("declaration " + n, lambda: declared(n, n))


def formulas(ck):
    P = ck.prog
    types = {"outputs": "std::vector<float>", "errors": "std::vector<float>", "reset": "bool"}
    e = sym("errors")

    def em():
        C = NS + "ErrorMultiplier"
        S = ck.summary(P.method(C, "applyBeforeBackpropagation"), args=[LV("errors")])
        ck.frame("error multiplier", S, {"errors": vmap(length(e), lambda i: e[i] * THIS["factor"])}, types=dict(types, this=C))
    ck.group("error multiplier", em)
    for C, fn in (("L1Regularization", lambda w: mk("call", "abs", w)), ("L2Regularization", lambda w: w * w)):
        def reg(C=C, fn=fn):
            lay = THIS["layer"]
            cls = NS + "FullyConnected"
            S = ck.summary(P.method(NS + C, "applyBeforeBackpropagation"), args=[LV("errors")], dyn={H(lay): cls})
            ns = deref(lay)["neurons"]
            avg = vsum(length(ns), lambda j: vsum(length(ns[j]["weights"]), lambda k: fn(ns[j]["weights"][k]))) / length(ns)
            spec = vmap(length(e), lambda i: e[i] + avg * THIS["value"])
            ck.frame(C, S, {"errors": spec}, types=dict(types, this=NS + C), dyn={r"this\.layer": cls})
        ck.group(C, reg)
    for C in ("ErrorMultiplier", "L1Regularization", "L2Regularization"):
        for m, a in (("applyAfterOutputForTraining", [LV("outputs"), sym("reset")]), ("applyAfterOutputForTesting", [LV("outputs")])):
            def none(C=C, m=m, a=a):
                S = ck.summary(P.method(NS + C, m), args=a)
                ck.frame("%s leaves outputs alone in %s" % (C, m), S, {}, types=dict(types, this=NS + C))
                ck.record("%s %s analysed" % (C, m), "discharged", "rule: frame computed", S.site)
            ck.group(C + m, none)
    for k in KINDS:
        L = layer_cls(k)
        for m, fn in (("getAverageOfAbsNeuronWeights", lambda w: mk("call", "abs", w)), ("getAverageOfSquareNeuronWeights", lambda w: w * w)):
            def avg(L=L, m=m, fn=fn, k=k):
                S = ck.summary(P.method(L, m), args=[])
                ns = THIS["neurons"]
                W = lambda o: o["weights"]
                if k == "GatedRecurrentUnit":
                    return gru_avg(S, L, m, fn)
                spec = vsum(length(ns), lambda j: vsum(length(W(ns[j])), lambda i: fn(W(ns[j])[i]))) / length(ns)
                ck.equal("%s of a %s layer" % (m, k), S.ret, spec, S, types={"this": L})

            def gru_avg(S, L, m, fn):
                ns = THIS["neurons"]
                G = ("resetGate", "updateGate", "outputGate")
                spec = vsum(length(ns), lambda j: add(*[vsum(length(ns[j][g]["weights"]), lambda i: fn(ns[j][g]["weights"][i])) for g in G])) / length(ns)
                ck.equal("%s of a gated recurrent layer" % m, S.ret, spec, S, types={"this": L})
            ck.group(m + k, avg)


def run(ck):
    pipeline(ck)
    build_order(ck)
    formulas(ck)
