"""C09: forward and backward pass order."""
from ..layers import *
from . import c26


def passes(ck, special=False, which=("output", "outputForTraining", "trainOnce")):
    P = ck.prog
    kw = net_kw(special)
    inputs, desired, reset = sym("inputs"), sym("desired"), sym("reset")

    def fwd(mode):
        S = ck.summary(P.method(NN, mode), args=[LV("inputs"), reset])
        out = forward(THIS, inputs, reset, mode)
        ck.equal("%s returns the last layer's outputs" % mode, S.ret, out, S, **kw)
        ck.trace("%s feeds every layer once, in order" % mode, S, forward_events(THIS, inputs, reset, mode), **kw)
        bad = vany(length(out), lambda i: nonfinite(out[i]))
        ck.equal("%s records non-finite outputs" % mode, S.this["outputNan"], or_(THIS["outputNan"], bad), S, **kw)
        ck.frame("%s changes nothing else" % mode, S, {"this": with_(THIS, outputNan=S.this["outputNan"]), "inputs": inputs,
                                                       H(THIS["layers"][ZERO]): S.final(H(THIS["layers"][ZERO]))}, **kw)
    if "output" in which:
        ck.group("inference pass", lambda: fwd("output"))
    if "outputForTraining" in which:
        ck.group("training pass", lambda: fwd("outputForTraining"))

    def step():
        S = ck.summary(P.method(NN, "trainOnce"), args=[LV("inputs"), LV("desired"), reset])
        evs, bad = train_events(THIS, inputs, desired, reset)
        ck.trace("training step: forward, errors 2*(desired-output), backward last to second, first layer trained; nothing if non-finite", S, evs, **kw)
        ck.frame("training step counts one training", S,
                 {"this": with_(THIS, outputNan=bad, numberOfTraining=THIS["numberOfTraining"] + 1),
                  H(THIS["layers"][ZERO]): S.final(H(THIS["layers"][ZERO]))}, **kw)
    if "trainOnce" in which:
        ck.group("training step", step)


SIMPLE = {"FullyConnected": ("fullyConnected", "SimpleNeuron"), "Recurrence": ("recurrence", "RecurrentNeuron"),
          "GruLayer": ("gruLayer", "GatedRecurrentUnit")}


def simple_layers(ck):
    """layers whose neurons all read all the inputs"""
    P = ck.prog
    inputs, err, reset = sym("inputs"), sym("inputErrors"), sym("reset")
    for name, (kind, neuron) in SIMPLE.items():
        def go(name=name, kind=kind, neuron=neuron):
            b = Built(ck, kind, (X_,))
            if b.cls != NS + name:
                raise Skip("a %s layer builds a %s" % (kind, b.cls))
            o, q = abstract(b), NS + neuron + "::"
            ns = sym("neurons")
            kw = layer_kw(b, 1, neuron, extra=[(r"K", 1), (r"X", lambda e, m: e.size("dimX")), (r"inputs", lambda e, m: e.value("X", "int")),
                                               (r"inputErrors", lambda e, m: e.ev(length(b.obj["neurons"])))])
            n = length(ns)
            S = ck.summary(P.method(b.cls, "computeOutput"), args=[LV("inputs"), reset], store={"this": o}, cls=b.cls, policy=opaque_q(neuron + "::output"))
            extra = () if neuron == "SimpleNeuron" else (reset,)
            ck.equal("%s: the outputs are the neurons' outputs on the layer's inputs, in order" % name, S.ret,
                     vmap(n, lambda i: call_(q + "output", ns[i], inputs, *extra)), S, **kw)
            ck.trace("%s: every neuron computes once" % name, S, loop_(n, lambda i: [ev_(q + "output", ns[i], inputs, *extra)]), order=by_neuron, **kw)
            B = ck.summary(P.method(b.cls, "computeBackOutput"), args=[LV("inputErrors")], store={"this": o}, cls=b.cls, policy=opaque_q(neuron + "::backOutput"))
            ck.equal("%s: each input receives the sum of the neurons' errors for it" % name, B.ret,
                     vmap(X_, lambda i: vsum(n, lambda j: call_(q + "backOutput", ns[j], err[j])[i])), B, **kw)
            ck.trace("%s: every neuron receives its own error once" % name, B, loop_(n, lambda i: [ev_(q + "backOutput", ns[i], err[i])]), order=by_neuron, **kw)
            T = ck.summary(P.method(b.cls, "computeTrain"), args=[LV("inputErrors")], store={"this": o}, cls=b.cls, policy=opaque_q(neuron + "::train"))
            ck.trace("%s as first layer: every neuron is trained with its own error" % name, T,
                     loop_(n, lambda i: [ev_(q + "train", ns[i], err[i])]), order=by_neuron, **kw)
            for what, Z in (("forward", S), ("backward", B), ("train", T)):
                ck.frame("%s %s changes nothing of the layer but its neurons" % (name, what), Z, {"this": o}, **kw)
        ck.group(name, go)


def run(ck):
    passes(ck)
    simple_layers(ck)
    c26.pipeline(ck)
