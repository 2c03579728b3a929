"""C06: a temporal reset forgets the previous sequence."""
from ..layers import *
from . import c26

LAYERS = {"RecurrentNeuron": "Recurrence", "GatedRecurrentUnit": "GruLayer"}
# what a neuron remembers of earlier computations (weights, settings and training buffers are not memory of a sequence)
REC_MEM = ("lastOutput", "previousOutput", "recurrentError", "previousSum", "sum")
REC_KEPT = ("lastOutput", "sum")  # K1
GRU_MEM = ("previousOutput", "recurrentError", "updateGateOutput", "outputGateOutput")
GATES = ("resetGate", "updateGate", "outputGate")


def forget(o, mem, keep=()):
    """the same neuron with another memory"""
    for f in mem:
        if f not in keep:
            o = setf(o, f, sym("other_" + f))
    return o


def forget_gru(u, keep=()):
    u = forget(u, GRU_MEM)
    for g in GATES:
        o = u[g]
        for f in REC_MEM:
            if f not in keep:
                o = setf(o, f, sym("other_%s_%s" % (g, f)))
        u = setf(u, g, o)
    return u


def run(ck):
    P = ck.prog
    pol = opaque_q(ACTF)
    reset, inputs = sym("reset"), sym("inputs")

    def neuron(cls, mem, fg, rules, memory):
        def go():
            kw = dict(types={"this": cls, "inputs": "std::vector<float>"}, calltypes=ACT_TYPES,
                      rules=rules + [(r"inputs", lambda e, m: e.value("this.numberOfInputs", "int")), (r"other_\w+", lambda e, m: e.fresh(m.group(0), "float"))])
            f = P.method(cls, "output")

            def outcome(o):
                S = ck.summary(f, args=[LV("inputs"), TRUE], policy=pol, store={"this": o})
                return S, S.ret, S.this
            S, a, ta = outcome(THIS)
            _, b, tb = outcome(fg(THIS))
            _, c, tc = outcome(fg(THIS, REC_KEPT))
            ck.equal("%s: the output of a new sequence does not depend on earlier computations" % cls.split("::")[-1], a, b, S, known=[("K1", c)], **kw)
            for m in memory:
                ck.equal("%s: after the first step of a new sequence %s does not depend on earlier computations" % (cls.split("::")[-1], m),
                         ta[m], tb[m], S, known=[("K1", tc[m])], **kw)
        ck.group(cls, go)
    neuron(REC, REC_MEM, lambda o, k=(): forget(o, REC_MEM, k), neuron_rules("this", 2), REC_MEM)
    neuron(GRU, GRU_MEM, forget_gru, gru_rules("this"), GRU_MEM + tuple(g + "." + m for g in GATES for m in REC_MEM))

    def layer(k):
        def go():
            L = NS + LAYERS[k]
            S = ck.summary(P.method(L, "computeOutput"), args=[LV("inputs"), reset], cls=L, policy=opaque_q(ACTF, k + "::output"))
            ns = THIS["neurons"]
            sp = loop_(length(ns), lambda i: [ev_(NS + k + "::output", ns[i], inputs, reset)])
            kw = dict(types={"this": L, "inputs": "std::vector<float>", "reset": "bool"}, calltypes={NS + k + "::output": "float"})
            ck.trace("%s: the start-of-sequence signal and the inputs reach every neuron once" % LAYERS[k], S, sp, order=by_neuron, **kw)
            ck.equal("%s: the outputs are the neurons' outputs, in order" % LAYERS[k], S.ret,
                     vmap(length(ns), lambda i: call_(NS + k + "::output", ns[i], inputs, reset)), S, **kw)
        ck.group(LAYERS[k], go)
    for k in LAYERS:
        layer(k)
    c26.pipeline(ck, ("output", "outputForTraining"), kinds=list(LAYERS))

    # the signal's way through the network
    kw = net_kw()

    def view(name, args):
        m = name.split("::")[-1]
        return (m, [args[0], args[-1]]) if m in ("output", "outputForTraining") else None

    def passes(mode):
        S = ck.summary(P.method(NN, mode), args=[LV("inputs"), reset])
        ck.trace("%s: the signal reaches every layer" % mode, S, forward_events(THIS, inputs, reset, mode), view=view, **kw)
    ck.group("inference", lambda: passes("output"))
    ck.group("training", lambda: passes("outputForTraining"))

    def step():
        S = ck.summary(P.method(NN, "trainOnce"), args=[LV("inputs"), LV("desired"), reset])
        ck.trace("a training step passes the signal on", S, forward_events(THIS, inputs, reset, "outputForTraining"), view=view, **kw)
    ck.group("training step", step)

    def entry(cls, name, args, what):
        S = ck.summary(P.method(cls, name), args=args, policy=opaque_q("NeuralNetwork::output"))
        k = dict(kw, types=dict(kw["types"], this=cls, a="float", cluster="int"))
        ck.trace(what, S, [ev_(NN + "::output", THIS, inputs, reset)], view=lambda n, a: (n.split("::")[-1], a[-2:]) if n == NN + "::output" else None, **k)
    for cls, name, args in ((SNN, "computeOutput", [LV("inputs"), reset]), (SNN, "computeCluster", [LV("inputs"), reset]),
                            (NN, "evaluateOnceForRegression", [LV("inputs"), LV("desired"), sym("a"), reset]),
                            (NN, "evaluateOnceForMultipleClassification", [LV("inputs"), LV("desired"), sym("a"), reset]),
                            (NN, "evaluateOnceForClassification", [LV("inputs"), sym("cluster"), sym("a"), reset])):
        ck.group(name, lambda: entry(cls, name, args, "%s passes the signal on" % name))
