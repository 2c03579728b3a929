"""C04: inference does not change what was learned."""
from ..lib import *
from . import c01, c02, c09, c27

# the memory of the last inputs and outputs a later training or time step needs, and scratch
MEMORY = {
    NS + "Neuron": {"lastInputs", "errors", "sum"},
    NS + "RecurrentNeuron": {"lastOutput", "previousOutput", "recurrentError", "previousSum"},
    NS + "GatedRecurrentUnit": {"errors", "previousOutput", "recurrentError", "updateGateOutput", "outputGateOutput"},
    NS + "MaxPooling1D": {"maxValueIndexes"}, NS + "MaxPooling2D": {"maxValueIndexes"},
}
LEARNED_NN = ("layers", "optimizer", "numberOfTraining")
TRAINING = re.compile(r"(train\w*|backOutput|updateWeights|applyAfterOutputForTraining|applyBeforeBackpropagation|outputForTraining|computeBackOutput|computeTrain|backpropagationAlgorithm|shuffle|setOptimizer)$")


def frozen(P, cls, path=""):
    """paths of the members inference must leave alone"""
    out = []
    for q in P.bases(cls):
        if q in P.recs:
            for f in P.fields(q, False):
                if f["n"] in MEMORY.get(q, ()):
                    continue
                t = f["t"]
                if t in P.recs and t != cls and any(b in MEMORY for b in P.bases(t)):
                    out += frozen(P, t, path + f["n"] + ".")
                else:
                    out.append(path + f["n"])
    return out


def no_training(ck, name, S):
    bad = [e.name for e in S.trace if TRAINING.search(e.name)]
    ck.rule("%s runs no training operation" % name, not bad, "calls " + ", ".join(sorted(set(bad))), S.site)


def run(ck):
    P = ck.prog
    reset = sym("reset")

    def neuron(cls):
        def go():
            f = P.method(cls, "output")
            kw = dict(types={"this": cls, "inputs": "std::vector<float>", "reset": "bool"}, calltypes=ACT_TYPES,
                      rules=gru_rules("this") if cls == GRU else neuron_rules("this", 1 if cls.endswith("SimpleNeuron") else 2))
            kw["rules"] = kw["rules"] + [(r"inputs", lambda e, m: e.value("this.numberOfInputs", "int"))]
            S = ck.summary(f, args=[LV("inputs"), reset][:nparams(f)], policy=opaque_q(ACTF))
            for p in frozen(P, cls):
                ck.equal("%s: computing an output leaves %s" % (cls.split("::")[-1], p), S.this[p], THIS[p], S, **kw)
            others(ck, cls.split("::")[-1] + "::output", S, kw)
            no_training(ck, cls.split("::")[-1] + "::output", S)
        ck.group(cls, go)

    def others(ck, what, S, kw, allowed=("this",)):
        for r in S.roots():
            if r not in allowed:
                ck.equal("%s leaves %s" % (what, r if isinstance(r, str) else "*" + show(r[1], 4)), S.final(r), initial_root(r), S, **kw)
    for c in (NS + "SimpleNeuron", REC, GRU):
        neuron(c)

    def layer(c):
        def go():
            n = c.split("::")[-1]
            S = ck.summary(P.method(c, "output"), args=[LV("inputs"), reset], cls=c, policy=opaque_q(r"\w*(Neuron|Unit)::output", r"LayerOptimizer::apply\w+"))
            kw = dict(types={"this": c, "inputs": "std::vector<float>", "reset": "bool"})
            for p in frozen(P, c):
                ck.equal("%s: computing an output leaves %s" % (n, p), S.this[p], THIS[p], S, **kw)
            others(ck, n + "::output", S, kw)
            no_training(ck, n + "::output", S)
        ck.group(c, go)
    for c in c02.clones(P, NS + "BaseLayer"):
        layer(c)

    def optimizer(c):
        def go():
            n = c.split("::")[-1]
            S = ck.summary(P.method(c, "applyAfterOutputForTesting"), args=[LV("outputs")], cls=c, policy=opaque_q(r"BaseLayer::\w+"))
            kw = dict(types={"this": c, "outputs": "std::vector<float>"})
            ck.equal("%s: inference leaves its settings and state" % n, S.this, THIS, S, **kw)
            others(ck, n + " in inference", S, kw, ("this", "outputs"))
            no_training(ck, n + " in inference", S)
        ck.group(c, go)
    for c in c02.clones(P, NS + "LayerOptimizer"):
        optimizer(c)

    c09.passes(ck, which=("output",))

    def network():
        k = net_kw()
        S = ck.summary(P.method(NN, "output"), args=[LV("inputs"), reset])
        no_training(ck, "NeuralNetwork::output", S)
        S = ck.summary(P.method(NN, "getLayerOutputs"), args=[LV("inputs")])
        no_training(ck, "NeuralNetwork::getLayerOutputs", S)
        for f in LEARNED_NN:
            ck.equal("NeuralNetwork::getLayerOutputs leaves %s" % f, S.this[f], THIS[f], S, **k)
    ck.group("network", network)

    def entry(cls, name, args, pol, pred=None):
        def go():
            S = ck.summary(P.method(cls, name, pred), args=args, policy=pol, cls=cls)
            k = c27.loop_kw()
            k["types"] = dict(k["types"], this=cls, inputs="std::vector<float>", desired="std::vector<float>", a="float", cluster="int", reset="bool", data="snn::Data")
            for f in LEARNED_NN + (("epoch",) if cls == SNN else ()):
                ck.equal("%s leaves %s" % (name, f), S.this[f], THIS[f], S, **k)
            no_training(ck, name, S)
            others(ck, name, S, k)
        ck.group(name, go)
    one = opaque_q("NeuralNetwork::output")
    a = sym("a")
    entry(SNN, "computeOutput", [LV("inputs"), reset], one)
    entry(SNN, "computeCluster", [LV("inputs"), reset], one)
    entry(NN, "evaluateOnceForRegression", [LV("inputs"), LV("desired"), a, reset], one)
    entry(NN, "evaluateOnceForMultipleClassification", [LV("inputs"), LV("desired"), a, reset], one)
    entry(NN, "evaluateOnceForClassification", [LV("inputs"), sym("cluster"), a, reset], one)
    entry(SNN, "evaluateOnce", [LV("data")], opaque_q("NeuralNetwork::output", r"Data::\w+"))
    entry(SNN, "evaluate", [LV("data"), sym("wait")], c27.OPAQUE, lambda f: nparams(f) == 2)
    entry(SNN, "saveFilterLayersAsBitmap", [LV("path"), LV("data"), sym("dataIndex")],
          opaque_q(r"NeuralNetwork::getLayerOutputs", r"NeuralNetworkVisualization::\w+", r"Data::\w+"))
