"""C08: recurrent neuron forward, backward and update."""
from ..lib import *


def run(ck):
    P = ck.prog
    types = {"this": REC, "inputs": "std::vector<float>", "error": "float", "neuron": REC}
    rules = neuron_rules("this", 2) + neuron_rules("neuron", 2) + [
        (r"inputs", lambda e, m: e.value("this.numberOfInputs", "int"))]
    dyn = {r"this\.optimizer": NS + "StochasticGradientDescent"}
    kw = dict(types=types, rules=rules, dyn=dyn, calltypes=ACT_TYPES, canon=neuron_canon)
    kv = {k: v for k, v in kw.items() if k != "canon"}
    pol = opaque_q(ACTF)

    def forward():
        S = ck.summary(P.method(REC, "output"), args=[LV("inputs"), FALSE], policy=pol)
        out, nxt = rec_output(THIS, sym("inputs"))
        ck.equal("forward: f(inputs*weights + previous output*recurrent weight + bias*bias weight)", S.ret, out, S, **kv)
        ck.frame("forward state", S, {"this": nxt}, **kw)
    ck.group("forward", forward)

    opt = deref(THIS["optimizer"])
    hdyn = {H(THIS["optimizer"]): NS + "StochasticGradientDescent"}
    err = sym("error") * dact(THIS["outputFunction"], THIS["sum"])
    n, w = THIS["numberOfInputs"], THIS["weights"]

    def backward():
        S = ck.summary(P.method(REC, "backOutput"), args=[sym("error")], policy=pol, dyn=hdyn)
        errors = vmap(n, lambda i: err * w[i])
        got = S.deref(S.ret) if S.ret.op in ("addr", "iter") else S.ret
        ck.equal("backward: returned errors are error*f'(sum)*weights before the update", got, errors, S, **kv)
        ck.frame("backward state", S, {"this": with_(sgd_recurrent(THIS, opt, err), errors=errors)},
                 known=[("K2", {"this": with_(sgd_recurrent(THIS, opt, err, True), errors=errors)})], **kw)
    ck.group("backward", backward)

    def train():
        S = ck.summary(P.method(REC, "train"), args=[sym("error")], policy=pol, dyn=hdyn)
        ck.frame("train state", S, {"this": sgd_recurrent(THIS, opt, err)},
                 known=[("K2", {"this": sgd_recurrent(THIS, opt, err, True)})], **kw)
    ck.group("train", train)

    def step():
        f = P.find(NS + "StochasticGradientDescent::updateWeights", lambda f: "RecurrentNeuron" in f["params"][0]["t"])
        S = ck.summary(f, args=[LV("neuron"), sym("error")], policy=pol)
        k2 = dict(kw, types={"this": NS + "StochasticGradientDescent", "neuron": REC, "error": "float"})
        N = sym("neuron")
        k2.pop("canon")
        ck.frame("optimizer step", S, {"neuron": sgd_recurrent(N, THIS, sym("error"))},
                 known=[("K2", {"neuron": sgd_recurrent(N, THIS, sym("error"), True)})],
                 canon=lambda t: t if t is THIS else neuron_canon(t), **k2)
    ck.group("optimizer step", step)

    def sizes():
        f = P.find(NS + "Neuron::Neuron", lambda f: len(f["params"]) == 2)
        S = ck.summary(f, args=[LV("model"), sym("optimizer")], cls=NS + "Neuron", store={"this": mk("undef", NS + "Neuron")},
                       policy=opaque_q(ACTF, RANDF))
        m = sym("model")
        kc = dict(types={"model": "snn::NeuronModel", "this": NS + "Neuron"},
                  rules=[(r"model\.(numberOfInputs|batchSize|numberOfWeights)", lambda e, m: e.size(m.group(0))),
                         (r"CALL:.*", lambda e, a: e.fresh(str(a), "float"))])
        ck.equal("a neuron starts with the declared number of weights", length(S.this["weights"]), m["numberOfWeights"], S, **kc)
        ck.equal("a neuron starts with the declared bias", S.this["bias"], m["bias"], S, **kc)
        ck.equal("a neuron starts with one error slot per input", length(S.this["errors"]), m["numberOfInputs"], S, **kc)
    ck.group("construction", sizes)
