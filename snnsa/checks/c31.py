"""C31: gated recurrent unit."""
from ..lib import *


def run(ck):
    P = ck.prog
    types = {"this": GRU, "inputs": "std::vector<float>", "model": "snn::NeuronModel"}
    rules = gru_rules("this") + [(r"inputs", lambda e, m: e.value("this.numberOfInputs", "int"))]
    kw = dict(types=types, rules=rules, calltypes=ACT_TYPES)
    pol = opaque_q(ACTF)

    def forward():
        S = ck.summary(P.method(GRU, "output"), args=[LV("inputs"), FALSE], policy=pol)
        out, nxt = gru_output(THIS, sym("inputs"))
        _, alt = gru_output(THIS, sym("inputs"), False)
        ck.equal("output: (1-update)*previous output + update*candidate", S.ret, out, S, **kw)
        ck.frame("memory after output", S, {"this": nxt}, known=[("K3", {"this": alt})], canon=gru_canon, **kw)
    ck.group("forward", forward)

    def reset():
        S = ck.summary(P.method(GRU, "output"), args=[LV("inputs"), TRUE], policy=pol)
        out, nxt = gru_output(gru_clear(THIS), sym("inputs"))
        alts = []
        for rem in (False, True):
            o, a = gru_output(gru_clear(THIS, False), sym("inputs"), rem)
            alts.append((o, a))
        ck.equal("output after a reset: previous output is zero", S.ret, out, S, known=[("K1", alts[0][0])], **kw)
        ck.frame("memory after a reset", S, {"this": nxt}, known=[("K1", {"this": alts[1][1]}), ("K1", {"this": alts[0][1]}),
                                                                  ("K3", {"this": alts[0][1]})], canon=gru_canon, **kw)
    ck.group("reset", reset)

    def ctor():
        f = P.find(GRU + "::GatedRecurrentUnit", lambda f: len(f["params"]) == 2)
        S = ck.summary(f, args=[LV("model"), sym("optimizer")], cls=GRU, store={"this": mk("undef", GRU)},
                       policy=opaque_q(ACTF, RANDF))
        m = sym("model")
        sig = enum_value(P, "snn::activation", "sigmoid")
        tan = enum_value(P, "snn::activation", "tanh")
        k2 = dict(types=types, rules=[(r"model\.(numberOfInputs|batchSize|numberOfWeights)", lambda e, m: e.size(m.group(0)))])
        for g, a in (("resetGate", sig), ("updateGate", sig), ("outputGate", tan)):
            o = S.this[g]
            ck.equal("%s uses its activation function" % g, o["activationFunction"], num(a), S, **k2)
            for mine, theirs in (("numberOfInputs", "numberOfInputs"), ("batchSize", "batchSize"), ("bias", "bias")):
                ck.equal("%s takes %s from the declaration" % (g, mine), o[mine], m[theirs], S, **k2)
            ck.equal("%s has the declared number of weights" % g, length(o["weights"]), m["numberOfWeights"], S, **k2)
            ck.equal("%s shares the network optimizer" % g, o["optimizer"], sym("optimizer"), S, **k2)
            ck.equal("%s starts without memory" % g, o["lastOutput"], ZERO, S, **k2)
        ck.equal("the unit starts without memory", S.this["previousOutput"], ZERO, S, **k2)
    ck.group("construction", ctor)
