"""C29: the per-neuron history buffer is a FIFO ring."""
from ..lib import *
from . import c07


def run(ck):
    c07.circular(ck)
    # every history buffer of a neuron gets one slot per element of the batch and vectors of the right size
    P = ck.prog
    N = NS + "Neuron"

    def ctor():
        f = P.find(N + "::Neuron", lambda f: len(f["params"]) == 2)
        S = ck.summary(f, args=[LV("model"), sym("optimizer")], cls=N, store={"this": mk("undef", N)},
                       policy=opaque_q(ACTF, RANDF))
        m = sym("model")
        kw = dict(types={"model": "snn::NeuronModel", "this": N},
                  rules=[(r"model\.(numberOfInputs|batchSize|numberOfWeights)", lambda e, m: e.size(m.group(0))),
                         (r"CALL:.*", lambda e, a: e.fresh(str(a), "float"))])
        ck.equal("input history sized batch x inputs", S.this["lastInputs"]["queue"],
                 vmap(m["batchSize"], lambda i: zeros(m["numberOfInputs"])), S, **kw)
        ck.equal("weight change history sized batch x weights", S.this["previousDeltaWeights"]["queue"],
                 vmap(m["batchSize"], lambda i: zeros(m["numberOfWeights"])), S, **kw)
    ck.group("history sizes", ctor)
