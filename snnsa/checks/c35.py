"""C35: a gated recurrent unit learns."""
from ..lib import *

GATES = ("resetGate", "updateGate", "outputGate")


def run(ck):
    P = ck.prog
    sgd = NS + "StochasticGradientDescent"
    types = {"this": GRU, "error": "float"}
    dyn = {r"this\.\w+\.optimizer": sgd}
    kw = dict(types=types, rules=gru_rules("this"), dyn=dyn, calltypes=ACT_TYPES)
    pol = opaque_q(ACTF)
    hd = {H(THIS[g]["optimizer"]): sgd for g in GATES}
    upd = P.find(sgd + "::updateWeights", lambda f: "RecurrentNeuron" in f["params"][0]["t"])

    def step(gate, err):
        """the gate after one step of the network optimizer on that error (whatever the optimizer's rule is)"""
        R = ck.summary(upd, this=LV(("H", gate["optimizer"])), args=[LV("neuron"), err], store={"neuron": gate}, policy=pol, cls=sgd)
        return R.final("neuron")

    def slope(g):
        return dact(g["outputFunction"], g["sum"])

    e, z, c, prev = sym("error"), THIS["updateGateOutput"], THIS["outputGateOutput"], THIS["previousOutput"]
    og, ug, rg = THIS["outputGate"], THIS["updateGate"], THIS["resetGate"]
    n = THIS["numberOfInputs"]
    e_out = e * z * slope(og)
    right = (e_out, e * (c - prev) * slope(ug), prev * (e_out * og["weights"][n]) * slope(rg))
    # K5: what the unit uses instead of the gradient of its blend
    k5 = (e_out, e * (c + z) * slope(ug), prev * (e_out * og["weights"][n - 1]) * slope(rg))

    def after(errs):
        u = THIS
        for g, x in zip(("outputGate", "updateGate", "resetGate"), errs):
            u = setf(u, g, step(THIS[g], x))
        return u

    def canon(u):
        u = setf(u, "errors", lst())
        for g in GATES:
            u = setf(u, g, setf(neuron_canon(u[g]), "errors", lst()))
        return u

    def backward(m):
        S = ck.summary(P.method(GRU, m), args=[e], policy=pol, dyn=hd)
        ck.frame("%s: each gate takes exactly one optimizer step on its share of the error" % m, S, {"this": after(right)},
                 known=[("K5", {"this": after(k5)})], canon=canon, **kw)
        if m == "backOutput":
            got = S.deref(S.ret) if S.ret.op in ("addr", "iter") else S.ret

            def passed(errs):
                return vmap(n, lambda i: errs[0] * og["weights"][i] + errs[1] * ug["weights"][i] + errs[2] * rg["weights"][i])
            ck.equal("an inner unit passes back, to each input, what its three gates pass back", got, passed(right), S,
                     known=[("K5", passed(k5))], **kw)
    for m in ("backOutput", "train"):
        ck.group(m, lambda: backward(m))

    def same():
        A = ck.summary(P.method(GRU, "backOutput"), args=[e], policy=pol, dyn=hd)
        B = ck.summary(P.method(GRU, "train"), args=[e], policy=pol, dyn=hd)
        ck.equal("a unit of the first layer learns exactly as one of an inner layer does", canon(B.final("this")), canon(A.final("this")), B, **kw)
    ck.group("same", same)
