"""C25: softmax."""
from ..lib import *
from fractions import Fraction
from . import c26

C = NS + "Softmax"


def softmax(v):
    n = length(v)
    mx = vfold(n, [v[ZERO]], lambda i, m: if_(m < v[i], v[i], m))
    tot = vsum(n, lambda i: mk("call", "exp", v[i] - mx))
    return vmap(n, lambda i: mk("call", "exp", v[i] - mx) / tot)


def run(ck):
    P = ck.prog
    v = sym("outputs")
    for scale in (1, 40, 20000):
        # large magnitudes: a formula that overflows single precision differs there (exp overflows above 88)
        rules = [(r"outputs", lambda e, m: e.size("n", 1, 5)),
                 (r"outputs\[\d+\]", lambda e, m, s=scale: Fraction(e.rnd(m.group(0)).randint(-16 * s, 16 * s), 8) + (s if e.rnd("hi").random() < .5 else 0))]
        kw = dict(types={"this": C, "outputs": "std::vector<float>", "reset": "bool", "errors": "std::vector<float>"}, rules=rules)
        for m, a in (("applyAfterOutputForTraining", [LV("outputs"), sym("reset")]), ("applyAfterOutputForTesting", [LV("outputs")])):
            def one(m=m, a=a):
                S = ck.summary(P.method(C, m), args=a)
                ck.frame("%s: exponentials over their sum (magnitudes to %d)" % (m, 2 * scale), S, {"outputs": softmax(v)}, **kw)
            ck.group(m, one)

    def back():
        S = ck.summary(P.method(C, "applyBeforeBackpropagation"), args=[LV("errors")])
        ck.frame("errors pass unchanged", S, {}, types={"errors": "std::vector<float>", "this": C})
        ck.record("error pass-through analysed", "discharged", "rule: frame computed", S.site)
    ck.group("backward", back)
    # it is applied to the layer's outputs in training and inference alike
    c26.pipeline(ck, ("output", "outputForTraining"), kinds=["SimpleNeuron"])
