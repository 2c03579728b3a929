"""C21: predicted class."""
from ..lib import *


def argmax_first(v):
    n = length(v)
    return vfirst(n, lambda i: vall(n, lambda j: v[j] <= v[i]))


def run(ck):
    P = ck.prog
    inputs, reset = sym("inputs"), sym("reset")
    wide = lambda e, m: e.rnd(m.group(0)).choice([-100000, -1000, -3, -2, -1, 0, 1, 5, 70000]) if e.rnd("wide").random() < .7 else -e.rnd(m.group(0)).randint(2, 9)
    vals = [(r"call:snn::internal::NeuralNetwork::output\(\w+\)\[\d+\]", wide), (r"outputs\[\d+\]", wide)]

    def cluster():
        kw = net_kw()
        kw["types"]["this"] = SNN
        kw["rules"] = vals + kw["rules"]
        S = ck.summary(P.method(SNN, "computeCluster"), args=[LV("inputs"), reset], policy=opaque_q("NeuralNetwork::output"))
        v = call_(NN + "::output", THIS, inputs, reset)
        ck.equal("computeCluster: smallest index of the largest output", S.ret, argmax_first(v), S, n=4 * ck.n, **kw)
        ck.trace("computeCluster runs the network once", S, [ev_(NN + "::output", THIS, inputs, reset)], **kw)
    ck.group("computeCluster", cluster)

    def evaluation():
        SA = NS + "StatisticAnalysis"
        f = P.method(SA, "evaluateOnceForClassification")
        S = ck.summary(f, args=[LV("outputs"), sym("classNumber"), sym("separator")])
        v = sym("outputs")
        n = lambda e: e.size("n", 1, 5)
        rules = vals + [(r"outputs", lambda e, m: n(e)), (r"classNumber", lambda e, m: e.rnd("c").randint(0, n(e) - 1)),
                        (r"this\.clusters", lambda e, m: n(e))]
        kw = dict(types={"this": SA, "outputs": "std::vector<float>", "classNumber": "int", "separator": "float"}, rules=rules)
        right = eq_(argmax_first(v), sym("classNumber"))
        ck.equal("a classification counts as right exactly when the largest output is the expected class",
                 S.this["numberOfDataWellClassified"], THIS["numberOfDataWellClassified"] + if_(right, 1, 0), S, n=4 * ck.n, **kw)
        ck.equal("and as wrong otherwise", S.this["numberOfDataMisclassified"], THIS["numberOfDataMisclassified"] + if_(right, 0, 1), S, n=4 * ck.n, **kw)
    ck.group("evaluation", evaluation)
