"""C15: inconsistent data sets are rejected."""
from ..data import *


def spec_reject(d):
    ti, tl, ei, el = [sym(n) for n in (d.names if d.both else ["ti", "tl", "ti", "tl"])]
    bad = []
    if d.rank == 3:
        if d.nature != "sequential":
            return TRUE
        for s in (ti, ei):
            bad.append(vany(length(s), lambda j: eq_(length(s[j]), 0)))
        bad.append(eq_(length(ti), 0))
        ti, ei = flat(ti), flat(ei)
    elif d.nature == "sequential":
        return TRUE
    if not (d.problem in PROBLEMS and d.nature in NATURES):
        return TRUE
    bad += [eq_(length(ti), 0), eq_(length(tl), 0), not_(eq_(length(ti), length(tl))), not_(eq_(length(ei), length(el)))]
    if d.nature == "timeSeries":
        bad.append(sym("R") < 1)
    bad = or_(*bad)

    def ragged(s, first):
        return vany(length(s), lambda i: not_(eq_(length(s[i]), length(first[0]))))
    more = [ragged(ti, ti), ragged(ei, ti), ragged(tl, tl), ragged(el, tl)]
    if d.problem == "classification":
        more.append(length(tl[0]) < 2)
    return ite(bad, TRUE, or_(*more))


def run(ck):
    P = ck.prog

    def make(rank, both, problem, nature):
        d = DataSet(ck, rank, both, problem, nature)
        nm = "%s %s data from %dD %s" % (nature, problem, rank, "training and testing inputs" if both else "inputs")
        ck.equal("%s: rejected exactly when inconsistent" % nm, d.made.throw_cond, spec_reject(d), d.made, types=d.types,
                 rules=d.rules(consistent=False), n=2 * ck.n)
        if d.store is not None:
            S = d.call("isValid")
            ck.equal("%s: an accepted data set reports itself valid" % nm, S.ret, ZERO, S, types=d.types, rules=d.rules(), pre=d.ok)
    for rank in (2, 3):
        for both in (True, False):
            for problem in PROBLEMS + (num(7),):
                for nature in NATURES + (num(7),):
                    ck.group("data %d %s %s %s" % (rank, both, problem, nature), lambda: make(rank, both, problem, nature))

    # training refuses data that do not fit the network or the batch size
    d = sym("data")
    nat = num(enum_value(P, "snn::nature", "nonTemporal"))

    def spec(batch):
        net = sym("this")
        o = call_(NN + "::getNumberOfOutputs", net)
        i = call_(NN + "::getNumberOfInputs", net)
        return or_(not_(eq_(d["numberOfLabels"], o)), not_(eq_(d["sizeOfData"], i)), batch < 1, batch > d["sets"][num(1)]["size"],
                   and_(not_(eq_(batch, 1)), not_(eq_(d["typeOfTemporal"], nat))))
    pol = opaque_q(r"StraightforwardNeuralNetwork::(trainSync|stopTrainingAsync)", r"NeuralNetwork::getNumberOf\w+", r"(\w+)?Wait::\w+")

    def one_two(name):
        return lambda e, m: e.rnd(name).choice([1, 1, 1, 2])
    kw = dict(types={"this": SNN, "data": DATA, "wait": "snn::Wait", "b": "int", "freq": "int"},
              calltypes={NN + "::getNumberOfOutputs": "int", NN + "::getNumberOfInputs": "int"},
              rules=[(r"data\.numberOfLabels", one_two("l")), (r"data\.sizeOfData", one_two("s")), (r"data\.typeOfTemporal", lambda e, m: e.rnd("nat").choice([0, 0, 1, 2])),
                     (r"b", lambda e, m: e.rnd("b").choice([1, 1, 1, 2, 2, 3, 4, 5, 0, -1])), (r"data\.sets\[1\]\.size", lambda e, m: e.rnd("n").choice([1, 2, 3, 4])),
                     (r"this\.isIdle", True), (r"CALL:.*getNumberOfInputs", lambda e, a: e.rnd("in").choice([1, 1, 1, 1, 2])),
                     (r"CALL:.*getNumberOfOutputs", lambda e, a: e.rnd("out").choice([1, 1, 1, 1, 2]))])

    def training():
        f = P.method(SNN, "train", lambda f: len(f["params"]) == 4)
        S = ck.summary(f, args=[LV("data"), sym("wait"), sym("b"), sym("freq")], policy=pol, cls=SNN)
        ck.equal("train refuses exactly the data that do not fit", S.throw_cond, spec(sym("b")), S, n=4 * ck.n, **kw)
    ck.group("train", training)

    def asynchronous():
        f = P.method(SNN, "startTrainingAsync", lambda f: len(f["params"]) == 3)
        S = ck.summary(f, args=[LV("data"), sym("b"), sym("freq")], policy=pol, cls=SNN)
        ck.equal("startTrainingAsync refuses exactly the data that do not fit", S.throw_cond, spec(sym("b")), S, n=4 * ck.n, **kw)
    ck.group("async", asynchronous)
