"""C39: a new network starts with small random weights of its own and a neutral state."""
from ..layers import *

BIAS = {"fullyConnected": 1, "recurrence": 1, "gruLayer": 1, "convolution": Fraction(1, 1000), "locallyConnected": Fraction(1, 1000)}
NEURON = {"fullyConnected": "SimpleNeuron", "recurrence": "RecurrentNeuron", "gruLayer": "GatedRecurrentUnit",
          "convolution": "SimpleNeuron", "locallyConnected": "SimpleNeuron"}
GATES = ("resetGate", "updateGate", "outputGate")
KINDS = [("fullyConnected", 1), ("recurrence", 1), ("gruLayer", 1)] + FILTERS
HALF = Fraction(1, 2)


def uniform(e, args):
    return ("uniform",) + tuple(args[:2])


def draw(e, args):
    d = args[0]
    if not (isinstance(d, tuple) and d and d[0] == "uniform"):
        raise pit.Undecidable("unknown distribution")
    lo, hi = d[1], d[2]
    # every draw of one valuation takes the same quantile, including both ends
    q = e.rnd("quantile").choice([Fraction(0), Fraction(1, 8), Fraction(1, 3), Fraction(5, 8), Fraction(1)])
    return lo + (hi - lo) * q if isinstance(lo, (int, Fraction)) and isinstance(hi, (int, Fraction)) else lo + (hi - lo) * float(q)


def spec_draw(v):
    return mk("call", "random", mk("call", "ctor:std::uniform_real_distribution<>", -v, v), ZERO)


DRAWS = [(r"CALL:random", draw), (r"CALL:ctor:std::uniform_real_distribution.*", uniform)]


def neurons(ck, kind, nd):
    P = ck.prog
    D = declared(ck, kind)
    b = Built(ck, kind, dims(nd), optimizers=None, model=D.ret)
    # inlined: the draws themselves are what is specified here
    S = ck.summary(factory(P), args=[LV("model"), LV("shape"), sym("optimizer")], store={"model": b.model, "shape": lst(*dims(nd))})
    o = S.deref(S.ret)
    if o.op != "obj":
        raise Skip("the built layer could not be determined")
    return S, o["neurons"]


def run(ck):
    P = ck.prog
    sig, tan = (num(enum_value(P, "snn::activation", a)) for a in ("sigmoid", "tanh"))

    def layer(kind, nd):
        tag = "%s%s" % (kind, " %dD" % nd if kind in ("convolution", "locallyConnected") else "")
        S, ns = neurons(ck, kind, nd)
        gru = kind == "gruLayer"
        j = sym("j")
        kw = dict(types={"K": "int", "F": "int", "C": "int", "X": "int", "Y": "int", "N": "int", "j": "int", "act": "int", "optimizer": "std::shared_ptr<%sNeuralNetworkOptimizer>" % NS},
                  rules=DRAWS + [(r"K", lambda e, m: e.size("K", 1, 3)), (r"F", lambda e, m: e.size("F", 1, 3)), (r"C", lambda e, m: e.size("C", 1, 2)),
                                 (r"N", lambda e, m: e.size("N", 1, 4)), (r"act", lambda e, m: e.rnd("act").randint(0, 6)),
                                 (r"X", lambda e, m: e.value("K", "int") + e.rnd("dX").randint(0, 4)), (r"Y", lambda e, m: e.value("K", "int") + e.rnd("dY").randint(0, 3))])
        nin = mul(*dims(nd)) if kind in ("fullyConnected", "recurrence", "gruLayer") else cells(nd)
        nw = nin + (2 if kind in ("recurrence", "gruLayer") else 1)
        v = rdiv(t_(Fraction(12, 5)), mk("call", "pow", nw, t_(HALF)))

        def pick(e):
            return e.rnd("j").randint(0, max(0, e.ev(length(ns)) - 1))
        kw["rules"] = kw["rules"] + [(r"j", lambda e, m: pick(e))]
        obj = ns[j]
        parts = [(g, obj[g], a) for g, a in zip(GATES, (sig, sig, tan))] if gru else [("neuron", obj, ACT)]
        for g, o, a in parts:
            name = "%s: %s: " % (tag, g)
            w = o["weights"]
            n = length(w)
            ck.equal(name + "one weight per input, one for the bias and one for the recurrence", n, nw, S, **kw)
            d = spec_draw(v)
            ck.equal(name + "every weight but the last is drawn from the interval of half-width 2.4/sqrt(number of weights)",
                     vmap(nw - 1, lambda i: w[i]), vmap(nw - 1, lambda i: d), S, **kw)
            last = w[nw - 1]
            ck.equal(name + "the last weight is not negative and in the same interval", and_(t_(0) <= last, last <= v * Fraction(1001, 1000)), TRUE, S, **kw)
            member(ck, name + "the bias input is the one of its kind of layer", o, "bias", t_(BIAS[kind]), S, **kw)
            member(ck, name + "it has its activation function", o, "activationFunction", a, S, **kw)
            ck.equal(name + "it learns with the network's optimizer", o["optimizer"], sym("optimizer"), S, **kw)
            for h, size in (("lastInputs", nin), ("previousDeltaWeights", nw)):
                q = o[h]["queue"]
                ck.equal(name + "%s remembers nothing" % h, q, vmap(o["batchSize"], lambda i: vmap(size, lambda k: t_(0))), S, **kw)
            zero = ("sum",) + (("lastOutput", "previousOutput", "previousSum", "recurrentError") if nw is not nin + 1 else ())
            for f in zero:
                member(ck, name + "%s starts at zero" % f, o, f, ZERO, S, **kw)
        if gru:
            for f in ("previousOutput", "recurrentError", "updateGateOutput", "outputGateOutput"):
                member(ck, "%s: %s starts at zero" % (tag, f), obj, f, ZERO, S, **kw)
        ck.trace("%s: every weight of every neuron is a draw of its own" % tag, S,
                 loop_(length(ns), lambda i: loop_(nw * (3 if gru else 1), lambda k: [ev_("random")])),
                 view=lambda nm, a: (nm, []) if nm == "random" else None, **kw)
    for kind, nd in KINDS:
        ck.group("%s %dD" % (kind, nd), lambda: layer(kind, nd))

    def network():
        f = P.find(SNN + "::StraightforwardNeuralNetwork", lambda f: nparams(f) == 2)
        S = ck.summary(f, args=[sym("architecture"), sym("model")], cls=SNN, store={"this": mk("undef", SNN)},
                       policy=opaque_q(r"LayerFactory::build", r"NeuralNetworkOptimizerFactory::build", r"\w+::getNumberOfOutputs", r"\w+::isValid"))
        kw = dict(types={"architecture": "std::vector<snn::LayerModel>", "model": "snn::NeuralNetworkOptimizerModel"})
        G = lambda cls, name: ck.summary(P.method(cls, name), store=S.returns.st.store).ret
        for cls, get, want in ((SNN, "getCurrentEpoch", 0), (SNN, "getCurrentIndex", 0), (SNN, "isTraining", False), (NN, "hasNan", False),
                               (NN, "getNumberOfTraining", 0)) + tuple(
                (NS + "StatisticAnalysis", "get" + x, -1) for x in (
                    "GlobalClusteringRate", "WeightedClusteringRate", "F1Score", "MeanAbsoluteError", "RootMeanSquaredError", "GlobalClusteringRateMax",
                    "WeightedClusteringRateMax", "F1ScoreMax", "MeanAbsoluteErrorMin", "RootMeanSquaredErrorMin")):
            got = G(cls, get)
            if "undef(" in show(got, 6) and got.op == "fld":
                ck.rule("a new network: %s" % get, False, "it returns a member that was never given a value: %s" % show(got), S.site)
            else:
                ck.equal("a new network: %s is %s" % (get, want), got, t_(want), S, **kw)
        member(ck, "a new network does not save by itself", S.this, "autoSaveWhenBetter", FALSE, S, **kw)
        member(ck, "a new network has not been asked to stop", S.this, "wantToStopTraining", FALSE, S, **kw)
    ck.group("network", network)
