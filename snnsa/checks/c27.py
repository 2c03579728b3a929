"""C27: epochs, batches, evaluation schedule."""
from ..lib import *

Q = SNN + "::"
DATA = "snn::Data"
OPAQUE = opaque_q("NeuralNetwork::(output|outputForTraining|trainOnce|hasNan)", r"(\w+)?Wait::\w+", r"Data::\w+", r"StatisticAnalysis::\w+",
                  "StraightforwardNeuralNetwork::(saveSync|evaluate|continueTraining)")
FN_TYPES = {Q + "continueTraining": "bool", NN + "::hasNan": "bool", DATA + "::needToLearnOnTrainingData": "bool",
            DATA + "::isFirstTrainingDataOfTemporalSequence": "bool", DATA + "::getTrainingData": "std::vector<float>",
            DATA + "::getTrainingOutputs": "std::vector<float>", DATA + "::needToEvaluateOnTestingData": "bool",
            DATA + "::isFirstTestingDataOfTemporalSequence": "bool", DATA + "::getTestingData": "std::vector<float>",
            DATA + "::getTestingOutputs": "std::vector<float>", DATA + "::getTestingLabel": "int", DATA + "::getSeparator": "float",
            DATA + "::getPrecision": "float", NN + "::output": "std::vector<float>"}
EFFECTS = {"startClock", "evaluate", "shuffle", "unshuffle", "trainOnce", "outputForTraining", "output", "setResultsAsNan", "saveSync",
           "evaluateOnce", "startTesting", "stopTesting", "normalize", "evaluateOnceForRegression", "evaluateOnceForClassification",
           "evaluateOnceForMultipleClassification"}


def view(name, args):
    """effects only, without the receiver"""
    m = name.split("::")[-1]
    if m not in EFFECTS:
        return None
    if m in ("evaluate", "startClock", "setResultsAsNan", "shuffle", "startTesting", "stopTesting"):
        return m, []
    return m, args[1:]


class Loop:
    """the specified training loop"""

    def __init__(self, this, data, wait, bs, freq):
        self.bs, self.freq, self.data, self.wait = bs, freq, data, wait
        self.N = data["sets"][num(1)]["size"]
        self.base = with_(this, numberOfTrainingsBetweenTwoEvaluations=self.N)
        self.this = this

    def at(self, epoch, index=None):
        s = with_(self.base, epoch=epoch)
        return s if index is None else with_(s, index=index)

    def cont(self, k, index):
        return mk("boolof", call_(Q + "continueTraining", self.at(k + 1, index), self.wait))

    def nan(self, k, index):
        return mk("boolof", call_(NN + "::hasNan", self.at(k + 1, index)))

    def n(self, k):
        """batches of epoch k + 1"""
        return vfirst(mk("inf"), lambda t: or_(t * self.bs + self.bs > self.N, not_(self.cont(k, t * self.bs)), self.nan(k, t * self.bs)))

    def enter(self, k):
        return if_(k > 0, self.bs * self.n(k - 1), self.this["index"])

    def nanstop(self, k):
        i = self.n(k) * self.bs
        return and_(not_(i + self.bs > self.N), self.cont(k, i), self.nan(k, i))

    def last(self):
        return vfirst(mk("inf"), lambda k: or_(not_(self.cont(k, self.enter(k))), self.nanstop(k)))

    def batches(self, k, guard=TRUE):
        d, bs = self.data, self.bs
        f = lambda m, *a: call_(DATA + "::" + m, d, *a)

        def one(t):
            i = t * bs
            s = self.at(k + 1, i)
            need = mk("boolof", f("needToLearnOnTrainingData", i))
            return [ev_(NN + "::trainOnce", s, f("getTrainingData", i, bs), f("getTrainingOutputs", i, bs), f("isFirstTrainingDataOfTemporalSequence", i),
                        guard=and_(need, guard)),
                    ev_(NN + "::outputForTraining", s, f("getTrainingData", i, bs), f("isFirstTrainingDataOfTemporalSequence", i),
                        guard=and_(not_(need), guard))]
        return [ev_("x::shuffle", guard=guard)] + loop_(self.n(k), one)

    def events(self):
        fr = self.freq
        E = self.last()
        evs = [ev_("x::startClock"), ev_("x::evaluate", guard=fr > 0)]
        evs += loop_(E, lambda k: self.batches(k) + [ev_("x::evaluate", guard=and_(fr > 0, eq_((k + 1) % fr, 0)))])
        stop = self.cont(E, self.enter(E))
        return evs + self.batches(E, stop) + [ev_("x::setResultsAsNan", guard=stop)]


SIZES = [(r"batchSize", lambda e, m: e.size("bs", 1, 3)), (r"data\.sets\[1\]\.size", lambda e, m: e.size("sz", 1, 9)),
         (r"data\.sets\[0\]\.size", lambda e, m: e.size("sz0", 0, 5)),
         (r"freq", lambda e, m: e.rnd("freq").randint(-1, 3)),
         # long enough to see several epochs
         (r"CALL:snn::StraightforwardNeuralNetwork::continueTraining", lambda e, a: e.rnd("c", str(e.freeze(a[0]))).random() < e.rnd("p").choice([.6, .9, .97])),
         (r"CALL:snn::internal::NeuralNetwork::hasNan", lambda e, a: e.rnd("n", str(e.freeze(a[0]))).random() < e.rnd("pn").choice([0, .03, .2]))]


def loop_kw():
    return dict(types={"this": SNN, "data": "snn::Data", "wait": "snn::Wait", "batchSize": "int", "freq": "int"}, calltypes=FN_TYPES, rules=SIZES)


def train_summary(ck):
    f = ck.prog.method(SNN, "trainSync")
    S = ck.summary(f, args=[LV("data"), LV("wait"), sym("batchSize"), sym("freq")], policy=OPAQUE)
    return S, Loop(THIS, sym("data"), sym("wait"), sym("batchSize"), sym("freq"))


def run(ck):
    P = ck.prog

    def schedule():
        S, L = train_summary(ck)
        ck.trace("training: evaluation before, shuffle every epoch, consecutive full batches, evaluation on schedule, NaN ends it",
                 S, L.events(), view=view, n=2 * ck.n, **loop_kw())
        ck.no_throw("the training loop itself never fails", S, **loop_kw())
    ck.group("training loop", schedule)

    def cont():
        S = ck.summary(P.method(SNN, "continueTraining"), args=[LV("wait")],
                       policy=opaque_q("Wait::isOver"))
        w = sym("wait")
        over = mk("boolof", call_("snn::Wait::isOver", w, THIS["epoch"], THIS["globalClusteringRate"], THIS["meanAbsoluteError"]))
        ck.equal("training continues while no stop was requested, the condition is not met and outputs are finite", S.ret,
                 and_(not_(THIS["wantToStopTraining"]), not_(over), not_(THIS["outputNan"])), S,
                 types={"this": SNN, "wait": "snn::Wait"}, calltypes={"snn::Wait::isOver": "bool"})
    ck.group("continueTraining", cont)

    def evaluation():
        evaluate(ck)
    ck.group("evaluation", evaluation)


def evaluate_summary(ck):
    P = ck.prog
    S = ck.summary(P.method(SNN, "evaluate", lambda f: nparams(f) == 2), args=[LV("data"), sym("wait")],
                   policy=OPAQUE)
    N = sym("data")["sets"][ZERO]["size"]
    return S, vany(N, lambda i: mk("boolof", call_(NN + "::hasNan", with_(THIS, index=i))))


def evaluate(ck):
    P = ck.prog
    S, stop = evaluate_summary(ck)
    d = sym("data")
    N = d["sets"][ZERO]["size"]
    at = lambda i: with_(THIS, index=i)
    nan = lambda i: mk("boolof", call_(NN + "::hasNan", at(i)))
    n = vfirst(N, nan)
    cnt = if_(stop, n, N)
    f = lambda m, *a: call_(DATA + "::" + m, d, *a)

    def one(i):
        need = mk("boolof", f("needToEvaluateOnTestingData", i))
        x = f("getTestingData", i)
        first = f("isFirstTestingDataOfTemporalSequence", i)
        out = call_(NN + "::output", at(i), x, first)
        kind = lambda k: and_(need, eq_(d["typeOfProblem"], enum_value(P, "snn::problem", k)))
        return [ev_(NN + "::output", at(i), x, first),
                ev_("x::evaluateOnceForClassification", at(i), out, f("getTestingLabel", i), f("getSeparator"), guard=kind("classification")),
                ev_("x::evaluateOnceForMultipleClassification", at(i), out, f("getTestingOutputs", i), f("getSeparator"), guard=kind("multipleClassification")),
                ev_("x::evaluateOnceForRegression", at(i), out, f("getTestingOutputs", i), f("getPrecision"), guard=kind("regression"))]
    sp = [ev_("x::startTesting")] + loop_(cnt, one) + [ev_("x::setResultsAsNan", guard=stop), ev_("x::stopTesting", guard=not_(stop)),
          ev_("x::saveSync", THIS, THIS["autoSaveFilePath"], guard=and_(not_(stop), THIS["autoSaveWhenBetter"], THIS["globalClusteringRateIsBetterThanMax"]))]

    def v(name, args):
        m = name.split("::")[-1]
        if m == "saveSync":
            return m, [str(args[1])]
        return view(name, args)
    kw = loop_kw()
    kw["types"] = dict(kw["types"], wait="snn::Wait *")
    ck.trace("evaluation: every testing datum once in order, put through the network and evaluated for its kind of problem (or only propagated), NaN ends it, best saved", S, sp, view=v, **kw)
    return S, stop
