"""C19: evaluation metrics are the standard functions of what was evaluated since the evaluation began."""
from fractions import Fraction
from ..lib import *
from ..stdlib import power

SA = NS + "StatisticAnalysis"
KINDS = {"Regression": "evaluateOnceForRegression", "MultipleClassification": "evaluateOnceForMultipleClassification",
         "Classification": "evaluateOnceForClassification"}
GETTERS = ("GlobalClusteringRate", "WeightedClusteringRate", "F1Score", "MeanAbsoluteError", "RootMeanSquaredError")


def nclusters(e):
    return e.size("n", 1, 5) if e.sizes else e.rnd("n").choice([1, 2, 2, 3, 3, 4, 5, 9])


def grid(e, m):
    """values that hit thresholds exactly and values that do not"""
    return e.rnd(m.group(0)).choice([-1.5, -1, -.5, -.25, 0, .25, .5, .75, 1, 1.25, 2, .3, .9]) + \
        e.rnd("shift").choice([0, 0, 0, 0, -4, -20000, 7])


RULES = [(r"(out|des)\d\[\d+\]", grid), (r"(out|des)\d", lambda e, m: nclusters(e)), (r"cls\d", lambda e, m: e.rnd(m.group(0)).randint(0, nclusters(e) - 1)),
         (r"separator", lambda e, m: e.rnd("s").choice([0, .25, .5, -.5])), (r"precision", lambda e, m: e.rnd("p").choice([0, .25, .5, .3])),
         (r"this\.clusters", lambda e, m: nclusters(e)),
         (r"this\.\w+(Max|Min)", lambda e, m: e.rnd(m.group(0)).choice([-1, 0, .25, .5, 1, 2, .3]))]


def kw_(*more):
    t = {"this": SA, "separator": "float", "precision": "float"}
    for i in range(4):
        t.update({"out%d" % i: "std::vector<float>", "des%d" % i: "std::vector<float>", "cls%d" % i: "int"})
    return dict(types=t, rules=list(more) + RULES)


class Datum:
    """one evaluated datum: what it contributes"""

    def __init__(self, kind, i):
        self.kind, self.o, self.d, self.c = kind, sym("out%d" % i), sym("des%d" % i), sym("cls%d" % i)
        self.sep, self.prec = sym("separator"), sym("precision")

    def args(self):
        i = self.o.args[0][3:]
        return [LV("out" + i), sym("cls" + i), self.sep] if self.kind == "Classification" else \
            [LV("out" + i), LV("des" + i), self.prec if self.kind == "Regression" else self.sep]

    def want(self, k):
        return if_(eq_(k, self.c), 1, 0) if self.kind == "Classification" else self.d[k]

    def err(self, k):
        return self.want(k) - self.o[k]

    def well(self, n):
        if self.kind == "Regression":
            return vall(n, lambda k: and_(self.o[k] <= self.d[k] + self.prec, self.o[k] >= self.d[k] - self.prec))
        if self.kind == "MultipleClassification":
            return vall(n, lambda k: eq_(self.o[k] > self.sep, self.d[k] > self.sep))
        return eq_(vfirst(n, lambda i: vall(n, lambda j: self.o[j] <= self.o[i])), self.c)

    def is_(self, what, k):
        if self.kind == "Regression":
            fp, fn = self.o[k] > self.d[k] + self.prec, self.o[k] < self.d[k] - self.prec
            return dict(tp=FALSE, fp=fp, fn=fn, tn=not_(or_(fp, fn)))[what]
        pos = self.o[k] > self.sep
        act = eq_(k, self.c) if self.kind == "Classification" else self.d[k] > self.sep
        return dict(tp=and_(pos, act), fp=and_(pos, not_(act)), fn=and_(not_(pos), act), tn=and_(not_(pos), not_(act)))[what]


def metrics(n, data):
    total = num(len(data))
    cnt = lambda w, k: sum((if_(d.is_(w, k), 1, 0) for d in data), ZERO)
    well = sum((if_(d.well(n), 1, 0) for d in data), ZERO)

    def recall(k):
        tp, fn = cnt("tp", k), cnt("fn", k)
        return if_(tp > 0, tp / (tp + fn), 0)

    def f1(k):
        tp, fn, fp = cnt("tp", k), cnt("fn", k), cnt("fp", k)
        return if_(tp > 0, 2 * tp / (2 * tp + fp + fn), 0)
    absum = vsum(n, lambda k: sum((mk("call", "abs", d.err(k)) for d in data), ZERO))
    sq = vsum(n, lambda k: sum((d.err(k) * d.err(k) for d in data), ZERO))
    return dict(GlobalClusteringRate=well / total, WeightedClusteringRate=vsum(n, recall) / n, F1Score=vsum(n, f1) / n,
                MeanAbsoluteError=absum / total, RootMeanSquaredError=power(sq / total, num(Fraction(1, 2))))


def campaign(ck, kinds, store=None):
    """startTesting; evaluateOnce...; stopTesting"""
    P = ck.prog
    S = ck.summary(P.method(SA, "startTesting"), store=store)
    data = []
    for i, k in enumerate(kinds):
        d = Datum(k, i)
        S = ck.summary(P.method(SA, KINDS[k]), args=d.args(), store=S.returns.st.store)
        data.append(d)
    S = ck.summary(P.method(SA, "stopTesting"), store=S.returns.st.store)
    return S, data


def getter(ck, S, name):
    G = ck.summary(ck.prog.method(SA, "get" + name), store=S.returns.st.store)
    return G


def run(ck):
    n = length(THIS["clusters"])
    kw = kw_()
    seqs = [[k] * m for k in KINDS for m in (1, 2, 3)]
    if ck.tier != "quick":
        seqs += [[k] * 4 for k in KINDS]

    def one(ks):
        S, data = campaign(ck, ks)
        m = metrics(n, data)
        for g in GETTERS:
            G = getter(ck, S, g)
            ck.equal("%s of %d data: %s" % (ks[0], len(ks), g), G.ret, m[g], G, **dict(kw, n=2 * ck.n))
    for ks in seqs:
        ck.group("%s x%d" % (ks[0], len(ks)), lambda: one(ks))

    COUNTS = ("truePositive", "trueNegative", "falsePositive", "falseNegative")
    NUMBERS = ("numberOfDataWellClassified", "numberOfDataMisclassified")

    def counted():
        P = ck.prog
        ck.needs(SA, "clusters", *NUMBERS)
        ck.needs(NS + "binaryClassification", *COUNTS)
        for k in KINDS:
            d = Datum(k, 0)
            S = ck.summary(P.method(SA, KINDS[k]), args=d.args())
            t = S.this
            ck.equal("%s: every datum is counted exactly once" % k, t["numberOfDataWellClassified"] + t["numberOfDataMisclassified"],
                     THIS["numberOfDataWellClassified"] + THIS["numberOfDataMisclassified"] + 1, S, **kw)
            for f, w in (("truePositive", "tp"), ("trueNegative", "tn"), ("falsePositive", "fp"), ("falseNegative", "fn")):
                ck.equal("%s: %s counts" % (k, f), vmap(n, lambda i: t["clusters"][i][f] - THIS["clusters"][i][f]),
                         vmap(n, lambda i: if_(d.is_(w, i), 1, 0)), S, **kw)
            ck.equal("%s: other results untouched" % k,
                     tup(*[t[f] for f in REPORTED]), tup(*[THIS[f] for f in REPORTED]), S, **kw)
    ck.group("counts", counted)

    def cleared():
        ck.needs(SA, "clusters", *NUMBERS)
        ck.needs(NS + "binaryClassification", *COUNTS)
        S = ck.summary(ck.prog.method(SA, "startTesting"))
        c = S.this["clusters"]
        ck.equal("starting an evaluation clears every count", vmap(n, lambda i: lst(*[c[i][f] for f in COUNTS])),
                 vmap(n, lambda i: lst(ZERO, ZERO, ZERO, ZERO)), S, **kw)
        ck.equal("and the numbers of data", lst(S.this["numberOfDataWellClassified"], S.this["numberOfDataMisclassified"]), lst(ZERO, ZERO), S, **kw)
        ck.equal("and keeps the number of outputs", length(c), n, S, **kw)
    ck.group("cleared", cleared)


REPORTED = ("globalClusteringRate", "weightedClusteringRate", "f1Score", "meanAbsoluteError", "rootMeanSquaredError",
            "globalClusteringRateMax", "weightedClusteringRateMax", "f1ScoreMax", "meanAbsoluteErrorMin", "rootMeanSquaredErrorMin")


def tup(*xs):
    return lst(*xs)
