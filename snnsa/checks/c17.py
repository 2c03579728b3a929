"""C17: shuffling permutes the training data and keeps temporal order."""
from ..data import *


class Order:
    """the order in which a data set is presented, observed through its public accessors"""

    def __init__(self, d):
        self.d = d
        self.X, self.n = d.given("training"), length(d.labels("training"))
        self.x = d.at("getTrainingData", 1)
        self.first = d.at("isFirstTrainingDataOfTemporalSequence")
        self.need = d.at("needToLearnOnTrainingData")

    def shows(self, i, p):
        return same_vec(self.x(i), self.X[p])

    def starts(self):
        """is given datum p the first of its sequence"""
        d = self.d
        s = sym("ti")

        def before(j):
            return vsum(j, lambda q: length(s[q]))
        return lambda p: vany(length(s), lambda j: eq_(before(j), p)) if d.rank == 3 else eq_(p, 0)


def run(ck):
    shuffles = (0, 1, 2, 3) if ck.tier == "quick" else (0, 1, 2, 3, 4, 5, 6)

    def one(d, nm, k):
        O = Order(d)
        n = O.n
        kw = dict(types=d.types, rules=d.rules(max_n=8), pre=d.ok)
        site = d.call("shuffle")
        ck.equal("%s: every datum is presented exactly once" % nm, vall(n, lambda p: vany(n, lambda i: O.shows(i, p))), TRUE, site, **kw)
        ck.equal("%s: shuffling never fails" % nm, site.throw_cond, FALSE, site, **kw)

        def follows(i):
            """position i presents what comes right after position i - 1"""
            return vany(n - 1, lambda p: and_(O.shows(i - 1, p), O.shows(i, p + 1)))
        if d.nature == "sequential":
            st = O.starts()
            ck.equal("%s: sequences stay whole and in time order" % nm,
                     vall(n - 1, lambda i: or_(vany(n, lambda p: and_(st(p), O.shows(i + 1, p))), follows(i + 1))), TRUE, site, **kw)
        if d.nature == "timeSeries":
            ck.equal("%s: within a window the data are in time order" % nm,
                     vall(n - 1, lambda i: or_(mk("boolof", O.first(i + 1)), follows(i + 1))), TRUE, site, **kw)
        U = d.after("unshuffle")
        u = Order(U)
        us = d.call("unshuffle")
        ck.equal("%s: undoing the shuffle restores the original order" % nm, vall(n, lambda i: u.shows(i, i)), TRUE, us, **kw)
        if k:
            V = U.after("shuffle")
            v = Order(V)
            ck.equal("%s, undone and shuffled again: every datum is presented exactly once" % nm,
                     vall(n, lambda p: vany(n, lambda i: v.shows(i, p))), TRUE, site, **kw)
        if d.nature != "nonTemporal":
            f = d.at("isFirstTestingDataOfTemporalSequence")
            del f
        t0, t1 = d.at("getTestingData"), U.at("getTestingData")
        m = length(d.labels("testing"))
        ck.equal("%s: testing data are never shuffled" % nm, vall(m, lambda i: and_(same_vec(t0(i), d.given("testing")[i]), same_vec(t1(i), d.given("testing")[i]))), TRUE, site, **kw)
    datasets(ck, one, problems=("regression",), shuffles=shuffles)
    # the order does not depend on the kind of problem
    datasets(ck, one, problems=("classification", "multipleClassification"), shuffles=(2,))
    learning(ck)


def learning(ck):
    """no operation other than shuffle and unshuffle changes the order"""
    def one(d, nm, k):
        d1 = d.after("shuffle")
        base = Order(d1)
        kw = dict(types=dict(d.types, i="int", b="int"), rules=d.rules() + [(r"i", lambda e, m: e.rnd("i").choice([0, 0, 1])), (r"b", lambda e, m: e.rnd("b").choice([1, 1, 2]))],
                  pre=and_(d.ok, sym("i") + sym("b") <= base.n))
        S = d1.call("getTrainingData", sym("i"), sym("b"))
        for f, *a in (("getTrainingData", sym("i"), sym("b")), ("getTrainingOutputs", sym("i"), sym("b")), ("isValid",)):
            S = d1.call(f, *a)
            if S.returns is None:
                continue
            o = Order(DataSet(ck, d.rank, d.both, d.problem, d.nature, (d.made, d.ok, dict(S.returns.st.store), S.I)))
            for what in ("x", "first", "need"):
                j = sym("j")
                ck.equal("%s: %s leaves the order (%s)" % (nm, f, what), getattr(o, what)(j), getattr(base, what)(j), S,
                         **dict(kw, types=dict(kw["types"], j="int"), rules=kw["rules"] + [(r"j", 0)]))
    datasets(ck, one, problems=("regression",))
