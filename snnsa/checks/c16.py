"""C16: inputs keep their own labels under shuffling and batching."""
from ..data import *


def run(ck):
    shuffles = (0, 1, 2, 3) if ck.tier == "quick" else (0, 1, 2, 3, 4, 5)

    def own(p, x, i, L):
        """position i presents datum p of the training set"""
        return same_vec(x(i), L[p])

    def one(d, nm, k):
        kw = dict(types=d.types, rules=d.rules(), pre=d.ok)
        X, L, O = d.given("training"), d.labels("training"), length(d.labels("training"))
        x, y = d.at("getTrainingData", 1), d.at("getTrainingOutputs", 1)
        site = d.call("getTrainingOutputs", sym("i"), num(1))

        def pair(i, f):
            return vany(O, lambda p: and_(same_vec(x(i), X[p]), f(p)))
        ck.equal("%s: every position presents a datum with its own expected outputs" % nm, vall(O, lambda i: pair(i, lambda p: same_vec(y(i), L[p]))), TRUE, site, **kw)
        if d.problem == "classification":
            lab = d.at("getTrainingLabel")
            ck.equal("%s: every position presents a datum with its own label" % nm,
                     vall(O, lambda i: pair(i, lambda p: and_(lab(i) >= 0, lab(i) < length(L[p]), eq_(L[p][lab(i)], 1)))), TRUE, site, **kw)

        # a batch
        b = sym("b")
        bk = dict(kw, types=dict(d.types, b="int"), pre=and_(d.ok, b >= 1, b <= O),
                  rules=d.rules() + [(r"b", lambda e, m: e.rnd("b").choice([1, 2, 2, 3, 3, 4, 5]))])
        bx, by = d.at("getTrainingData", b), d.at("getTrainingOutputs", b)

        def mean(v, i):
            return lambda c: rdiv(vsum(b, lambda j: v(i + j)[c]), b)

        def averaged(bv, v, w):
            return vall(O - b + 1, lambda i: and_(eq_(length(bv(i)), w), vall(w, lambda c: eq_(bv(i)[c], mean(v, i)(c)))))
        if d.nature == "nonTemporal":
            ck.equal("%s: the inputs of a batch are the average of its consecutive positions" % nm, averaged(bx, x, length(X[0])), TRUE, d.call("getTrainingData", sym("i"), b), **bk)
            ck.equal("%s: the outputs of a batch are the average of the same positions" % nm, averaged(by, y, length(L[0])), TRUE, site, **bk)
            # the two are handed over together (in either order)
            for first, second in (("Data", "Outputs"), ("Outputs", "Data")):
                S1 = d.call("getTraining" + first, sym("i"), b)
                d1 = DataSet(ck, d.rank, d.both, d.problem, d.nature, (d.made, d.ok, dict(S1.returns.st.store), S1.I))
                S2 = d1.call("getTraining" + second, sym("i"), b)
                i = sym("i")
                ik = dict(bk, types=dict(bk["types"], i="int"), pre=and_(bk["pre"], i >= 0, i + b <= O),
                          rules=bk["rules"] + [(r"i", lambda e, m: e.rnd("i").choice([0, 0, 1, 1, 2, 3]))])
                v1, v2 = (bx(i), by(i)) if first == "Data" else (by(i), bx(i))
                ck.equal("%s: asking for the %s of a batch leaves its %s" % (nm, second.lower(), first.lower()), d.read(S1, S2), v1, S1, **ik)
                ck.equal("%s: asking for the %s of a batch first does not change its %s" % (nm, first.lower(), second.lower()), d.read(S2, S2), v2, S2, **ik)
        # testing data
        XE, LE = d.given("testing"), d.labels("testing")
        n = length(LE)
        te = d.at("getTestingData")
        ck.equal("%s: testing data are presented in their original order" % nm, vall(n, lambda i: same_vec(te(i), XE[i])), TRUE, d.call("getTestingData", sym("i")), **kw)
        if d.problem == "classification":
            S = d.call("getTestingLabel", sym("i"))
            lab = d.at("getTestingLabel")
            ck.equal("%s: testing data keep their own labels" % nm, vall(n, lambda i: and_(lab(i) >= 0, lab(i) < length(LE[i]), eq_(LE[i][lab(i)], 1))), TRUE, S, **kw)
        else:
            ye = d.at("getTestingOutputs")
            ck.equal("%s: testing data keep their own expected outputs" % nm, vall(n, lambda i: same_vec(ye(i), LE[i])), TRUE, d.call("getTestingOutputs", sym("i")), **kw)
        # access by set
        tr, ts = num(enum_value(ck.prog, "snn::set", "training")), num(enum_value(ck.prog, "snn::set", "testing"))
        for which, s, n_ in (("Training", tr, O), ("Testing", ts, n)):
            for what in ("Data", "Outputs", "Label"):
                if (what == "Outputs" and d.problem == "classification" and which == "Testing") or (what == "Label" and d.problem != "classification"):
                    continue
                f = "getTraining" if which == "Training" else "getTesting"
                more = [ONE] if which == "Training" and what != "Label" else []
                g = d.get("get" + what, s, sym("i"))
                a, bb = (lambda i: subst(g, {sym("i"): t_(i)})), d.at(f + what, *more)
                ck.equal("%s: get%s of the %s set" % (nm, what, which.lower()), vall(n_, lambda i: eq_(a(i), bb(i)) if what == "Label" else same_vec(a(i), bb(i))), TRUE,
                         d.call("get" + what, s, sym("i")), **kw)
    datasets(ck, one, shuffles=shuffles)
