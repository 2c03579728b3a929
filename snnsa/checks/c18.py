"""C18: normalisation is linear and spans the requested range; nothing else alters the data."""
from ..data import *
from . import c02, c27

RESULT = ("inputs", "labels")


def run(ck):
    P = ck.prog
    lo, hi = sym("min"), sym("max")

    def extremum(X, n, c, better):
        return vfold(n, [X[ZERO][c]], lambda i, acc: if_(better(X[i][c], acc), X[i][c], acc))

    def one(d, nm, k):
        TX, EX = d.given("training"), d.given("testing")
        n, m, w = length(d.labels("training")), length(d.labels("testing")), length(TX[0])
        S = d.call("normalize", lo, hi)

        def spread(e, m_):
            """values such that no column is constant"""
            ix = [int(x) for x in re.findall(r"\d+", m_.group(0))]
            r = e.rnd(m_.group(0))
            first = not any(ix[:-1]) and m_.group(1) == "ti"
            return 0 if first else Fraction(r.choice([-9, -7, -4, -1, 1, 3, 5, 8, 13]), 4)
        rules = [(r"(ti|ei)" + d.rank * r"\[\d+\]", spread)] + d.rules(min_n=2, max_n=5) + \
            [(r"min", lambda e, m_: e.rnd("lo").choice([-1, 0, 0, Fraction(-1, 2), 2])), (r"max", lambda e, m_: e.rnd("hi").choice([1, 1, Fraction(1, 2), 3, 0]))]
        types = dict(d.types, min="float", max="float", i="int", c="int")
        kw = dict(types=types, rules=rules, pre=and_(d.ok, length(d.labels("training")) > 1))
        ck.equal("%s: normalising never fails" % nm, S.throw_cond, FALSE, S, **kw)
        if S.returns is None:
            return
        N = DataSet(ck, d.rank, d.both, d.problem, d.nature, (d.made, d.ok, dict(S.returns.st.store), S.I))

        def linear(X):
            """column c of a datum x after normalisation"""
            def f(x):
                def g(c):
                    mn = extremum(TX, n, c, lambda a, b: a < b)
                    mx = extremum(TX, n, c, lambda a, b: a > b)
                    return (x[c] - mn) / (mx - mn) * (hi - lo) + lo
                return vmap(w, g)
            return f
        lin = linear(TX)
        for what, acc, count, more in (("training", "getTrainingData", n, (1,)), ("testing", "getTestingData", m, ())):
            before, after = d.at(acc, *more), N.at(acc, *more)
            ck.equal("%s: normalisation maps every %s input linearly to the requested range, column by column" % (nm, what),
                     vall(count, lambda i: same_vec(after(i), lin(before(i)))), TRUE, S, **kw)
        constant(d, nm, S, N, kw, n, m, w)
        acc = {"isFirstTrainingDataOfTemporalSequence": n, "needToLearnOnTrainingData": n, "isFirstTestingDataOfTemporalSequence": m, "needToEvaluateOnTestingData": m}
        for f, c in acc.items():
            a, b = d.at(f), N.at(f)
            ck.equal("%s: normalisation leaves %s" % (nm, f), vall(c, lambda i: eq_(mk("boolof", a(i)), mk("boolof", b(i)))), TRUE, S, **kw)
        for f, c, more in (("getTrainingOutputs", n, (1,)),) + ((("getTestingOutputs", m, ()),) if d.problem != "classification" else ()):
            a, b = d.at(f, *more), N.at(f, *more)
            ck.equal("%s: normalisation leaves %s" % (nm, f), vall(c, lambda i: same_vec(a(i), b(i))), TRUE, S, **kw)

    def constant(d, nm, S, N, kw, n, m, w):
        """a constant column is still mapped by one and the same linear function in both sets"""
        TX = d.given("training")
        ta, tb = d.at("getTrainingData", 1), N.at("getTrainingData", 1)
        ea, eb = d.at("getTestingData"), N.at("getTestingData")
        rules = [(r"(ti|ei)" + d.rank * r"\[\d+\]", lambda e, m_: e.rnd(m_.group(0) if m_.group(1) == "ei" else "col" + m_.group(0)[-3:]).choice([-2, -1, 1, 2, 3]))] + kw["rules"][1:]
        ck.equal("%s: equal inputs of a constant column stay equal" % nm,
                 vall(w, lambda c: and_(vall(n, lambda i: eq_(tb(i)[c], tb(ZERO)[c])), vall(m, lambda j: or_(not_(eq_(ea(j)[c], ta(ZERO)[c])), eq_(eb(j)[c], tb(ZERO)[c]))))),
                 TRUE, S, types=kw["types"], rules=rules, pre=kw["pre"])
    datasets(ck, one, problems=("regression",), shuffles=(0, 2))
    datasets(ck, one, problems=("classification", "multipleClassification"))

    # everything but normalisation leaves the stored inputs and labels
    def stored(d, nm, k):
        base = d.after("shuffle")
        kw = dict(types=dict(d.types, i="int", b="int", v="float", set="snn::set"), rules=d.rules() + [(r"i", lambda e, m: e.rnd("i").choice([0, 0, 1])), (r"b", lambda e, m: e.rnd("b").choice([1, 2]))],
                  pre=and_(d.ok, sym("i") + sym("b") <= length(d.labels("training"))))
        this = lambda st: st["this"]
        for mth in P.recs[DATA]["methods"]:
            name = mth["n"]
            if mth["acc"] or mth.get("implicit") or name in ("normalize", "Data", "~Data") or name.startswith("operator"):
                continue
            for f in [x for x in P.byq.get(mth["q"], []) if len(x["params"]) == len(mth["pt"])]:
                pick = {"int": [sym("i"), sym("b")], "float": [sym("v")] * 2, "set": [ONE]}
                args = []
                for p in f["params"]:
                    t = p["t"].replace("const ", "").split("::")[-1]
                    if t not in pick:
                        raise Skip("parameter %s of %s" % (p["t"], name))
                    args.append(pick[t][0 if t != "int" else min(1, len([a for a in args if a is sym("i")]))])
                S = ck.summary(f, args=args, store=dict(base.store), dyn=dict(base.I.dyn), cls=DATA)
                if S.out() is None:
                    continue
                for st, q in ((0, "testing"), (1, "training")):
                    for fld_ in RESULT:
                        a, b = this(S.returns.st.store)["sets"][num(st)][fld_], this(base.store)["sets"][num(st)][fld_]
                        ck.equal("%s: %s leaves the stored %s %s" % (nm, name, q, fld_), a, b, S, **kw)
    datasets(ck, stored, problems=("regression", "classification"))

    def training():
        pol = c27.OPAQUE
        for f, args in (("trainSync", [LV("data"), LV("wait"), sym("batchSize"), sym("freq")]), ("evaluate", [LV("data"), sym("wait")]), ("evaluateOnce", [LV("data")])):
            S = ck.summary(P.method(SNN, f, lambda x: nparams(x) == len(args)), args=args, policy=pol)
            kw = c27.loop_kw()
            got = S.returns.st.store.get("data", sym("data"))
            ck.equal("%s writes nothing into the data set" % f, got, sym("data"), S, **kw)
            bad = [e for e in S.returns.st.trace if e.name.startswith(DATA + "::") and e.name.split("::")[-1] in ("normalize",)]
            ck.rule("%s never normalises" % f, not bad, "%d calls that normalise" % len(bad), S.site)
    ck.group("training and evaluation", training)

    def network():
        for name, args in (("trainOnce", [LV("inputs"), LV("desired"), sym("reset")]), ("outputForTraining", [LV("inputs"), sym("reset")]), ("output", [LV("inputs"), sym("reset")])):
            f = P.method(NN, name)
            S = ck.summary(f, args=args)
            for r in ("inputs", "desired"):
                ck.equal("%s leaves the %s it is given" % (name, r), S.returns.st.store.get(r, sym(r)), sym(r), S, types={"this": NN, "inputs": "std::vector<float>", "desired": "std::vector<float>", "reset": "bool"})
        for c in c02.clones(P, NS + "BaseLayer"):
            n = c.split("::")[-1]
            for name in ("output", "outputForTraining"):
                S = ck.summary(P.method(c, name), args=[LV("inputs"), sym("reset")], cls=c, policy=opaque_q(r"\w*(Neuron|Unit)::output", r"LayerOptimizer::apply\w+"))
                ck.equal("%s::%s leaves the inputs it is given" % (n, name), S.returns.st.store.get("inputs", sym("inputs")), sym("inputs"), S,
                         types={"this": c, "inputs": "std::vector<float>", "reset": "bool"})
    ck.group("network", network)
