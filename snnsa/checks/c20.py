"""C20: best results are tracked exactly; auto-save fires only on a new best."""
from ..lib import *
from . import c19, c27

SA = c19.SA
MAXS = (("GlobalClusteringRate", "globalClusteringRate"), ("WeightedClusteringRate", "weightedClusteringRate"), ("F1Score", "f1Score"))
MINS = (("MeanAbsoluteError", "meanAbsoluteError"), ("RootMeanSquaredError", "rootMeanSquaredError"))
FLAG = "globalClusteringRateIsBetterThanMax"

# few distinct results, so that equal, better and worse ones all occur
COUNT = [(r"this\.numberOfDataWellClassified", lambda e, m: e.rnd("w").randint(0, 2)),
         (r"this\.numberOfDataMisclassified", lambda e, m: e.rnd("m").choice([2, 4]) - e.value("this.numberOfDataWellClassified", "int")),
         (r"this\.clusters\[\d+\]\.total(Squared)?Error", lambda e, m: e.rnd(m.group(0)).choice([0, 1, 2, 4])),
         (r"this\.clusters\[\d+\]\.\w+", lambda e, m: e.rnd(m.group(0)).randint(0, 1)),
         (r"this\.\w+(Max|Min)", lambda e, m: e.rnd(m.group(0)).choice([-1, 0, .25, .5, 1]))]


def run(ck):
    P = ck.prog
    kw = c19.kw_(*COUNT)
    kw["n"] = 4 * ck.n
    G = lambda S, name: ck.summary(P.method(SA, name), store=S.returns.st.store if S is not None else None)

    def best():
        S = ck.summary(P.method(SA, "stopTesting"))
        ck.no_throw("ending an evaluation never fails", S, **kw)
        for get, f in MAXS + MINS:
            new = G(S, "get" + get).ret
            mx = (get, f) in MAXS
            gb = "get" + get + ("Max" if mx else "Min")
            old = G(None, gb).ret
            better = new > old if mx else or_(new < old, old < 0)
            ck.equal("the best %s is the best of all evaluations" % f, G(S, gb).ret, if_(better, new, old), S, **kw)
            flag = f + ("IsBetterThanMax" if mx else "IsBetterThanMin")
            if flag in {x["n"] for x in P.fields(SA)}:
                ck.equal("%s is flagged exactly when it is strictly better than all earlier ones" % f, S.this[flag], better, S, **kw)
    ck.group("stopTesting", best)

    def first():
        I = ck.interp()
        st = State()
        I.default_init(SA, LV("fresh"), st)
        o = I.get(st, LV("fresh"))
        for get, f in MAXS + MINS:
            b = ck.summary(P.method(SA, "get" + get + ("Max" if (get, f) in MAXS else "Min")), this=LV("fresh"), store={"fresh": o}).ret
            ck.equal("before any evaluation the best %s is below every possible result" % f, b < 0, TRUE, site=SA)
    ck.group("construction", first)

    def keep():
        def same(what, S, **k):
            for get, f in MAXS + MINS:
                gb = "get" + get + ("Max" if (get, f) in MAXS else "Min")
                ck.equal("%s leaves the best %s" % (what, f), G(S, gb).ret, G(None, gb).ret, S, **k)
        same("starting an evaluation", ck.summary(P.method(SA, "startTesting")), **kw)
        same("giving up on NaN", ck.summary(P.method(SA, "setResultsAsNan")), **kw)
        for k in c19.KINDS:
            same("evaluating one datum (%s)" % k, ck.summary(P.method(SA, c19.KINDS[k]), args=c19.Datum(k, 0).args()), **kw)
    ck.group("best values only change at the end of an evaluation", keep)

    def autosave():
        post = mk("call", "post:stopTesting", num(0))

        def pol(fn, d, this, args, st, I):
            if fn["q"].endswith("StatisticAnalysis::stopTesting"):
                def run_(I, fn, this, args, e, st):
                    r = I.opaque_call(fn, this, args, e, st)
                    I.set(st, this, setf(I.get(st, this), FLAG, post))
                    return r
                return run_
            if fn["q"].endswith("StatisticAnalysis::startTesting"):
                return "opaque"
            return c27.OPAQUE(fn, d, this, args, st, I)
        S = ck.summary(P.method(SNN, "evaluate", lambda f: nparams(f) == 2), args=[LV("data"), sym("wait")], policy=pol)
        S.I.calltypes["post:stopTesting"] = "bool"
        d = sym("data")
        N = d["sets"][ZERO]["size"]
        stop = vany(N, lambda i: mk("boolof", call_(NN + "::hasNan", with_(THIS, index=i))))
        sp = [ev_("x::stopTesting", guard=not_(stop)),
              ev_("x::saveSync", THIS["autoSaveFilePath"], guard=and_(not_(stop), mk("boolof", THIS["autoSaveWhenBetter"]), mk("boolof", post)))]

        def v(name, args):
            m = name.split("::")[-1]
            if m == "saveSync":
                return m, [args[-1]]
            return ("stopTesting", []) if m == "stopTesting" else None
        k = c27.loop_kw()
        k["types"] = dict(k["types"], wait="snn::Wait *")
        k["calltypes"] = dict(k["calltypes"], **{"post:stopTesting": "bool"})
        k["rules"] = [(r"CALL:snn::internal::NeuralNetwork::hasNan", lambda e, a: e.rnd("n", str(e.freeze(a[0]))).random() < .05)] + k["rules"]
        ck.trace("an evaluation saves once, at its end, to the configured path, exactly when auto-save is on and the accuracy is a new best", S, sp, view=v, n=4 * ck.n, **k)
    ck.group("auto-save", autosave)

    def target():
        S = ck.summary(P.method(SNN, "saveSync"), args=[sym("path")])
        ck.equal("saving remembers the path as the auto-save path", S.this["autoSaveFilePath"], sym("path"), S, types={"this": SNN, "path": "std::string"})
        ck.equal("and changes nothing else", with_(S.this, autoSaveFilePath=THIS["autoSaveFilePath"]), THIS, S, types={"this": SNN, "path": "std::string"})
        from . import c01
        S, evs = c01.save_event(ck)
        if len(evs) != 1:
            raise Skip("%d archive operations" % len(evs))
        ck.equal("the save goes to the path asked for", c01.written(S, c01.stream_of(evs[0].args[2])[1]), sym("path"), S, types={"this": SNN, "path": "std::string"})
        ck.equal("the save is unconditional", evs[0].guard, TRUE, S, types={"this": SNN, "path": "std::string"})
    ck.group("saveSync", target)
