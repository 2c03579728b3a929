"""C28: non-finite outputs."""
from ..lib import *
from . import c09, c27
import os


def fast_math(ck):
    """-ffast-math lets the compiler assume that NaN and infinity never occur: the detection must not rest on the
    floating-point classification functions or on self-comparison"""
    flags = ""
    for f in ("CMakeLists.txt",):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            flags += open(p, errors="replace").read()
    fast = any(x in flags for x in ("-ffast-math", "-Ofast", "-ffinite-math-only", "/fp:fast"))
    P = ck.prog
    BAD = {"isnan", "isinf", "isfinite", "fpclassify", "isnormal", "isunordered"}

    def uses(t, seen, out):
        if t in seen:
            return
        seen.add(t)
        if t.op == "call" and str(t.args[0]).split("::")[-1].lstrip("_").replace("builtin_", "") in BAD:
            out.add(str(t.args[0]))
        if t.op == "lt" or t.op in ("eq0", "eqv", "feq"):
            pass
        for c in children(t):
            uses(c, seen, out)

    def one(mode):
        S = ck.summary(P.method(NN, mode), args=[LV("inputs"), sym("reset")])
        out = set()
        uses(S.this["outputNan"], set(), out)
        ck.rule("%s: the detection survives the build's fast floating-point mode (%s)" % (mode, "on" if fast else "off"),
                not (fast and out), "-ffast-math folds %s to a constant" % ", ".join(sorted(out)), S.site)
    for m in ("output", "outputForTraining"):
        ck.group("fast-math " + m, lambda m=m: one(m))


def run(ck):
    P = ck.prog
    c09.passes(ck, special=True)
    fast_math(ck)

    def query():
        S = ck.summary(P.method(NN, "hasNan"), args=[])
        ck.equal("hasNan reports the record", S.ret, THIS["outputNan"], S, types={"this": NN})
    ck.group("hasNan", query)

    def cont():
        S = ck.summary(P.method(SNN, "continueTraining"), args=[LV("wait")], policy=opaque_q("Wait::isOver"))
        ck.equal("training does not continue after a non-finite output", S.ret, FALSE, S, pre=THIS["outputNan"],
                 types={"this": SNN, "wait": "snn::Wait"}, calltypes={"snn::Wait::isOver": "bool"})
    ck.group("continueTraining", cont)

    def ends():
        S, L = c27.train_summary(ck)
        ck.trace("training ends at once on a non-finite output and reports NaN results", S, L.events(), view=c27.view, n=2 * ck.n, **c27.loop_kw())
        for f, v in (("isIdle", TRUE), ("index", ZERO)):
            ck.equal("a training that ended on a non-finite output leaves %s = %s" % (f, show(v)), S.this[f], v, S, **c27.loop_kw())
    ck.group("training", ends)

    def evaluation():
        c27.evaluate(ck)
        S, stop = c27.evaluate_summary(ck)
        kw = c27.loop_kw()
        kw["types"] = dict(kw["types"], wait="snn::Wait *")
        ck.equal("an evaluation that saw a non-finite output leaves the network idle", S.this["isIdle"], TRUE, S, pre=stop, **kw)
    ck.group("evaluation", evaluation)

    def results():
        SA = NS + "StatisticAnalysis"
        S = ck.summary(P.method(SA, "setResultsAsNan"), args=[])
        for f in ("globalClusteringRate", "weightedClusteringRate", "f1Score", "meanAbsoluteError", "rootMeanSquaredError"):
            ck.equal("results are reported as NaN [%s]" % f, S.this[f], sym("NaN"), S, types={"this": SA})
    ck.group("results", results)

    def waiting():
        S = ck.summary(P.method(SNN, "waitFor"), args=[LV("wait")], policy=opaque_q(r"Wait::\w+"))
        over = lambda: mk("boolof", call_("snn::Wait::isOver", S.final("wait"), THIS["epoch"], THIS["globalClusteringRate"], THIS["meanAbsoluteError"]))
        kw = dict(types={"this": SNN, "wait": "snn::Wait"}, calltypes={"snn::Wait::isOver": "bool"})
        v = lambda name, args: ("startClock", []) if name.endswith("startClock") else None
        ck.trace("waiting starts its own clock once", S, [ev_("x::startClock")], view=v, pre=THIS["outputNan"], **kw)
        n = [e for e in S.trace if e.name in ("sleep",) or e.name.endswith("isOver")]
        ck.trace("waiting ends at once after a non-finite output", S, [], view=lambda nm, a: (nm, []) if nm == "sleep" or nm.endswith("isOver") else None,
                 pre=THIS["outputNan"], **kw)
    ck.group("waitFor", waiting)
