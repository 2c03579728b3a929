"""C05: dropout."""
from ..lib import *
from fractions import Fraction
from . import c26

C = NS + "Dropout"
EPS = Fraction(1, 64)


def run(ck):
    P = ck.prog
    v, rate = sym("outputs"), THIS["value"]
    mask = THIS["presenceProbabilities"]
    regen = or_(sym("reset"), not_(eq_(length(mask), length(v))))

    def draw(e, args):
        # a uniform draw of [0,1): just below or just above the rate
        if "uniform_real_distribution" not in str(e.freeze(args[0])) and "dist" not in str(e.freeze(args[0])):
            raise pit.Undecidable("unknown distribution")
        rate = e.value("this.value", "float")
        return rate + EPS if e.value("drawKeeps", "bool") else rate - EPS
    rules = [(r"this\.value", lambda e, m: Fraction(e.rnd("rate").randint(3, 29), 32)),
             (r"this\.reverseValue", lambda e, m: 1 - e.value("this.value", "float")),
             (r"outputs", lambda e, m: e.size("n", 1, 5)),
             (r"errors", lambda e, m: len(e.value("this.presenceProbabilities", "std::vector<bool>"))),
             (r"this\.presenceProbabilities", lambda e, m: e.size("n", 1, 5) if e.rnd("same").random() < .6 else e.size("k", 1, 5)),
             (r"this\.dist", lambda e, m: "dist"),
             (r"CALL:random", draw)]
    kw = dict(types={"this": C, "outputs": "std::vector<float>", "errors": "std::vector<float>", "reset": "bool", "drawKeeps": "bool"}, rules=rules)
    b2f = lambda x: if_(x, 1, 0)

    def training():
        S = ck.summary(P.method(C, "applyAfterOutputForTraining"), args=[LV("outputs"), sym("reset")])
        newmask = if_(regen, vmap(length(v), lambda i: sym("drawKeeps")), mask)
        ck.equal("training: the mask is redrawn exactly on a new sequence or a new size, element kept iff draw >= rate",
                 S.this["presenceProbabilities"], newmask, S, **kw)
        got = S.this["presenceProbabilities"]
        ck.equal("training: each output is kept or zeroed by the mask", S.final("outputs"), vmap(length(v), lambda i: v[i] * b2f(got[i])), S, **kw)
        ck.frame("training: nothing else changes", S, {"outputs": S.final("outputs"), "this": with_(THIS, presenceProbabilities=got)},
                 transient={"this": ["dist"]}, **kw)
        n = sym("n")
        ck.trace("training: one independent draw per output, none otherwise", S,
                 [e for e in loop_(if_(regen, length(v), ZERO), lambda i: [ev_("random", "")])],
                 view=lambda nm, a: (nm, []) if nm == "random" else None, **kw)
    ck.group("training", training)

    def testing():
        S = ck.summary(P.method(C, "applyAfterOutputForTesting"), args=[LV("outputs")])
        ck.frame("inference: every output scaled by one minus the rate, nothing else changes", S,
                 {"outputs": vmap(length(v), lambda i: v[i] * (1 - rate))}, **kw)
        ck.trace("inference draws nothing", S, [], view=lambda nm, a: (nm, []) if nm == "random" else None, **kw)
    ck.group("inference", testing)

    def backward():
        e = sym("errors")
        S = ck.summary(P.method(C, "applyBeforeBackpropagation"), args=[LV("errors")])
        ck.frame("errors are masked by the same mask", S, {"errors": vmap(length(e), lambda i: e[i] * b2f(mask[i]))}, **kw)
    ck.group("backward", backward)

    def dist(S, what):
        d = S.this["dist"]
        if d is sym("other")["dist"]:
            ok = True
        elif str(d.op).startswith(("ctor", "call")) or "uniform" in show(d):
            a = [x for x in d.args if isinstance(x, T)]
            ok = (not a or [show(x) for x in a] == ["0", "1"]) if "uniform_real_distribution" in show(d) else None
        else:
            ok = None
        ck.rule("a %s dropout draws uniformly from [0,1)" % what, ok, show(d), S.site)
    def ctor():
        f = P.find(C + "::Dropout", lambda f: nparams(f) == 2 and "float" in f["params"][0]["t"])
        S = ck.summary(f, args=[sym("value"), sym("layer")], cls=C, store={"this": mk("undef", C)}, policy=opaque_q("BaseLayer::getNumberOfNeurons"))
        k2 = dict(types={"value": "float", "layer": NS + "BaseLayer *"})
        ck.equal("a new dropout keeps its rate", S.this["value"], sym("value"), S, **k2)
        ck.equal("a new dropout scales by one minus its rate", S.this["reverseValue"], 1 - sym("value"), S, **k2)
        dist(S, "new")
    ck.group("construction", ctor)

    def copy():
        f = P.find(C + "::Dropout", lambda f: nparams(f) == 2 and "float" not in f["params"][0]["t"])
        S = ck.summary(f, args=[LV("other"), sym("layer")], cls=C, store={"this": mk("undef", C)})
        o = sym("other")
        for x in ("value", "reverseValue", "presenceProbabilities"):
            ck.equal("a copied dropout keeps its %s" % x, S.this[x], o[x], S, types={"other": C})
        dist(S, "copied")
    ck.group("copy", copy)

    # training mode and inference mode are selected by the pipeline
    c26.pipeline(ck, ("output", "outputForTraining", "backOutput", "train"), kinds=["SimpleNeuron", "RecurrentNeuron"])
