"""C03: equality compares everything that decides behaviour."""
from ..lib import *
from . import c01, c02

# members equality may, but need not look at, and why
NEUTRAL = {
    SNN: {"thread": "handle of the training thread"},
    NN: {"outputNan": "record of a non-finite output", "numberOfTraining": "counter"},
    NS + "LayerOptimizer": {"layer": "back-reference, necessarily another object"},
    NS + "Dropout": {"presenceProbabilities": "mask of the last forward pass", "dist": "stateless distribution"},
    NS + "Neuron": {"outputFunction": "determined by activationFunction"},
    NS + "GatedRecurrentUnit": {"errors": "scratch"},
    NS + "MaxPooling1D": {"maxValueIndexes": "scratch of the last forward pass"},
    NS + "MaxPooling2D": {"maxValueIndexes": "scratch of the last forward pass"},
    NS + "StatisticAnalysis": {"clusters": "evaluation counters in progress"},
}
OWNED = re.compile(r"(?:std::)?(?:unique_ptr|shared_ptr)<(?:const )?(snn::internal::\w+)")


def members(P, cls):
    """(class, member, type, decides)"""
    out = []
    for q in P.bases(cls):
        if q in P.recs:
            k = c01.known_fields(P, q)
            for f in P.fields(q, False):
                if f["n"] in k:
                    stat = q == NS + "StatisticAnalysis" and cls != q  # results of evaluations are not part of a network's identity
                    out.append((q, f["n"], f["t"], f["n"] not in NEUTRAL.get(q, {}) and not stat))
    return out


def same(P, t, a, b):
    m = re.match(r"(?:std::)?vector<(.*)>$", t)
    if m:
        et = m.group(1)
        if OWNED.match(et) or et in P.recs:
            n = length(a)
            return and_(eq_(n, length(b)), vall(n, lambda i: same(P, et, a[i], b[i])))
        return mk("eqv", a, b)
    m = OWNED.match(t)
    if m:
        return mk("boolof", call_(m.group(1) + "::operator==", deref(a), deref(b)))
    if t in P.recs and t.startswith("snn::"):
        return and_(*[same(P, ft, a[f], b[f]) for q, f, ft, d in members(P, t) if d])
    return mk("eqv", a, b)


def content(e, args):
    """equality of two objects reached through pointers: those of corresponding places may be equal, others are not"""
    x, y = [e.freeze(a) for a in args]
    if x == y:
        return True
    k = re.sub(r"\bother\b", "this", x)
    return k == re.sub(r"\bother\b", "this", y) and e.rnd("content", k).random() < .6


def differs(e, args):
    return not content(e, args)


def kw_(P, cls, f):
    """two objects that differ at most in member f (None: in nothing, '*': anywhere)"""
    neutral = "optimizer|" + "|".join(sorted({n for q in NEUTRAL for n in NEUTRAL[q] if n != "layer"} - {"errors", "presenceProbabilities", "clusters"}))

    decisive = {n for q, n, t, d in members(P, cls) if d}

    def free(p):
        m = re.match(r"other\.(\w+)", p)
        return bool(m) and (m.group(1) in decisive if f == "*" else m.group(1) == f)

    def mirror(e, m):
        p = m.group(0)
        src = "this" + p[5:]
        if not free(p) or re.fullmatch(r".*\.(%s)" % neutral, p):
            return pit.Mirror(src)
        if re.search(r"\]\.errors", p) and "Gru" in cls:
            return pit.Mirror(src)
        if e.rnd("keep", p).random() < (.8 if f != "*" else .97):
            return pit.Mirror(src)
        return pit.PASS

    deep = r"other\.(?!(?:optimizer|layers\[\d+\]|optimizers\[\d+\])$).*"
    rules = [(r"CALL:.*::operator==", content), (r"CALL:.*::operator!=", differs), (r"CALL:hash_code", lambda e, a: "hash of " + e.freeze(a)), (deep, mirror)]
    return dict(types={"this": cls, "other": cls}, rules=rules)


def equality(ck, P, cls, others):
    name = cls.split("::")[-1]

    def op(o):
        return P.method(cls, "operator" + o, lambda f: nparams(f) == 1)

    def go():
        E = ck.summary(op("=="), args=[LV("other")], cls=cls, dyn={"other": cls})
        N = ck.summary(op("!="), args=[LV("other")], cls=cls, dyn={"other": cls})
        a, b = THIS, sym("other")
        want = and_(*[same(P, t, a[f], b[f]) for q, f, t, d in members(P, cls) if d])
        kw = kw_(P, cls, "*")
        ck.equal("%s: comparing is safe" % name, E.throw_cond, FALSE, E, **kw)
        ck.equal("%s: equal exactly when everything that decides behaviour is equal" % name, E.ret, want, E, **kw)
        ck.equal("%s: != is the negation of ==" % name, N.ret, not_(want), N, **kw)
        for q, f, t, d in members(P, cls):
            if d:
                ck.equal("%s: two that differ at most in %s are equal exactly when it is equal" % (name, f), E.ret, want, E, **kw_(P, cls, f))
        for what, S in (("==", E), ("!=", N)):
            ck.frame("%s: %s changes nothing" % (name, what), S, {}, **kw)
        for o in others:
            if o == cls:
                continue
            for w, v in (("==", FALSE), ("!=", TRUE)):
                S = ck.summary(op(w), args=[LV("other")], cls=cls, dyn={"other": o})
                k = dict(kw_(P, o, None), types={"this": cls, "other": o})
                ck.equal("%s and %s are %sequal (%s)" % (name, o.split("::")[-1], "never " if w == "==" else "always un", w), S.ret, v, S, **k)
                ck.equal("%s and %s: comparing is safe (%s)" % (name, o.split("::")[-1], w), S.throw_cond, FALSE, S, **k)
    ck.group(cls, go)


def run(ck):
    P = ck.prog
    for fam in (c02.clones(P, NS + "BaseLayer"), c02.clones(P, NS + "LayerOptimizer"), c02.clones(P, NS + "NeuralNetworkOptimizer"),
                [NS + "SimpleNeuron"], [NS + "RecurrentNeuron"], [NS + "GatedRecurrentUnit"], [NS + "CircularData"],
                [NS + "StatisticAnalysis"], [SNN]):
        for c in fam:
            equality(ck, P, c, fam)
