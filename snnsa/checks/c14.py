"""C14: impossible architectures are rejected at construction, possible ones are built as declared."""
from ..layers import *
from .c13 import assemble, inner_build, FLAT, NEURON

LIMIT = 2073600  # 1920 * 1080: larger inputs are refused
ROOM = 900000  # up to here every size is accepted; in between nothing is promised
MANY = 1000000  # largest number of neurons of a layer


def input_model(ck, shape):
    fs = ck.prog.byq.get("snn::Input", [])
    f = [f for f in fs if len(f["params"]) == len(shape)]
    if f:
        return ck.summary(f[0], this=None, args=list(shape)).ret
    m = ck.summary(ck.prog.find("snn::Input", lambda f: len(f["params"]) == 1), this=None, args=[X_]).ret
    return with_(m, shapeOfInput=lst(*shape))


def construct(ck, models, lr=None, mom=None):
    """the public constructor of a network, down to the validity of every layer (not of the drawn weights)"""
    P = ck.prog

    def pol(fn, d, this, args, st, I):
        if re.fullmatch(r".*tools::random\w*", fn["q"]):
            return "opaque"
        if fn["n"] == "isValid" and re.fullmatch(NS + r"(\w*Neuron|GatedRecurrentUnit)::isValid", fn["q"]):
            return "opaque"
    opt = ck.summary("snn::StochasticGradientDescent", this=None, args=[sym("lr"), sym("mom")]).ret
    c = P.find(SNN + "::StraightforwardNeuralNetwork", lambda f: len(f["params"]) == 2 and "vector" in f["params"][0]["t"])
    return ck.summary(c, args=[lst(*models), opt], cls=SNN, policy=pol)


def spec_reject(kind, shape):
    """what makes a network of one input and one layer impossible"""
    bad = [or_(*[x < 1 for x in shape]) if shape else TRUE]
    if shape:
        bad.append(mul(*shape, ONE) > LIMIT)
    if kind in FLAT:
        bad += [N_ < 1, N_ > MANY]
    else:
        bad.append(K_ < 1)
        bad += [K_ > x for x in (shape[1:] if len(shape) > 1 else shape)]
        if kind != "maxPooling":
            bad.append(F_ < 1)
        if len(shape) > 3:
            return TRUE
    return or_(*bad)


def kw_of(shape, kind, mode):
    ints = {"types": {"X": "int", "Y": "int", "C": "int", "W": "int", "K": "int", "F": "int", "N": "int", "lr": "float", "mom": "float", "act": "int"}}
    small = [1, 1, 2, 3, 4, 5]
    names = [str(s.args[0]) for s in shape]

    def dim(name):
        def f(e, m):
            r = e.rnd(name)
            if mode == "big":
                # one large dimension; the others are small
                if e.rnd("who").choice(names) == name:
                    return e.rnd("much").choice([1000, 5000, ROOM // 4, LIMIT + 1, LIMIT, 65537 * 65537 + 7, 3 * LIMIT])
                return r.choice([1, 1, 1, 2])
            return r.choice(small + ([-2, -1, 0] if r.random() < .4 else []))
        return f

    def kernel(e, m):
        r = e.rnd("K")
        sp = [e.value(n, "int") for n in (names[1:] if len(names) > 1 else names)]
        if mode == "big":
            return min(sp)
        return r.choice([1, 1, 2, 2, 3, 4, 5, 6, 0, -1] + [min(sp), min(sp) + 1])
    rules = [(n, dim(n)) for n in names] + [
        (r"K", kernel), (r"F", lambda e, m: 1 if mode == "big" else e.rnd("F").choice([1, 1, 2, 3, 0, -1])),
        (r"N", lambda e, m: 1 if mode == "big" else e.rnd("N").choice([1, 1, 2, 3, 4, 0, -1, -2])),
        (r"act", lambda e, m: e.rnd("act").randint(0, 6)), (r"lr", lambda e, m: e.rnd("lr").choice([0.01, 0.5])),
        (r"mom", lambda e, m: e.rnd("mom").choice([0, 0.9, 1]))]
    rules += [(r"CALL:snn::internal::(?:\w*Neuron|GatedRecurrentUnit)::isValid", lambda e, a: 0)]
    return dict(ints, rules=rules, calltypes={"out0:" + NS + "tools::random": "float"})


def run(ck):
    P = ck.prog
    W_ = sym("W")

    def kind_rank(kind, shape):
        nm = "%s on a %dD input" % (kind, len(shape))
        S = construct(ck, [input_model(ck, shape), declared(ck, kind).ret])
        spec = spec_reject(kind, shape)
        ck.equal("%s: rejected exactly when impossible" % nm, S.throw_cond, spec, S, **kw_of(shape, kind, "small"))
        if shape and len(shape) < 4:
            p = mul(*shape, ONE)
            ck.equal("%s: too large inputs are rejected" % nm, S.throw_cond, spec, S, **dict(kw_of(shape, kind, "big"), pre=or_(p < ROOM, p > LIMIT)))

    for kind in DECL:
        for shape in ((), (X_,), (C_, X_), (C_, X_, Y_), (C_, X_, Y_, W_)):
            ck.group("%s %d" % (kind, len(shape)), lambda: kind_rank(kind, shape))

    def many():
        for kind in FLAT:
            S = construct(ck, [input_model(ck, (X_,)), declared(ck, kind).ret])
            kw = kw_of((X_,), kind, "small")
            kw["rules"] = [(r"N", MANY + 1), (r"X", 1)] + list(kw["rules"])
            ck.equal("%s: a layer of more than %d neurons is rejected" % (kind, MANY), S.throw_cond, TRUE, S, **dict(kw, n=8))
    ck.group("many", many)

    # the number of layers and the position of the input
    def order():
        f = P.find(SNN + "::StraightforwardNeuralNetwork", lambda f: len(f["params"]) == 2 and "vector" in f["params"][0]["t"])

        def pol(fn, d, this, args, st, I):
            if inner_build(fn) or fn["q"].startswith(BL) or fn["q"] == NS + "NeuralNetworkOptimizerFactory::build":
                return "opaque"
            if fn["n"] == "isValid" and "Optimizer" in fn["q"]:
                return "opaque"
        S = ck.summary(f, args=[LV("models"), sym("om")], cls=SNN, policy=pol)
        _, kw = assemble(ck)
        ms = sym("models")
        ty = {k: num(enum_value(P, "snn::layerType", k)) for k in ("input",)}
        n = length(ms)
        first = ms[0]
        sizes = first["shapeOfInput"]
        bad = or_(n > 1000, n < 2, not_(eq_(first["type"], ty["input"])), vany(length(sizes), lambda i: sizes[i] < 1),
                  vfold(length(sizes), [ONE], lambda j, p: p * sizes[j]) > LIMIT)
        rules = [(r"models", lambda e, m: e.rnd("n").choice([0, 1, 2, 3, 4, 1000, 1002, 1500])),
                 (r"models\[0\]\.type", lambda e, m: e.rnd("t").choice([0, 0, 0, 1, 2, 3, 4, 5, 6])),
                 (r"models\[0\]\.shapeOfInput", lambda e, m: e.rnd("rank").randint(1, 4)),
                 (r"models\[\d+\]\.shapeOfInput\[\d+\]", lambda e, m: e.rnd(m.group(0)).choice([1, 1, 2, 3, 10, 30, 0, 500, -1, -3])),
                 (r"CALL:.*BaseLayer::getNumberOfInputs", lambda e, a: e.ev(vfold(length(sizes), [ONE], lambda j, p: p * sizes[j]))),
                 (r"CALL:.*::isValid", lambda e, a: 0)]
        kw["types"] = dict(kw["types"], om="snn::NeuralNetworkOptimizerModel")
        kw["calltypes"] = dict(kw["calltypes"], **{BL + "isValid": "int", NS + "NeuralNetworkOptimizer::isValid": "int", BL + "getNumberOfInputs": "int"})
        ck.equal("an architecture starts with one input of a positive size and has 1 to 1000 layers", S.throw_cond, bad, S,
                 **dict(kw, rules=rules + kw["rules"], n=ck.n * 2))
        f = factory(P)
        D = declared(ck, "fullyConnected").ret
        S = ck.summary(f, args=[LV("model"), LV("shape"), sym("optimizer")], store={"model": with_(D, type=ty["input"])}, policy=opaque_q(r"tools::random\w*"))
        ck.equal("an input that is not first is rejected", S.throw_cond, TRUE, S, types={"shape": "std::vector<int>"},
                 rules=[(r"shape", lambda e, m: e.rnd("rank").randint(1, 3)), (r"shape\[\d+\]", lambda e, m: e.rnd(m.group(0)).randint(1, 5)), (r"N", 2),
                        (r"act", 0)])
    ck.group("order", order)

    # a layer behind other layers is checked against what it is given
    def behind():
        for kind in DECL:
            for shape in ((X_,), (C_, X_), (C_, X_, Y_)):
                D = declared(ck, kind)
                b = Built(ck, kind, shape, None, model=D.ret)
                L = b.cls
                nm = "%s built on a %dD output" % (kind, len(shape))
                kw = kw_of(shape, kind, "small")
                pre = and_(*[x >= 1 for x in shape])
                if kind in FLAT:
                    pre = and_(pre, N_ >= 0)
                    ck.equal("%s: rejected exactly when it does not fit" % nm, b.S.throw_cond, FALSE, b.S, **dict(kw, pre=pre))
                else:
                    ck.equal("%s: rejected exactly when it does not fit" % nm, b.S.throw_cond, spec_reject(kind, shape), b.S, **dict(kw, pre=pre))
    ck.group("behind", behind)

    # kinds and contents
    def kinds():
        known = {NS + c for c in KIND_CLS.values()}
        for kind in DECL:
            for nd in (1, 2) if kind not in FLAT else (1,):
                shape = dims(nd, kind in FLAT)
                b = Built(ck, kind, shape, None, model=declared(ck, kind).ret)
                want = NS + KIND_CLS[kind, nd]
                ck.rule("a declared %s on a %dD input is a %s" % (kind, nd, KIND_CLS[kind, nd]),
                        True if b.cls == want else False if b.cls in known else None, "it builds a %s" % b.cls, b.S.site)
                if kind == "maxPooling" or kind == "gruLayer":
                    continue
                kw = layer_kw(b, nd, NEURON.get(kind, "SimpleNeuron"))
                n0 = b.obj["neurons"][imod(sym("q"), length(b.obj["neurons"]))]
                kw["types"] = dict(kw["types"], q="int")
                kw["rules"] = [(r"q", lambda e, m: e.rnd("q").randint(0, 40)), (r"N", lambda e, m: e.rnd("N").randint(1, 4))] + list(kw["rules"])
                ck.equal("%s %dD: every neuron has the declared activation" % (kind, nd), n0["activationFunction"], ACT, b.S, **kw)
                g = ck.summary(P.find(NS + "ActivationFunction::get"), this=None, args=[ACT])
                ck.equal("%s %dD: every neuron uses the function of that activation" % (kind, nd), n0["outputFunction"], g.ret, b.S, **kw)
    ck.group("kinds", kinds)

    # the validity of optimizer, layers and network decides the construction
    def network():
        f = P.find(SNN + "::StraightforwardNeuralNetwork", lambda f: len(f["params"]) == 2 and "vector" in f["params"][0]["t"])

        def pol(fn, d, this, args, st, I):
            if fn["q"] == NS + "LayerFactory::build" or fn["q"].startswith(BL) or fn["q"] == NS + "NeuralNetworkOptimizerFactory::build":
                return "opaque"
            if fn["n"] == "isValid" and "Optimizer" in fn["q"]:
                return "opaque"
        S = ck.summary(f, args=[LV("architecture"), sym("om")], cls=SNN, policy=pol)
        ls = S.this["layers"]
        n = length(ls)
        first = call_(BL + "getNumberOfInputs", mk("deref", ls[0]))
        spec = or_(first < 1, first > LIMIT, n < 1, n > 1000, not_(eq_(call_(NS + "NeuralNetworkOptimizer::isValid", mk("deref", S.this["optimizer"])), 0)),
                   vany(n, lambda i: not_(eq_(call_(BL + "isValid", mk("deref", ls[i])), 0))))
        ck.equal("a network is refused when its input, its optimizer or any of its layers is invalid", S.throw_cond, spec, S,
                 types={"architecture": "std::vector<snn::LayerModel>"},
                 rules=[(r"call:out0:[^\[]*LayerFactory::build[^\[]*", lambda e, m: e.rnd("layers").choice([1, 1, 2, 3, 4])),
                        (r"CALL:.*BaseLayer::getNumberOfInputs", lambda e, a: e.rnd("in").choice([1, 2, 7, 1000, LIMIT, LIMIT + 1, 0, -1])),
                        (r"CALL:.*isValid", lambda e, a: e.rnd("v" + str(a)).choice([0, 0, 0, 0, 201]))],
                 calltypes={BL + "getShapeOfOutput": "std::vector<int>", BL + "isValid": "int", NS + "NeuralNetworkOptimizer::isValid": "int",
                            BL + "getNumberOfInputs": "int",
                            "out0:" + NS + "LayerFactory::build": "std::vector<std::unique_ptr<snn::internal::BaseLayer>>"})
    ck.group("network", network)

    def optimizer():
        q = NS + "StochasticGradientDescent"
        o = ck.summary("snn::StochasticGradientDescent", this=None, args=[sym("lr"), sym("mom")]).ret
        S = construct(ck, [input_model(ck, (X_,)), declared(ck, "fullyConnected").ret])
        kw = kw_of((X_,), "fullyConnected", "small")
        kw["rules"] = [(r"X|N", 2), (r"lr", lambda e, m: e.rnd("lr").choice([-1, -0.001, 0, 1e-6, 0.001, 0.5, 0.999, 1, 1.001, 7])),
                       (r"mom", lambda e, m: e.rnd("mom").choice([-1, -0.001, 0, 0.001, 0.5, 0.999, 1, 1.001, 7]))] + list(kw["rules"])
        ck.equal("learning rates outside (0, 1) and momenta outside [0, 1] are rejected", S.throw_cond,
                 or_(sym("lr") <= 0, sym("lr") >= 1, sym("mom") < 0, sym("mom") > 1), S, **dict(kw, n=ck.n * 3))
    ck.group("optimizer", optimizer)

    # freshly drawn weights are valid
    def fresh_neurons():
        for c in ("SimpleNeuron", "RecurrentNeuron", "GatedRecurrentUnit"):
            kind = {v: k for k, v in list(NEURON.items())}.get(c, "fullyConnected")
            b = Built(ck, kind, (X_,), None, model=declared(ck, kind).ret)
            n0 = b.obj["neurons"][ZERO]
            f = P.method(NS + c, "isValid")
            S = ck.summary(f, store={"this": n0}, cls=NS + c)
            kw = layer_kw(b, 1, c)
            kw["rules"] = [(r"N", lambda e, m: e.rnd("N").randint(1, 4))] + list(kw["rules"])
            kw["rules"] = [(r"CALL:.*random\w*", lambda e, a: e.rnd("w" + str(a)).uniform(-2.4, 2.4))] + kw["rules"]
            ck.equal("%s: a new neuron is valid" % c, S.ret, ZERO, b.S, **kw)
    ck.group("fresh", fresh_neurons)
