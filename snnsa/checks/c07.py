"""C07: simple neuron: weighted sum forward, chain rule backward, SGD with momentum."""
from ..lib import *

N = NS + "SimpleNeuron"


def sgd_simple(nrn, opt, error):
    """weights and buffers after one SGD step of a simple neuron with back-propagated error"""
    n = nrn["numberOfInputs"]
    lr = opt["learningRate"] / nrn["batchSize"]
    m = opt["momentum"]
    li, lic = cb_get(nrn["lastInputs"])
    pd, pdc = cb_get(nrn["previousDeltaWeights"])
    delta = vmap(n + 1, lambda w: if_(eq_(w, n), lr * error * nrn["bias"], lr * error * li[w]) + m * pd[w])
    return with_(nrn, weights=vmap(n + 1, lambda w: nrn["weights"][w] + delta[w]),
                 lastInputs=lic, previousDeltaWeights=cb_push(pdc, delta))


def run(ck):
    P = ck.prog
    types = {"this": N, "inputs": "std::vector<float>", "error": "float", "neuron": N}
    rules = neuron_rules("this", 1) + neuron_rules("neuron", 1) + [
        (r"inputs", lambda e, m: e.value("this.numberOfInputs", "int"))]
    dyn = {r"this\.optimizer": NS + "StochasticGradientDescent"}
    kw = dict(types=types, rules=rules, dyn=dyn, calltypes=ACT_TYPES)
    pol = opaque_q(ACTF)
    inputs = sym("inputs")
    w, n = THIS["weights"], THIS["numberOfInputs"]

    def forward():
        S = ck.summary(P.method(N, "output"), args=[LV("inputs")], policy=pol)
        s = dot(inputs, w, length(inputs)) + w[length(inputs)] * THIS["bias"]
        ck.equal("forward: f(sum of inputs*weights + bias*last weight)", S.ret, act(THIS["outputFunction"], s), S, **kw)
        ck.frame("forward state", S, canon=neuron_canon, spec= {"this": with_(THIS, sum=s, lastInputs=cb_push(THIS["lastInputs"], inputs))}, **kw)
        ck.no_throw("forward never throws", S, **kw)
    ck.group("forward", forward)

    opt = deref(THIS["optimizer"])
    hdyn = {H(THIS["optimizer"]): NS + "StochasticGradientDescent"}
    err = sym("error") * dact(THIS["outputFunction"], THIS["sum"])

    def backward():
        S = ck.summary(P.method(N, "backOutput"), args=[sym("error")], policy=pol, dyn=hdyn)
        errors = vmap(n, lambda i: err * w[i])
        got = S.deref(S.ret) if S.ret.op in ("addr", "iter") else S.ret
        ck.equal("backward: returned errors are error*f'(sum)*weights before the update", got, errors, S, **kw)
        ck.frame("backward state", S, canon=neuron_canon, spec= {"this": with_(sgd_simple(THIS, opt, err), errors=errors)}, **kw)
    ck.group("backward", backward)

    def train():
        S = ck.summary(P.method(N, "train"), args=[sym("error")], policy=pol, dyn=hdyn)
        ck.frame("train state", S, canon=neuron_canon, spec= {"this": sgd_simple(THIS, opt, err)}, **kw)
    ck.group("train", train)

    def step():
        f = P.find(NS + "StochasticGradientDescent::updateWeights", lambda f: "SimpleNeuron" in f["params"][0]["t"])
        o = sym("this")
        S = ck.summary(f, args=[LV("neuron"), sym("error")], policy=pol)
        k2 = dict(kw, types={"this": NS + "StochasticGradientDescent", "neuron": N, "error": "float"})
        ck.frame("optimizer step", S, canon=neuron_canon, spec= {"neuron": sgd_simple(sym("neuron"), o, sym("error"))}, **k2)
    ck.group("optimizer step", step)
    circular(ck)


def circular(ck):
    """two consecutive operations from any reachable position (so that the wrap is crossed)"""
    P = ck.prog
    C = NS + "CircularData"
    types = {"this": C, "data": "std::vector<float>", "data2": "std::vector<float>", "queueSize": "int", "dataSize": "int"}
    rules = [(r"this\.queue", lambda e, m: e.size("q")),
             (r"this\.(indexPush|indexGet)", lambda e, m: e.rnd(m.group(0)).randint(0, len(e.value("this.queue", "std::vector<std::vector<float>>")) - 1))]
    kw = dict(types=types, rules=rules)

    def get_of(S):
        return S.deref(S.ret) if S.ret.op in ("addr", "iter") else S.ret

    def push():
        S = ck.summary(P.method(C, "pushBack"), args=[LV("data")])
        S2 = ck.summary(P.method(C, "pushBack"), args=[LV("data2")], store={"this": S.this})
        ck.frame("two stores", S2, canon=lambda t: cb_canon(t) if t.op == "obj" else t,
                 spec={"this": cb_push(cb_push(THIS, sym("data")), sym("data2"))}, **kw)
    ck.group("buffer push", push)

    def get():
        S = ck.summary(P.method(C, "getBack"))
        S2 = ck.summary(P.method(C, "getBack"), store={"this": S.this})
        v, c = cb_get(THIS)
        v2, c2 = cb_get(c)
        ck.equal("first read value", get_of(S), v, S, **kw)
        ck.equal("second read value", get_of(S2), v2, S2, **kw)
        ck.frame("two reads", S2, canon=cb_canon, spec={"this": c2}, **kw)
    ck.group("buffer read", get)

    def init():
        S = ck.summary(P.method(C, "initialize"), args=[sym("queueSize"), sym("dataSize")])
        spec = with_(THIS, queue=vmap(sym("queueSize"), lambda i: zeros(sym("dataSize"))))
        ck.frame("buffer initialisation", S, spec={"this": spec}, types=types,
                 rules=[(r"queueSize|dataSize", lambda e, m: e.size(m.group(0)))] + rules[1:0])
        # a fresh buffer starts reading and writing at the same, first, slot
        I = ck.interp()
        st = State()
        I.default_init(C, LV("fresh"), st)
        o = I.get(st, LV("fresh"))
        ck.equal("a new buffer reads and writes from the same slot", sub(o["indexPush"], o["indexGet"]), ZERO, site=C)
    ck.group("buffer init", init)
