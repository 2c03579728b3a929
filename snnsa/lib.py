"""Shared vocabulary for the specifications."""
import re
from fractions import Fraction
from .check import *
from .dsl import *

NS = "snn::internal::"
THIS = sym("this")


def opaque_if(*subs):
    """policy: calls whose qualified name contains one of the substrings stay uninterpreted"""
    def pol(fn, d, this, args, st, I):
        q = fn["q"]
        if any(s in q for s in subs):
            return "opaque"
        return None
    return pol


def opaque_q(*names):
    """policy: exactly these functions (qualified names without the library namespace, regex) stay uninterpreted"""
    rx = re.compile(r"(?:snn::)?(?:internal::)?(?:%s)" % "|".join(names))

    def pol(fn, d, this, args, st, I):
        return "opaque" if rx.fullmatch(fn["q"]) else None
    return pol


ACTF = r"ActivationFunction::(function|derivative|get)"
RANDF = r"tools::random\w*"


def nparams(fn):
    return len(fn.get("pt", fn.get("params", ())))


def H(ptr):
    return ("H", ptr)


def deref(p):
    return mk("deref", p)


def act(fun, x):
    """activation function object applied"""
    return mk("call", NS + "ActivationFunction::function", deref(fun), x)


def dact(fun, x):
    return mk("call", NS + "ActivationFunction::derivative", deref(fun), x)


ACT_TYPES = {NS + "ActivationFunction::function": "float", NS + "ActivationFunction::derivative": "float"}


# ---- circular buffer of the last batchSize vectors
def cb_push(c, v):
    """the vector is stored in the next slot, wrapping at the end"""
    i = ite(lt(c["indexPush"], length(c["queue"])), c["indexPush"], ZERO)
    return with_(c, queue=upd(c["queue"], i, v), indexPush=i + 1)


def cb_get(c):
    i = ite(lt(c["indexGet"], length(c["queue"])), c["indexGet"], ZERO)
    return c["queue"][i], with_(c, indexGet=i + 1)


def cb_canon(c):
    """positions are only meaningful modulo the capacity"""
    n = length(c["queue"])
    return with_(c, indexPush=imod(c["indexPush"], n), indexGet=imod(c["indexGet"], n))


def neuron_canon(o):
    for f in ("lastInputs", "previousDeltaWeights"):
        o = setf(o, f, cb_canon(fld(o, f)))
    return o


def cb_rules(path, n, size):
    """path: regex prefix of the CircularData object; n, size: env -> int"""
    return [(path + r"\.queue", lambda e, m: n(e)),
            (path + r"\.queue\[\d+\]", lambda e, m: size(e)),
            (path + r"\.(indexPush|indexGet)", lambda e, m: e.rnd("cb", m.group(0)).randint(0, n(e) - 1))]


def neuron_rules(p, extra, ninputs=None):
    """valuations of a neuron object satisfying its representation invariant; p: literal path"""
    q = re.escape(p)

    def num_in(e):
        return e.value(p + ".numberOfInputs", "int")

    def batch(e):
        return e.value(p + ".batchSize", "int")
    r = [(q + r"\.numberOfInputs", (lambda e, m: ninputs(e)) if ninputs else (lambda e, m: e.size("ni|" + p))),
         (q + r"\.batchSize", lambda e, m: e.size("bs|" + p, 1, 3)),
         (q + r"\.weights", lambda e, m: num_in(e) + extra),
         (q + r"\.errors", lambda e, m: num_in(e))]
    r += cb_rules(q + r"\.lastInputs", batch, num_in)
    r += cb_rules(q + r"\.previousDeltaWeights", batch, lambda e: num_in(e) + extra)
    return r


def dot(a, b, n):
    return vsum(n, lambda i: a[i] * b[i])


# ---- recurrent neuron
REC = NS + "RecurrentNeuron"


def rec_clear(nrn, full=True):
    """memory forgotten at the start of a sequence (full=False: what the known finding leaves)"""
    nrn = with_(nrn, previousOutput=0, recurrentError=0, previousSum=0)
    return with_(nrn, lastOutput=0, sum=0) if full else nrn


def rec_output(nrn, inputs):
    n = length(inputs)
    prev = nrn["lastOutput"]
    s = dot(inputs, nrn["weights"], n) + prev * nrn["weights"][n] + nrn["bias"] * nrn["weights"][n + 1]
    out = act(nrn["outputFunction"], s)
    return out, with_(nrn, previousSum=nrn["sum"], previousOutput=prev, sum=s, lastOutput=out,
                      lastInputs=cb_push(nrn["lastInputs"], inputs))


def sgd_recurrent(nrn, opt, error, known=False):
    n = nrn["numberOfInputs"]
    lr = opt["learningRate"] / nrn["batchSize"]
    m = opt["momentum"]
    li, lic = cb_get(nrn["lastInputs"])
    pd, pdc = cb_get(nrn["previousDeltaWeights"])
    w = nrn["weights"]
    dbias = lr * error * nrn["bias"]
    if known:
        # K2: the bias change and the recurrent change both land on the recurrent weight
        wn = w[n] + dbias + m * pd[n]
        rerr = error + nrn["recurrentError"] * dact(nrn["outputFunction"], nrn["previousSum"]) * wn
        drec = lr * rerr * nrn["previousOutput"] + m * pd[n]
        delta = vmap(n + 2, lambda i: if_(eq_(i, n), drec, if_(i > n, 0, lr * error * li[i] + m * pd[i])))
        w2 = vmap(n + 2, lambda i: if_(eq_(i, n), wn + drec, w[i] + delta[i]))
    else:
        rerr = error + nrn["recurrentError"] * dact(nrn["outputFunction"], nrn["previousSum"]) * w[n]
        drec = lr * rerr * nrn["previousOutput"] + m * pd[n]
        delta = vmap(n + 2, lambda i: if_(eq_(i, n), drec, if_(i > n, dbias + m * pd[n + 1], lr * error * li[i] + m * pd[i])))
        w2 = vmap(n + 2, lambda i: w[i] + delta[i])
    return with_(nrn, weights=w2, recurrentError=rerr, lastInputs=lic, previousDeltaWeights=cb_push(pdc, delta))


# ---- gated recurrent unit
GRU = NS + "GatedRecurrentUnit"


def gru_clear(u, full=True):
    u = with_(u, previousOutput=0, recurrentError=0, updateGateOutput=0)
    for g in ("resetGate", "updateGate", "outputGate"):
        u = setf(u, g, rec_clear(u[g], full))
    return u


def gru_output(u, inputs, remember=True):
    """remember=False: known finding, the unit's own previous output stays as it was"""
    r, rg = rec_output(u["resetGate"], inputs)
    z, ug = rec_output(u["updateGate"], inputs)
    og = with_(u["outputGate"], lastOutput=u["outputGate"]["lastOutput"] * r)
    c, og = rec_output(og, inputs)
    out = (1 - z) * u["previousOutput"] + z * c
    u = with_(u, updateGateOutput=z, outputGateOutput=c, resetGate=with_(rg, lastOutput=out),
              updateGate=with_(ug, lastOutput=out), outputGate=with_(og, lastOutput=out))
    if remember:
        u = with_(u, previousOutput=out)
    return out, u


def gru_rules(p):
    r = [(re.escape(p) + r"\.numberOfInputs", lambda e, m: e.size("ni|" + p)),
         (re.escape(p) + r"\.errors", lambda e, m: e.value(p + ".numberOfInputs", "int"))]
    for g in ("resetGate", "updateGate", "outputGate"):
        r += neuron_rules(p + "." + g, 2, lambda e: e.value(p + ".numberOfInputs", "int"))
    return r


def gru_canon(u):
    for g in ("resetGate", "updateGate", "outputGate"):
        u = setf(u, g, neuron_canon(u[g]))
    return u


def enum_value(P, q, name):
    e = P.enums.get(q)
    if not e:
        raise AnalysisError("enumeration %s vanished" % q)
    for x in e["e"]:
        if x["n"] == name:
            return int(x["v"])
    raise AnalysisError("enumerator %s::%s vanished" % (q, name))


# ---- network
NN = NS + "NeuralNetwork"
SNN = "snn::StraightforwardNeuralNetwork"
BL = NS + "BaseLayer::"
BL_TYPES = {BL + m: "std::vector<float>" for m in ("output", "outputForTraining", "backOutput", "train")}


def nonfinite(x):
    return or_(mk("call", "isnan", x), mk("call", "isinf", x))


def forward(net, inputs, reset, mode="output"):
    """the chain of layer outputs; value returned"""
    ls = net["layers"]
    return vfold(length(ls) - 1, [call_(BL + mode, deref(ls[ZERO]), inputs, reset)],
                 lambda i, x: call_(BL + mode, deref(ls[i + 1]), x, reset))


def forward_events(net, inputs, reset, mode="output"):
    ls = net["layers"]
    first = call_(BL + mode, deref(ls[ZERO]), inputs, reset)
    return [ev_(BL + mode, deref(ls[ZERO]), inputs, reset)] + loop_(length(ls) - 1, lambda i: [
        ev_(BL + mode, deref(ls[i + 1]), vfold(i, [first], lambda j, x: call_(BL + mode, deref(ls[j + 1]), x, reset)), reset)])


def special_floats(e, m):
    """element valuations that are sometimes NaN or infinite"""
    if not e.value("someNonFinite", "bool"):
        return e.fresh(m.group(0), "float")
    return e.rnd(m.group(0)).choice([float("nan"), float("inf"), -float("inf"), 1.5, 0, -2, 3.0e38])


def net_kw(special=False, **types):
    n = lambda e: e.size("size")
    rules = [(r"desired", lambda e, m: n(e)), (r"CALL:snn::internal::BaseLayer::\w+", lambda e, a: n(e)),
             (r"CALL:snn::internal::NeuralNetwork::output(ForTraining)?", lambda e, a: n(e)),
             (r"CALL:out\d+:snn::internal::BaseLayer::\w+", lambda e, a: n(e))]
    if special:
        rules.append((r"call:snn::internal::(BaseLayer|NeuralNetwork)::output\w*\(\w+\)\[\d+\]", special_floats))
    t = {"this": NN, "inputs": "std::vector<float>", "desired": "std::vector<float>", "reset": "bool", "temporalReset": "bool"}
    t.update(types)
    return dict(types=t, calltypes=dict(BL_TYPES, **{NN + "::output": "std::vector<float>", NN + "::outputForTraining": "std::vector<float>"}), rules=rules)


def train_events(net, inputs, desired, reset):
    """one training step after the forward pass"""
    ls = net["layers"]
    out = forward(net, inputs, reset, "outputForTraining")
    n = length(out)
    err = vmap(n, lambda i: 2 * (desired[i] - out[i]))
    bad = or_(net["outputNan"], vany(n, lambda i: nonfinite(out[i])))
    L = length(ls)
    good = not_(bad)
    back = lambda k: vfold(k, [err], lambda j, x: call_(BL + "backOutput", deref(ls[L - 1 - j]), x))
    evs = loop_(L - 1, lambda i: [ev_(BL + "backOutput", deref(ls[L - 1 - i]), back(i), guard=good)])
    evs.append(ev_(BL + "train", deref(ls[ZERO]), back(L - 1), guard=good))
    return forward_events(net, inputs, reset, "outputForTraining") + evs, bad


def member(ck, name, obj, f, want, S, **kw):
    """a member of a newly built object; one that was never given a value is a violation"""
    got = obj[f]
    if got.op == "fld" and got.args[0].op == "undef":
        ck.rule(name, False, "member %s is left uninitialised" % f, S.site)
        return
    ck.equal(name, got, want, S, **kw)
