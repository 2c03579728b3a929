"""C43: a refused operation changes nothing."""
from ..lib import *
from ..data import DATA
from ..interp import initial_root, lazy
from ..frontend import REPO
from .c22 import value_rules
import re

Q = SNN + "::"
POL = opaque_q(r"StraightforwardNeuralNetwork::(trainSync|stopTrainingAsync|saveSync|resetTrainingValues|evaluate|output)",
               r"NeuralNetwork::(getNumberOf\w+|getLayerOutputs|output)", r"NeuralNetworkVisualization::\w+")
QUIET_CALLS = {"clone", "getNumberOfOutputs", "getNumberOfInputs", "joinable", "now", "log"}


def touched(name, args):
    m = name.split("::")[-1]
    if m in QUIET_CALLS or re.match(r"(get(?!LayerOutputs|Back)|is|has|operator<<|operator==)", m):
        return None
    return "effect " + m, []


def untouched(ck, name, S, keep=None, quiet=(), **kw):
    """no outcome that throws has changed an object that existed before, or had an effect outside"""
    n = 0
    for o in S.outs:
        if o.kind != "throw":
            continue
        n += 1
        pc = band(*o.st.pc)
        for r in sorted((r for r in o.st.store if lazy(r)), key=str):
            if keep and r not in keep:
                continue
            got, was = o.st.store[r], initial_root(r)
            if got is was:
                ck.record("%s: [%s] is as before" % (name, r if isinstance(r, str) else "part"), "discharged", "identical: normal forms coincide", S.site)
                continue
            fs = set(dict(got.args[1])) if got.op == "obj" else {None}
            for f in sorted(fs, key=str):
                a, b = (got, was) if f is None else (fld(got, f), fld(was, f))
                ck.equal("%s: [%s%s] is as before" % (name, r if isinstance(r, str) else "part", "." + f if f else ""), a, b, S, pre=pc, **kw)
        ck.trace("%s: nothing was started, stopped, opened or written" % name, S, [], events=o.st.trace, view=lambda e, a: None if e.split("::")[-1] in quiet else touched(e, a), pre=pc, **kw)
    if not n:
        ck.record(name + ": never refuses here", "undecided", "no outcome with an error", S.site)


def run(ck):
    P = ck.prog
    data = sym("data")
    pick = lambda *v: (lambda e, m: e.rnd(m.group(0) if hasattr(m, "group") else str(m)).choice(v))
    kw = dict(types={"this": SNN, "data": DATA, "wait": "snn::Wait", "b": "int", "freq": "int", "path": "std::string", "d": "int"},
              calltypes={NN + "::getNumberOfOutputs": "int", NN + "::getNumberOfInputs": "int", "std::thread::joinable": "bool"},
              rules=[(r"data\.(numberOfLabels|sizeOfData)", pick(1, 1, 2)), (r"data\.typeOfTemporal", pick(0, 0, 1, 2)),
                     (r"b", pick(0, 1, 1, 2, 3, 5)), (r"data\.sets\[1\]\.size", pick(1, 2, 3)),
                     (r"CALL:.*getNumberOf(In|Out)puts", lambda e, a: e.rnd("io").choice([1, 1, 2]))], n=4 * ck.n)

    def network(nm, meth, args, pred=None):
        def go():
            S = ck.summary(P.method(SNN, meth, *([pred] if pred else [])), args=args, policy=POL, cls=SNN)
            untouched(ck, nm, S, **kw)
        ck.group(nm, go)
    network("train, when it is refused", "train", [LV("data"), sym("wait"), sym("b"), sym("freq")], lambda f: len(f["params"]) == 4)
    network("startTrainingAsync, when it is refused", "startTrainingAsync", [LV("data"), sym("b"), sym("freq")], lambda f: len(f["params"]) == 3)
    network("saveAs, when it is refused", "saveAs", [sym("path")])
    network("saveFeatureMapsAsBitmap, when it is refused", "saveFeatureMapsAsBitmap", [sym("path")])
    network("saveFilterLayersAsBitmap, when it is refused", "saveFilterLayersAsBitmap", [sym("path"), LV("data"), sym("d")])

    def copying():
        ctor = [f for f in P.fns.values() if f["q"] == SNN + "::StraightforwardNeuralNetwork" and len(f.get("params", ())) == 1
                and "StraightforwardNeuralNetwork &" in f["params"][0]["t"]]
        if len(ctor) != 1:
            raise Skip("copy constructor")
        S = ck.summary(ctor[0], args=[LV("other")], policy=opaque_q(r"NeuralNetwork::NeuralNetwork"), cls=SNN)
        untouched(ck, "copying, when it is refused", S, keep={"other"}, quiet=("thread", "joinable"), types={"other": SNN, "this": SNN})
        ck.equal("copying is refused exactly while the original is training", S.throw_cond, not_(mk("boolof", sym("other")["isIdle"])), S,
                 types={"other": SNN, "this": SNN})
    ck.group("copy", copying)

    def waits():
        for op in ("operator||", "operator&&"):
            S = ck.summary(P.method("snn::Wait", op), args=[LV("wait")])
            untouched(ck, "Wait::%s, when it is refused" % op, S, types={"this": "snn::Wait", "wait": "snn::Wait"}, rules=value_rules(), n=4 * ck.n)
    ck.group("wait", waits)

    def thresholds():
        kinds = {k: num(enum_value(P, "snn::problem", k)) for k in ("classification", "multipleClassification", "regression")}
        k2 = dict(types={"this": DATA, "v": "float"}, rules=[(r"this\.typeOfProblem", pick(*[int(str(v)) if not hasattr(v, "args") else v.args[0] for v in kinds.values()]))])
        p = THIS["typeOfProblem"]
        for what, ok in (("Precision", eq_(p, kinds["regression"])), ("Separator", or_(eq_(p, kinds["classification"]), eq_(p, kinds["multipleClassification"])))):
            S = ck.summary(P.method(DATA, "set" + what), args=[sym("v")])
            ck.equal("set%s is refused exactly for the problems without one" % what, S.throw_cond, not_(ok), S, **k2)
            untouched(ck, "set%s, when it is refused" % what, S, **k2)
            after = S.this
            G = ck.summary(P.method(DATA, "get" + what), store={"this": after})
            ck.equal("get%s returns the value that was set" % what, G.ret, sym("v"), G, pre=ok, **k2)
            G = ck.summary(P.method(DATA, "get" + what))
            ck.equal("get%s is refused exactly for the problems without one" % what, G.throw_cond, not_(ok), G, **k2)
            untouched(ck, "get%s, when it is refused" % what, G, **k2)
    ck.group("thresholds", thresholds)

    def weights():
        w = sym("w")
        N = "snn::internal::Neuron"
        k3 = dict(types={"this": N, "w": "std::vector<float>"})
        S = ck.summary(P.method(N, "setWeights"), args=[w])
        ck.equal("setWeights is refused exactly for another number of weights", S.throw_cond, not_(eq_(length(w), length(THIS["weights"]))), S, n=4 * ck.n, **k3)
        untouched(ck, "setWeights, when it is refused", S, **k3)
        G = ck.summary(P.method(N, "getWeights"), store={"this": S.this})
        ck.equal("getWeights returns the weights that were set", G.ret, w, G, pre=eq_(length(w), length(THIS["weights"])), n=4 * ck.n, **k3)
    ck.group("weights", weights)

    def errors():
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "throw" and x.get("e"):
                    yield x
                for v in x.values():
                    yield from walk(v)
            elif isinstance(x, list):
                for v in x:
                    yield from walk(v)

        def standard(c, seen=()):
            c = c.split("<")[0].strip()
            if c.startswith("std::"):
                return True if re.match(r"std::(exception|logic_error|runtime_error|\w*_error|bad_\w+|invalid_argument|out_of_range|filesystem::filesystem_error|ios_base::failure|nested_exception)$", c) else None
            if c in seen or c not in P.recs:
                return None
            bs = list(P.bases(c))
            rs = [standard(b, seen + (c,)) for b in bs]
            return True if True in rs else None if None in rs else False
        for f in sorted(P.fns.values(), key=lambda f: f["key"]):
            if not f.get("repo"):
                continue
            for x in walk(f.get("body")):
                t = re.sub(r"\b(const|class|struct)\b", "", x["e"].get("t", "")).strip()
                if t.endswith(("*", "]")) or t in ("int", "float", "bool", "char", "double", "unsigned int", "long"):
                    ok = False
                else:
                    ok = standard(t)
                ck.rule("the error thrown at %s:%s can be caught as std::exception" % (f["file"].split("/")[-1], x.get("l")), ok,
                        "%s throws a %s, which is no std::exception" % (f["q"], t), "%s:%s %s" % (f["file"].replace(REPO + "/", ""), x.get("l"), f["q"]))
    ck.group("errors", errors)
