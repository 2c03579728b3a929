"""C38: randomness enters only through initialisation, shuffling and dropout in training."""
from ..lib import *
from .. import effects as fx

ENGINE = re.compile(r"(const )?std::(random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|"
                    r"independent_bits_engine|shuffle_order_engine|\w+_distribution)\b")
CALLS = {"rand", "random", "drand48", "lrand48", "mrand48", "rand_r", "arc4random", "random_shuffle", "getrandom"}


def draws(fn):
    """the first construct of a function that draws a random number, or None"""
    for part in fx.parts(fn):
        for n, chain in fx.parents(part):
            k = n.get("k")
            fr = n.get("fn") or {}
            if k == "opcall" and n.get("op") == "()" and ENGINE.match(fr.get("cls", "")):
                return n
            if k == "call" and fr.get("q", "").replace("std::", "") in CALLS:
                return n
            # an engine handed to a library function: std::shuffle, generate with the engine itself ...
            if k == "ref" and ENGINE.match(n.get("t", "")) and "distribution" not in n.get("t", ""):
                u, at = fx.use(chain)
                if u == "write" or (at is not None and at.get("k") in ("call", "opcall", "mcall") and u != "read"):
                    return n
    return None


PUBLIC = 0


def run(ck):
    P = ck.prog
    G = fx.CallGraph(P)
    fns = fx.functions(P)
    src = {f["key"]: draws(f) for f in fns}
    sources = {k for k, n in src.items() if n is not None}

    def check(nm, roots, stop=()):
        r = G.reach(roots, stop)
        ck.saw(r)
        bad = [k for k in r if k in sources]
        if bad:
            k = bad[0]
            path = [P.fns[x]["q"] for x in r[k]]
            ck.rule(nm, False, "draws a random number: " + " -> ".join(path), fx.site(P.fns[k], src[k]))
        else:
            ck.rule(nm, True, "%d functions reached" % len(r), fx.site(roots[0]))

    def public(cls):
        rec = P.recs[cls]
        for m in rec["methods"]:
            if m.get("acc") == PUBLIC and not m.get("deleted"):
                for f in P.byq.get(cls + "::" + m["n"], []):
                    if f["key"] == m["key"]:
                        yield f

    def named(q, pred=lambda f: True):
        return [f for f in P.byq.get(q, []) if pred(f)]

    def entry():
        ck.rule("functions that draw random numbers enumerated", True, ", ".join(sorted(P.fns[k]["q"] for k in sources)))
        # everything a user can do with an existing network except train it
        TRAIN = {"train", "startTrainingAsync"}
        for f in public(SNN):
            if f["n"] in TRAIN or (f.get("kind") == "ctor" and not f.get("copy") and f["params"]):
                continue
            check("StraightforwardNeuralNetwork::%s(%s) is deterministic" % (f["n"], ", ".join(p["t"].replace("std::", "") for p in f["params"])), [f])
        for f in public("snn::Data"):
            if f["n"] == "shuffle":
                continue
            check("Data::%s(%s) is deterministic" % (f["n"], ", ".join(p["t"].replace("std::", "") for p in f["params"])[:80]), [f])
        for cls in ("snn::Wait",):
            for f in public(cls):
                check("%s::%s is deterministic" % (cls.split("::")[-1], f["n"]), [f])
    ck.group("entry points", entry)

    def inference():
        for cls in [c for c in P.subclasses(NS + "BaseLayer") if c in P.recs]:
            for n in ("output", "getAverageOfAbsNeuronWeights", "getAverageOfSquareNeuronWeights", "clone", "isValid", "summary"):
                for f in P.byq.get(cls + "::" + n, []):
                    check("%s::%s is deterministic" % (cls.replace(NS, ""), n), [f])
        for cls in [c for c in P.subclasses(NS + "LayerOptimizer") if c in P.recs]:
            for n in ("applyAfterOutputForTesting", "clone", "summary"):
                for f in P.byq.get(cls + "::" + n, []):
                    check("%s::%s is deterministic" % (cls.replace(NS, ""), n), [f])
    ck.group("inference", inference)

    def training():
        """learning itself: no randomness but the order of the data and dropout's draws"""
        stop = {f["key"] for q in [c + "::shuffle" for c in ["snn::Data"] + P.subclasses(NS + "TemporalComposite")] for f in named(q)}
        stop |= {f["key"] for f in named(NS + "Dropout::applyAfterOutputForTraining")}
        roots = named(SNN + "::train") + named(SNN + "::startTrainingAsync")
        check("training draws no random numbers but for the order of the data and dropout", roots, stop)
    ck.group("training", training)

    def archives():
        fs = [f for f in fns if f["n"] in ("serialize", "save", "load") and f.get("cls") and any("rchive" in p["t"] for p in f["params"])]
        if not fs:
            raise Skip("no serialisation functions")
        check("saving and loading are deterministic", fs)
        made = [f for f in fns if f.get("kind") == "ctor" and not f["params"] and f.get("cls") in {g["cls"] for g in fs}]
        if made:
            check("an object made to be loaded is deterministic", made)
    ck.group("archives", archives)

    def built():
        """and what has to be random is"""
        for nm, roots in (("a new network", [f for f in named(SNN + "::StraightforwardNeuralNetwork") if f["params"] and not f.get("copy")]),
                          ("shuffling", named("snn::Data::shuffle")), ("dropout in training", named(NS + "Dropout::applyAfterOutputForTraining"))):
            r = G.reach(roots)
            ck.rule("%s draws random numbers" % nm, any(k in sources for k in r), "no source of randomness among the %d functions reached" % len(r), fx.site(roots[0]))
    ck.group("randomness", built)
