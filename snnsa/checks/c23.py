"""C23: training lifecycle."""
from ..lib import *
from . import c27
from ..interp import Event

Q = SNN + "::"
POL = opaque_q("StraightforwardNeuralNetwork::(validData|trainSync|saveSync)")
KW = dict(types={"this": SNN, "data": "snn::Data", "wait": "snn::Wait", "batchSize": "int", "freq": "int", "path": "std::string"},
          calltypes={"std::thread::joinable": "bool"})


def flags(o):
    return [o.get("isIdle"), o.get("wantToStopTraining")]


def view(name, args):
    m = name.split("::")[-1]
    if m == "validData":
        return "validData", [str(args[1]), args[2]]
    if m == "join":
        # the stop request is visible before waiting for the thread
        return "join", [args[-1].get("wantToStopTraining")]
    if m == "thread":
        if "trainSync" not in str(args[0]):
            raise pit.Undecidable("thread does not run trainSync directly")
        o = args[-1]
        return "start trainSync", [str(args[2]), args[4], args[5]] + flags(o)
    if m == "trainSync":
        return "trainSync", [str(args[1]), str(args[2]), args[3], args[4]] + flags(args[0])
    if m in ("saveSync",):
        return m, [args[1]]
    return None


def both(name, args):
    if name.startswith("spec:"):
        return name[5:], args
    return view(name, args)


def saving(ck):
    S = ck.summary(ck.prog.method(SNN, "saveAs"), args=[sym("path")], policy=POL)
    idle = mk("boolof", THIS["isIdle"])
    ck.equal("saving is refused exactly while training", S.throw_cond, not_(idle), S, **KW)
    ck.trace("an idle network is saved to the given path", S, [ev_("spec:saveSync", sym("path"), guard=idle)], view=both, **KW)


def lifecycle(ck):
    P = ck.prog
    data, wait, bs, fr = sym("data"), sym("wait"), sym("batchSize"), sym("freq")
    D, W = "<data>", "<wait>"
    joinable = mk("boolof", call_("std::thread::joinable", THIS["thread"]))

    def cmp(name, S, spec):
        ck.trace(name, S, spec, view=both, **KW)

    def start():
        S = ck.summary(P.method(SNN, "startTrainingAsync"), args=[LV("data"), bs, fr], policy=POL)
        cmp("startTrainingAsync: checks the data, stops and waits for the previous training, then starts exactly one, already marked as running and not to be stopped", S, [
            ev_("spec:validData", "<data>", bs), ev_("spec:join", TRUE, guard=joinable),
            ev_("spec:start trainSync", "<data>", bs, fr, FALSE, FALSE)])
        ck.equal("startTrainingAsync leaves the network training", S.this["isIdle"], FALSE, S, **KW)
        ck.equal("startTrainingAsync forgets earlier stop requests only", S.this["wantToStopTraining"], FALSE, S, **KW)
    ck.group("startTrainingAsync", start)

    def train():
        S = ck.summary(P.method(SNN, "train"), args=[LV("data"), LV("wait"), bs, fr], policy=POL)
        idle = mk("boolof", THIS["isIdle"])
        ck.equal("train refuses a network that is training", S.throw_cond, not_(idle), S, **KW)
        cmp("train: checks the data, refuses when training, closes the previous thread, then trains once", S, [
            ev_("spec:validData", "<data>", bs), ev_("spec:join", TRUE, guard=and_(joinable, idle)),
            ev_("spec:trainSync", "<data>", "<wait>", bs, fr, FALSE, FALSE, guard=idle)])
        for o in S.outs:
            if o.kind == "throw":
                for f in ("isIdle", "wantToStopTraining", "index", "epoch"):
                    ck.equal("a refused train changes nothing [%s]" % f, fld(o.st.store.get("this", THIS), f), THIS[f], S,
                             pre=band(*o.st.pc), **KW)
    ck.group("train", train)

    def stop():
        for m, what in (("stopTrainingAsync", "stopping"), ("~StraightforwardNeuralNetwork", "destroying")):
            S = ck.summary(P.method(SNN, m), args=[], policy=POL)
            cmp("%s a network requests the stop, then waits for the training thread" % what, S, [ev_("spec:join", TRUE, guard=joinable)])
            ck.no_throw("%s never fails" % what, S, **KW)
        S = ck.summary(P.method(SNN, "stopTrainingAsync"), args=[], policy=POL)
        ck.equal("a stop request reaches a training run by another thread's train()", S.this["wantToStopTraining"], TRUE, S, pre=not_(joinable), **KW)
        ck.equal("stopping changes no other state", with_(S.this, wantToStopTraining=THIS["wantToStopTraining"]), THIS, S, **KW)
    ck.group("stop", stop)

    def query():
        S = ck.summary(P.method(SNN, "isTraining"), args=[])
        ck.equal("isTraining is the opposite of idle", S.ret, not_(THIS["isIdle"]), S, **KW)
        saving(ck)
    ck.group("query", query)


def end_state(ck):
    def body():
        S, L = c27.train_summary(ck)
        kw = c27.loop_kw()
        kw["types"] = dict(kw["types"])
        for f, v in (("index", ZERO), ("isIdle", TRUE), ("wantToStopTraining", FALSE)):
            ck.equal("however training ends, %s is %s" % (f, show(v)), S.this[f], v, S, **kw)
        ck.no_throw("the training loop never ends by an exception of its own", S, **kw)

        def keep(S=S):
            # every effect of the loop sees the flags as they were: a stop request is never overwritten
            evs = [e for e in S.trace if e.args and e.args[0].op in ("obj", "sym") and e.name.startswith(("snn::Straight", "snn::internal::Neural", "snn::internal::Statist"))]
            FLAGS = ("wantToStopTraining", "isIdle")
            of = lambda o: [fld(o, f) for f in FLAGS]
            same = [THIS[f] for f in FLAGS]
            bad = [e for e in evs if of(e.args[0]) != same]
            name = "no stop request is overwritten while training runs (%d effects)" % len(evs)
            if not bad:
                return ck.rule(name, True if evs else None, "", S.site)
            # not the same term (a path that changes other state): the same value wherever the effect happens
            as_ = lambda e, v: Event("flags", v, e.guard, e.binders, e.site)
            ck.trace(name, S, [as_(e, same) for e in bad], events=[as_(e, of(e.args[0])) for e in bad], **kw)
        keep()
    ck.group("end of training", body)

    def ev():
        S, stop = c27.evaluate_summary(ck)
        kw = c27.loop_kw()
        kw["types"] = dict(kw["types"], wait="snn::Wait *")
        ck.equal("an evaluation that runs to its end changes no training flag", S.this["wantToStopTraining"], if_(stop, FALSE, THIS["wantToStopTraining"]), S, **kw)
        ck.equal("an evaluation that runs to its end leaves idleness alone", S.this["isIdle"], if_(stop, TRUE, THIS["isIdle"]), S, **kw)
    ck.group("evaluate", ev)


def initial(ck):
    P = ck.prog

    def body():
        for f in P.byq.get(SNN + "::StraightforwardNeuralNetwork", []):
            if f.get("kind") != "ctor" or nparams(f) == 1 and "StraightforwardNeuralNetwork" in str(f.get("pt") or f["params"][0]["t"]):
                continue
            if nparams(f) != 2:
                continue
            S = ck.summary(f, args=[sym("a%d" % i) for i in range(nparams(f))], cls=SNN, store={"this": mk("undef", SNN)},
                           policy=opaque_q("LayerFactory::build", "NeuralNetworkOptimizerFactory::build", "StatisticAnalysis::initialize", "NeuralNetwork::isValid", "NeuralNetwork::getNumberOfOutputs"))
            for x, v in (("isIdle", TRUE), ("wantToStopTraining", FALSE), ("index", ZERO), ("epoch", ZERO)):
                ck.equal("a new network starts with %s = %s" % (x, show(v)), S.this[x], v, S)
    ck.group("construction", body)


def run(ck):
    lifecycle(ck)
    end_state(ck)
    initial(ck)
