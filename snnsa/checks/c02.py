"""C02: a copied network is complete and independent."""
from ..lib import *
from . import c01, c20

# members a copy need not carry over, and why
EXEMPT = {
    SNN: {"thread": "a copy is idle", "wantToStopTraining": "a copy is idle", "isIdle": "a copy is idle, the original must be"},
    NS + "Dropout": {"dist": "stateless distribution"},
    NS + "GatedRecurrentUnit": {"errors": "scratch, overwritten before use"},
}
GATED = NS + "GatedRecurrentUnit"


def clones(P, base):
    """concrete classes below base, i.e. those that define how they are cloned"""
    return [c for c in P.subclasses(base) if P.byq.get(c + "::clone") and any(f.get("body") for f in P.byq[c + "::clone"])]


def own(P, cls):
    """(class, member) of all members, inherited ones included, that a copy has to carry over"""
    return [(q, f) for q in P.bases(cls) if q in P.recs for f in c01.known_fields(P, q) if f not in EXEMPT.get(q, {})]


def cloned_neurons(P, cls, ns, opt):
    elt = next((f["t"] for f in P.fields(cls) if f["n"] == "neurons"), "")
    n = length(ns)
    if "GatedRecurrentUnit" in elt:
        gates = [f["n"] for f in P.fields(GATED) if f["t"].endswith("RecurrentNeuron")]

        def g(u):
            for x in gates:
                u = setf(u, x, with_(u[x], optimizer=opt))
            return u
        return vmap(n, lambda i: g(ns[i]))
    return vmap(n, lambda i: with_(ns[i], optimizer=opt))


def run(ck):
    P = ck.prog
    opt = sym("opt")

    # ---- layers
    layers = clones(P, NS + "BaseLayer")
    ck.rule("every layer class defines how it is cloned", {c.split("::")[-1] for c in layers} >=
            {"FullyConnected", "Recurrence", "GruLayer", "Convolution1D", "Convolution2D", "LocallyConnected1D", "LocallyConnected2D", "MaxPooling1D", "MaxPooling2D"},
            "clone() only in %s" % layers, "layer/")
    kw = dict(types={"opt": "std::shared_ptr<%sNeuralNetworkOptimizer>" % NS},
              calltypes={NS + "LayerOptimizer::clone": "int"})

    def layer(c):
        noneuron = "Pooling" in c
        k = dict(kw, types=dict(kw["types"], this=c))
        if noneuron:
            k["rules"] = [(r"this\.neurons", 0)]

        def go():
            S = ck.summary(P.method(c, "clone"), args=[opt], cls=c)
            o = S.ret
            if o.op != "addr":
                raise Skip("clone does not return a new object")
            root = o.args[0]
            ck.rule("%s is cloned as a %s" % (c, c), S.I.dyn.get(root) == c, "the clone is a %s" % S.I.dyn.get(root), S.site)
            new = S.get(lv_of_addr(o))
            for q, f in own(P, c):
                if f == "neurons":
                    want = THIS["neurons"] if noneuron else cloned_neurons(P, c, THIS["neurons"], opt)
                elif f == "optimizers":
                    want = vmap(length(THIS["optimizers"]), lambda i: call_(NS + "LayerOptimizer::clone", deref(THIS["optimizers"][i]), o))
                else:
                    want = THIS[f]
                member(ck, "%s: the clone has the original's %s%s" % (c.split("::")[-1], f,
                         " and its own optimizer" if f == "neurons" else ", each duplicated for the new layer" if f == "optimizers" else ""), new, f, want, S, **k)
            ck.equal("%s: cloning leaves the original as it is" % c.split("::")[-1], S.this, THIS, S, **k)
        ck.group("%s::clone" % c, go)
    for c in layers:
        layer(c)

    # ---- layer optimizers
    def lopt(c):
        def go():
            S = ck.summary(P.method(c, "clone"), args=[sym("newLayer")], cls=c, policy=opaque_q("BaseLayer::.*"))
            o = S.ret
            if o.op != "addr":
                raise Skip("clone does not return a new object")
            ck.rule("%s is cloned as a %s" % (c, c), S.I.dyn.get(o.args[0]) == c, "the clone is a %s" % S.I.dyn.get(o.args[0]), S.site)
            new = S.get(lv_of_addr(o))
            for q, f in own(P, c):
                member(ck, "%s: the clone %s" % (c.split("::")[-1], "refers to the new layer" if f == "layer" else "has the original's %s" % f),
                       new, f, sym("newLayer") if f == "layer" else THIS[f], S, types={"this": c, "newLayer": NS + "BaseLayer *"})
        ck.group("%s::clone" % c, go)
    for c in clones(P, NS + "LayerOptimizer"):
        lopt(c)

    def nopt(c):
        def go():
            S = ck.summary(P.method(c, "clone"), cls=c)
            o = S.ret
            ck.rule("%s: the clone is another object" % c.split("::")[-1], o.op == "addr" and S.I.dyn.get(o.args[0]) == c, "clone returns %s" % show(o, 3), S.site)
            if o.op != "addr":
                return
            new = S.get(lv_of_addr(o))
            for q, f in own(P, c):
                member(ck, "%s: the clone has the original's %s" % (c.split("::")[-1], f), new, f, THIS[f], S, types={"this": c})
        ck.group("%s::clone" % c, go)
    for c in clones(P, NS + "NeuralNetworkOptimizer"):
        nopt(c)

    # ---- networks
    other = sym("other")

    def network():
        fs = [f for f in P.byq.get(SNN + "::StraightforwardNeuralNetwork", []) if f.get("copy")]
        if len(fs) != 1:
            raise Skip("no single copy constructor")
        I = ck.interp()
        st = State()
        I.default_init(SNN, LV("fresh"), st)
        S = ck.summary(fs[0], this="copy", args=[LV("other")], cls=SNN, store={"copy": I.get(st, LV("fresh"))},
                       policy=opaque_q(r"(\w+)::clone", r"BaseLayer::.*"))
        k = dict(types={"other": SNN}, calltypes={NS + "NeuralNetworkOptimizer::clone": "std::shared_ptr<%sNeuralNetworkOptimizer>" % NS,
                                                  NS + "BaseLayer::clone": "std::unique_ptr<%sBaseLayer>" % NS, NS + "BaseLayer::getNumberOfInputs": "int",
                                                  NS + "BaseLayer::getNumberOfNeurons": "int", NS + "BaseLayer::getShapeOfOutput": "std::vector<int>"})
        ck.equal("copying is refused exactly while the original is training", S.throw_cond, not_(mk("boolof", other["isIdle"])), S, **k)
        new = S.get(LV("copy"))
        idle = dict(k, pre=mk("boolof", other["isIdle"]), rules=[(r"other\.isIdle", lambda e, m: e.rnd("idle").random() < .9)])
        for f in [x for q, x in own(P, SNN) if q == SNN] + ["outputNan", "numberOfTraining"]:
            member(ck, "the copy has the original's %s" % f, new, f, other[f], S, **idle)
        ck.equal("the copy is idle", new["isIdle"], TRUE, S, **idle)
        co = new["optimizer"]
        ck.equal("the copy has its own network optimizer, a clone of the original's", co, call_(NS + "NeuralNetworkOptimizer::clone", deref(other["optimizer"])), S, **idle)
        L = other["layers"]
        ck.equal("the copy has a clone of every layer, in order, each given the copy's own optimizer", new["layers"],
                 vmap(length(L), lambda i: call_(NS + "BaseLayer::clone", deref(L[i]), co)), S, **idle)
        for get, f in c20.MAXS + c20.MINS:
            for g in ("get" + get, "get" + get + ("Max" if (get, f) in c20.MAXS else "Min")):
                m = P.method(c20.SA, g)
                ck.equal("the copy reports the original's %s" % g[3:], ck.summary(m, this=LV("copy"), store=S.returns.st.store).ret,
                         ck.summary(m, this=LV("other")).ret, S, **idle)
        ck.equal("copying leaves the original as it is", S.get(LV("other")), other, S, **idle)
    ck.group("copying a network", network)
