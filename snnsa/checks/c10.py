"""C10: convolution and locally connected layers read the right window."""
from ..layers import *


def run(ck):
    P = ck.prog
    inputs = sym("inputs")

    def forward(kind, nd):
        b = built(ck, kind, nd)
        L, o = b.cls, abstract(b)
        kw = layer_kw(b, nd)
        S = ck.summary(P.method(L, "computeOutput"), args=[LV("inputs"), sym("reset")], store={"this": o}, cls=L, policy=opaque_q(r"\w*Neuron::output"))
        n = L.split("::")[-1]
        pos = positions(kind, nd)
        out = vmap(pos * F_, lambda j: call_(SN + "output", neuron_of(kind, idiv(j, F_), imod(j, F_)), window(kind, nd, idiv(j, F_), inputs)))
        ck.equal("%s: output [position, filter] is that filter's neuron on exactly the window's inputs" % n, S.ret, out, S, **kw)
        evs = loop_(pos, lambda k: loop_(F_, lambda f: [ev_(SN + "output", neuron_of(kind, k, f), window(kind, nd, k, inputs))]))
        ck.trace("%s: each neuron sees each of its windows once, by position" % n, S, evs, order=by_neuron, **kw)
        ck.equal("%s: one neuron per %s" % (n, "filter" if kind == "convolution" else "filter and position"), length(b.obj["neurons"]),
                 F_ if kind == "convolution" else pos * F_, b.S, **kw)
        ck.frame("%s: a forward pass changes nothing of the layer but its neurons" % n, S, {"this": o}, **kw)
        ck.no_throw("%s: no error" % n, S, **kw)
    for kind, nd in FILTERS:
        ck.group("%s %dD" % (kind, nd), lambda: forward(kind, nd))
