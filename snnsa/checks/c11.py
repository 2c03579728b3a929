"""C11: window layers return each error to the inputs that caused it."""
from ..layers import *


def run(ck):
    P = ck.prog
    err = sym("inputErrors")

    def pieces(kind, nd):
        b = built(ck, kind, nd)
        pos = positions(kind, nd)
        kw = layer_kw(b, nd, extra=[(r"inputErrors", lambda e, m: e.ev(pos * F_))])
        return b, b.cls, abstract(b), pos, kw, b.cls.split("::")[-1]

    def backward(kind, nd):
        b, L, o, pos, kw, n = pieces(kind, nd)
        S = ck.summary(P.method(L, "computeBackOutput"), args=[LV("inputErrors")], store={"this": o}, cls=L,
                       policy=opaque_q(r"\w*Neuron::backOutput"))
        total = C_ * X_ * Y_ if nd == 2 else C_ * X_
        nc = cells(nd)

        def back(pick):
            """every window cell adds its error to the input it reads"""
            o_ = lambda t: idiv(t, nc)
            cell = lambda t: cell_index(kind, nd, pick(o_(t)), imod(t, nc))
            return vscat(zeros(total), pos * F_ * nc, lambda t: cell(t)[1],
                         lambda t: call_(SN + "backOutput", neuron_of(kind, idiv(o_(t), F_), imod(o_(t), F_)), err[o_(t)])[imod(t, nc)],
                         lambda t: cell(t)[0])
        known = []
        if (kind, nd) == ("locallyConnected", 1):
            known = [("K4", back(lambda t: imod(t, pos)))]
        ck.equal("%s: each input receives the errors of all the window cells that read it" % n, S.ret, back(lambda t: idiv(t, F_)), S, known=known, **kw)
        evs = loop_(pos, lambda k: loop_(F_, lambda f: [ev_(SN + "backOutput", neuron_of(kind, k, f), err[k * F_ + f])]))
        ck.trace("%s: each neuron is trained with the error of each of its positions" % n, S, evs, order=by_neuron, **kw)
        ck.frame("%s: a backward pass changes nothing of the layer but its neurons" % n, S, {"this": o}, **kw)

    def train(kind, nd):
        b, L, o, pos, kw, n = pieces(kind, nd)
        S = ck.summary(P.method(L, "computeTrain"), args=[LV("inputErrors")], store={"this": o}, cls=L, policy=opaque_q(r"\w*Neuron::train"))
        evs = loop_(pos, lambda k: loop_(F_, lambda f: [ev_(SN + "train", neuron_of(kind, k, f), err[k * F_ + f])]))
        ck.trace("%s as first layer: each neuron is trained with the error of each of its positions" % n, S, evs, order=by_neuron, **kw)
        ck.frame("%s as first layer: training changes nothing of the layer but its neurons" % n, S, {"this": o}, **kw)
    for kind, nd in FILTERS:
        ck.group("%s %dD backward" % (kind, nd), lambda: backward(kind, nd))
        ck.group("%s %dD train" % (kind, nd), lambda: train(kind, nd))
