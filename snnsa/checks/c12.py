"""C12: max pooling outputs each window's maximum and routes its error there."""
from ..layers import *


def run(ck):
    P = ck.prog
    inputs, err = sym("inputs"), sym("inputErrors")

    def go(nd):
        b = built(ck, "maxPooling", nd)
        L, o = b.cls, abstract(b)
        n = L.split("::")[-1]
        ox = out_shape("maxPooling", nd)[0]
        pos = positions("maxPooling", nd)
        kw = layer_kw(b, nd, extra=[(r"inputErrors", lambda e, m: e.ev(pos * C_)), (r"model\.numberOfNeurons", 0),
                                    # distinct values: which of several equal maxima receives the error is left open
                                    (r"inputs\[(\d+)\]", lambda e, m: e.fresh(m.group(0), "float") + Fraction(int(m.group(1)) + 1, 10007))])
        ncell = K_ * K_ if nd == 2 else K_

        def maximum(k):
            """largest input of window k: position k / channels, channel k % channels"""
            p, c = idiv(k, C_), imod(k, C_)
            px, py = (imod(p, ox), idiv(p, ox)) if nd == 2 else (p, ZERO)
            at = lambda x, y: inputs[(y * X_ + x) * C_ + c] if nd == 2 else inputs[x * C_ + c]

            def step(i, best):
                x, y = px * K_ + imod(i, K_), py * K_ + idiv(i, K_)
                inside = and_(lt(x, X_), lt(y, Y_)) if nd == 2 else lt(x, X_)
                return if_(and_(inside, lt(best, at(x, y))), at(x, y), best)
            return vfold(ncell, [at(px * K_, py * K_)], step)
        S = ck.summary(P.method(L, "computeOutput"), args=[LV("inputs"), sym("reset")], store={"this": o}, cls=L)
        ck.equal("%s: each output is the largest input of its window and channel" % n, S.ret, vmap(pos * C_, maximum), S, **kw)
        after = S.this
        for f in ("numberOfInputs", "numberOfKernels", "numberOfOutputs", "shapeOfInput", "shapeOfOutput", "kernelSize", "kernelIndexes", "sizeOfNeuronInputs"):
            ck.equal("%s: a forward pass leaves the layer's structure alone [%s]" % (n, f), after[f], o[f], S, **kw)
        B = ck.summary(P.method(L, "computeBackOutput"), args=[LV("inputErrors")], store={"this": after, "inputs": inputs}, cls=L)

        def route(j):
            c, p = imod(j, C_), idiv(j, C_)
            x, y = (imod(p, X_), idiv(p, X_)) if nd == 2 else (p, ZERO)
            k = (idiv(y, K_) * ox + idiv(x, K_)) * C_ + c
            return if_(lt(inputs[j], maximum(k)), 0, err[k])
        total = C_ * X_ * Y_ if nd == 2 else C_ * X_
        ck.equal("%s: the error of each output returns to the input that was the maximum, every other input receives zero" % n, B.ret,
                 vmap(total, route), B, **kw)
        ck.equal("%s: the routing survives a second backward pass" % n, ck.summary(
            P.method(L, "computeBackOutput"), args=[LV("inputErrors")], store={"this": B.this}, cls=L).ret, vmap(total, route), B, **kw)
        S2 = ck.summary(P.method(L, "computeOutput"), args=[LV("again"), sym("reset")], store={"this": after}, cls=L)
        k2 = dict(kw, types=dict(kw["types"], again="std::vector<float>"),
                  rules=kw["rules"] + [(r"again", lambda e, m: len(e.value("inputs", "std::vector<float>")))])
        ck.equal("%s: the outputs do not depend on earlier inputs" % n, S2.ret, subst(vmap(pos * C_, maximum), {inputs: sym("again")}), S2, **k2)
        T = ck.summary(P.method(L, "computeTrain"), args=[LV("inputErrors")], store={"this": o}, cls=L)
        ck.frame("%s: nothing to train" % n, T, {"this": o}, **kw)
    for nd in (1, 2):
        ck.group("max pooling %dD" % nd, lambda: go(nd))
