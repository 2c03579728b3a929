"""C37: networks and data sets share no mutable state."""
from ..lib import *
from .. import effects as fx


def run(ck):
    P = ck.prog

    def statics():
        vs = fx.storage(P)
        ck.rule("variables with static storage enumerated", True, "%d" % len(vs))
        for q, v, f in vs:
            where = f or v
            if fx.immutable(v):
                ck.rule("%s is constant, atomic or private to its thread" % q, True, v["t"], "%s:%s" % (where.get("file", ""), v.get("line", v.get("l", ""))))
                continue
            acc = list(fx.accesses(P, q, v, f))
            bad = [(g, n) for u, g, n in acc if u == "write"]
            esc = [(g, n) for u, g, n in acc if u == "escape"]
            nm = "%s, shared by all networks and data, is never changed" % q
            if bad:
                ck.rule(nm, False, "changed by " + "; ".join(fx.site(g, n) for g, n in bad[:6]), fx.site(*bad[0]))
            elif esc:
                ck.rule(nm, None, "a reference to it is handed out by " + "; ".join(fx.site(g, n) for g, n in esc[:4]), fx.site(*esc[0]))
            else:
                ck.rule(nm, True, "%d reads" % len(acc), "%s:%s" % (where.get("file", ""), v.get("line", v.get("l", ""))))
    ck.group("static storage", statics)

    def shared_objects():
        """objects reachable from several networks (the registry of activation functions) have no state that a call changes"""
        for cls in sorted(P.subclasses(NS + "ActivationFunction")):
            if cls not in P.recs:
                continue
            for m in P.recs[cls]["methods"]:
                fs = [f for f in P.byq.get(cls + "::" + m["n"], []) if f["key"] == m["key"] and f.get("kind") == "method" and f.get("body") is not None and not f.get("static")]
                for f in fs:
                    nm = "%s::%s leaves the shared activation function unchanged" % (cls.split("::")[-1], m["n"])

                    def one():
                        S = ck.summary(f, args=[sym("x%d" % i) if not p["t"].rstrip().endswith("&") else LV("a%d" % i) for i, p in enumerate(f["params"])], cls=cls)
                        ck.equal(nm, S.this, THIS, S, types={"this": cls})
                    ck.group(nm, one)
    ck.group("activation functions", shared_objects)

    def optimizer():
        """each network builds its own optimizer"""
        for f in P.byq.get(NN + "::NeuralNetwork", []):
            if f.get("kind") != "ctor" or len(f["params"]) != 2:
                continue
            S = ck.summary(f, args=[LV("architecture"), LV("optimizerModel")], policy=opaque_q("LayerFactory::build", "isValid"),
                           store={"architecture": sym("architecture"), "optimizerModel": sym("optimizerModel")})
            o = S.this["optimizer"]
            for x in leaves(o):
                ck.rule("a network builds an optimizer of its own", x.op == "addr" and str(x.args[0]).startswith("N"), show(x, 4), S.site)
    ck.group("optimizer", optimizer)


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]
