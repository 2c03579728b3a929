"""C22: stop conditions."""
from ..lib import *

W = "snn::Wait"
LIMITS = ("epochs", "accuracy", "mae", "duration")
MS = 10 ** 6


def value_rules():
    """limits are unset (-1) or at least zero; small ranges so that they meet the progress values"""
    pick = lambda e, m: e.rnd(m.group(0)).choice([-1, -1, 0, 1, 2, 3])
    return [(r"\w+\.(epochs|accuracy|mae|duration)", pick), (r"(e|a|m)", lambda e, m: e.rnd(m.group(0)).choice([0, 1, 2, 3, 4])),
            (r"\w+\.(start|lastTick|lastReset)", 0), (r"CALL:now", lambda e, a: e.rnd("now").choice([0, 1, 2, 3, 4]) * MS + 17)]


KW = dict(types={"this": W, "wait": W, "e": "int", "a": "float", "m": "float", "v": "int", "r": "float"})


def run(ck):
    P = ck.prog
    ops = {x: enum_value(P, "snn::waitOperator", x) for x in ("noneOp", "andOp", "orOp")}
    e, a, m = sym("e"), sym("a"), sym("m")
    kw = dict(KW, rules=value_rules())
    now = mk("call", "now", num(0))
    elapsed = lambda w: idiv(now - w["start"], num(MS))

    def met(w):
        return {"epochs": and_(e > w["epochs"], e > 0), "accuracy": and_(a >= w["accuracy"], a > 0),
                "mae": and_(m <= w["mae"], m > 0), "duration": elapsed(w) >= w["duration"]}

    def is_set(w, f):
        return w[f] >= 0

    def over(w, all_=False):
        mt = met(w)
        if all_:
            return and_(*[or_(mt[f], not_(is_set(w, f))) for f in LIMITS])
        return or_(*[and_(mt[f], is_set(w, f)) for f in LIMITS])

    def any_set(w):
        return or_(*[is_set(w, f) for f in LIMITS])

    def is_over(w, **k):
        S = ck.summary(P.method(W, "isOver"), args=[e, a, m], store={"this": w})
        return S.ret, S

    def single():
        for f in LIMITS:
            others = and_(*[not_(is_set(THIS, g)) for g in LIMITS if g != f])
            w = with_(THIS, **{g: -1 for g in LIMITS if g != f})
            for nm, op in ops.items():
                r, S = is_over(with_(w, op=op))
                ck.equal("a condition on %s alone is over exactly when it is met [%s]" % (f, nm), r, met(w)[f], S, pre=is_set(THIS, f), **kw)
        r, S = is_over(with_(THIS, op=ops["noneOp"], **{g: -1 for g in LIMITS}))
        ck.equal("no condition is never over", r, FALSE, S, **kw)
        ck.frame("asking changes nothing", S, {"this": with_(THIS, op=ops["noneOp"], **{g: -1 for g in LIMITS})}, **kw)
    ck.group("single", single)

    def combine(oper, opname, all_):
        f = P.method(W, oper)
        w1, w2 = THIS, sym("wait")
        for n1 in ("noneOp", opname):
            for n2 in ("noneOp", opname):
                a1, a2 = with_(w1, op=ops[n1]), with_(w2, op=ops[n2], start=w1["start"])
                S = ck.summary(f, args=[LV("wait")], store={"this": a1, "wait": a2})
                ck.no_throw("%s accepts %s and %s" % (oper, n1, n2), S, **kw)
                r, SO = is_over(S.this)
                want = (and_ if all_ else or_)(over(a1, all_), over(a2, all_))
                pre = and_(any_set(a1), any_set(a2))
                ck.equal("%s of %s and %s conditions is over %s" % (oper, n1, n2, "once both are" if all_ else "as soon as one is"),
                         r, want, SO, pre=pre, n=12 * ck.n, **kw)
                ck.equal("%s keeps the other operand" % oper, S.final("wait"), a2, S, **kw)
                # the combination keeps refusing to be mixed
                ck.equal("%s result remembers its operator" % oper, S.this["op"], num(ops[opname]), S, **kw)
                ck.equal("%s yields the combination" % oper, S.deref(S.ret) if S.ret.op == "addr" else S.ret, S.this, S, **kw)
        S = ck.summary(f, args=[LV("wait")])
        other = ops["orOp" if all_ else "andOp"]
        ck.equal("%s refuses an operand built with the other operator, on either side" % oper, S.throw_cond,
                 or_(eq_(w1["op"], other), eq_(w2["op"], other)), S, n=4 * ck.n, **kw)
    ck.group("or", lambda: combine("operator||", "orOp", False))
    ck.group("and", lambda: combine("operator&&", "andOp", True))

    def literals():
        v = sym("v")
        for lit, f, val in (("_ep", "epochs", v), ("_acc", "accuracy", sym("r")), ("_mae", "mae", sym("r")), ("_ms", "duration", v),
                            ("_s", "duration", v * 1000), ("_min", "duration", v * 60000)):
            S = ck.summary(P.find('snn::operator""%s' % lit), args=[sym("r") if val is sym("r") else v])
            o = S.deref(S.ret) if S.ret.op == "addr" else S.ret
            for g in LIMITS:
                ck.equal("literal %s sets %s and nothing else [%s]" % (lit, f, g), o[g], val if g == f else num(-1), S, **KW)
            ck.equal("literal %s is a plain condition" % lit, o["op"], num(ops["noneOp"]), S, **KW)
    ck.group("literals", literals)

    def clock():
        S = ck.summary(P.method(W, "startClock"), args=[])
        ck.equal("the clock starts now", S.this["start"], now, S, **kw)
        ck.frame("starting the clock changes no condition", S, {"this": THIS}, transient={"this": ["start", "lastTick", "lastReset"]}, **kw)
        for mth in ("tick", "getDuration", "getDurationAndReset"):
            S = ck.summary(P.method(W, mth), args=[])
            ck.frame("%s leaves the conditions and their clock alone" % mth, S, {"this": THIS}, transient={"this": ["lastTick", "lastReset"]}, **kw)
            ck.record("%s analysed" % mth, "discharged", "rule: frame computed", S.site)
    ck.group("clock", clock)
