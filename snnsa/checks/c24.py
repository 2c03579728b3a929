"""C24: activation functions, their derivatives and names agree."""
from ..lib import *

AF = NS + "ActivationFunction"


def E(x):
    return mk("call", "exp", t_(x))


def TH(x):
    return mk("call", "tanh", t_(x))


def sig(x):
    return rdiv(ONE, add(ONE, E(-x)))


half = num(Fraction(1, 2))
FORMULA = {
    "sigmoid": (sig, lambda x: sig(x) * (1 - sig(x))),
    "iSigmoid": (lambda x: sig(x) + x * num(Fraction(1, 20)), lambda x: sig(x) * (1 - sig(x)) + num(Fraction(1, 20))),
    "tanh": (TH, lambda x: 1 - TH(x) * TH(x)),
    "ReLU": (lambda x: if_(x > 0, x, ZERO), lambda x: if_(x > 0, ONE, ZERO)),
    # the approximation x * sigmoid(1.702 x)
    "GELU": (lambda x: x * sig(x * A), lambda x: sig(x * A) + x * A * sig(x * A) * (1 - sig(x * A))),
    "gaussian": (lambda x: E(-(x * x)), lambda x: x * E(-(x * x)) * -2),
    "identity": (lambda x: x, lambda x: ONE),
}
A = num(Fraction(1702, 1000))
RANGE = {"sigmoid": (0, 1), "iSigmoid": None, "tanh": (-1, 1), "ReLU": (0, None), "GELU": None, "gaussian": (0, 1), "identity": (None, None)}


def globals_(ck, I, st):
    """the library's own constants and static members, as their initialisers make them"""
    for q, v in ck.prog.vars.items():
        if "ActivationFunction" in (v.get("t") or "") and v.get("init"):
            I.set(st, LV("G:" + q), I.rv(v["init"], st))


def diffd(t, x):
    """derivative of a closed form"""
    if t is x:
        return ONE
    if not contains(t, lambda y: y is x):
        return ZERO
    if t.op == "poly":
        s = ZERO
        for m, c in t.args[0]:
            for i, (a, e) in enumerate(m):
                if not contains(a, lambda y: y is x) and a is not x:
                    continue
                p = num(c) * num(e)
                for j, (b, f) in enumerate(m):
                    k = f - (1 if i == j else 0)
                    for _ in range(abs(k)):
                        p = p * b if k > 0 else rdiv(p, b)
                s = s + p * diffd(a, x)
        return s
    if t.op == "ite":
        return if_(t.args[0], diffd(t.args[1], x), diffd(t.args[2], x))
    if t.op == "call" and len(t.args) == 2:
        u = t.args[1]
        du = diffd(u, x)
        g = {"exp": lambda: t, "tanh": lambda: 1 - t * t, "log": lambda: rdiv(ONE, u), "sqrt": lambda: rdiv(half, t), "log1p": lambda: rdiv(ONE, 1 + u),
             "expm1": lambda: t + 1, "cosh": lambda: mk("call", "sinh", u), "sinh": lambda: mk("call", "cosh", u)}.get(t.args[0])
        if g:
            return g() * du
    raise Skip("derivative of %s" % show(t, 3))


def run(ck):
    P = ck.prog
    names = [n for n in P.enums["snn::activation"]["e"]]
    names = [n["n"] if isinstance(n, dict) else n[0] if isinstance(n, (list, tuple)) else n for n in names]
    x = sym("x")
    types = {"x": "float"}

    def near(lo, hi):
        return [(r"x", lambda e, m: Fraction(e.rnd("x").randint(lo * 64, hi * 64), 64) if e.rnd("z").random() < .93 else 0)]
    extreme = [(r"x", lambda e, m: e.rnd("x").choice([-1, 1]) * e.rnd("y").choice([12, 25, 45, 60, 89, 100, 500, 3000]))]

    def one(name):
        I = ck.interp()
        st = State()
        globals_(ck, I, st)
        S = ck.summary(P.method(AF, "get"), args=[num(enum_value(P, "snn::activation", name))], store=dict(st.store), dyn=dict(I.dyn))
        ck.equal("selecting %s succeeds" % name, S.throw_cond, FALSE, S)
        r = S.ret
        if isinstance(r, T) and r.op == "addr":
            r = lv_of_addr(r)
        if not isinstance(r, LV) or r.path:
            r2 = S.I.get(S.returns.st.copy(), r) if isinstance(r, LV) else r
            if r2.op != "addr":
                raise Skip("the function selected is not a single object")
            r = lv_of_addr(r2)
        cls = S.I.dyn.get(r.root)
        if cls is None:
            raise Skip("class of the function selected is unknown")
        store = dict(S.returns.st.store)

        def call(m, *a):
            return ck.summary(P.method(cls, m), this=r, args=list(a), store=dict(store), dyn=dict(S.I.dyn), cls=cls)
        ty = call("getType")
        ck.equal("%s reports itself as %s" % (name, name), ty.ret, num(enum_value(P, "snn::activation", name)), ty)
        nm = call("getName")
        ck.equal("%s is called %s" % (name, name), nm.ret, string(name), nm)
        if name not in FORMULA:
            raise Skip("no documented formula for %s" % name)
        f, df = FORMULA[name]
        F, D = call("function", x), call("derivative", x)
        n = 4 * ck.n
        ck.equal("%s computes its formula" % name, F.ret, f(x), F, types=types, rules=near(-6, 6), n=n)
        ck.equal("%s computes its formula far from zero" % name, F.ret, f(x), F, types=types, rules=extreme, n=n)
        ck.equal("the derivative of %s" % name, D.ret, df(x), D, types=types, rules=near(-6, 6), n=n)
        ck.equal("the derivative of %s far from zero" % name, D.ret, df(x), D, types=types, rules=extreme, n=n)
        ck.equal("the derivative of %s is the derivative of the formula it computes" % name, D.ret, diffd(F.ret, x), D, types=types,
                 rules=[(r"x", lambda e, m: Fraction(e.rnd("x").choice([-1, 1]) * e.rnd("x2").randint(1, 380), 64))], n=n)
        for s, w in ((F, "function"), (D, "derivative")):
            for root, v in store.items():
                ck.equal("%s: %s has no effect" % (name, w), s.returns.st.store.get(root, v), v, s)
                break
        rg = RANGE[name]
        o = S.I.get(S.returns.st.copy(), r)
        if rg:
            for b, fd in zip(rg, ("min", "max")):
                if b is not None and fd in {q["n"] for q in P.fields(cls, True)}:
                    ck.equal("%s: declared %s" % (name, fd), o[fd], num(b), F)
    for n in names:
        ck.group(n, lambda: one(n))

    def distinct():
        I = ck.interp()
        st = State()
        globals_(ck, I, st)
        f = P.method(AF, "operator==")
        a, b = sym("a"), sym("b")
        S = ck.summary(f, args=[LV("other")], policy=opaque_q(r"\w+::getType"))
        g = lambda o: call_(AF + "::getType", o)
        ck.equal("two functions are equal exactly when of the same kind", S.ret, eq_(g(THIS), g(sym("other"))), S, types={"this": AF, "other": AF}, calltypes={AF + "::getType": "int"},
                 rules=[(r"CALL:.*getType", lambda e, a: e.rnd("t", str(e.freeze(a[0]))).randint(0, 1))])
        S = ck.summary(P.method(AF, "operator!="), args=[LV("other")], policy=opaque_q(r"\w+::getType"))
        ck.equal("and different otherwise", S.ret, not_(eq_(g(THIS), g(sym("other")))), S, types={"this": AF, "other": AF}, calltypes={AF + "::getType": "int"},
                 rules=[(r"CALL:.*getType", lambda e, a: e.rnd("t", str(e.freeze(a[0]))).randint(0, 1))])
    ck.group("comparison", distinct)
