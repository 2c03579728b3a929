"""C30: temporal flags mark the right data."""
from ..data import *
from .c17 import Order


def B(x):
    return mk("boolof", t_(x))


def run(ck):
    shuffles = (0, 1, 2, 3) if ck.tier == "quick" else (0, 1, 2, 3, 4, 5, 6)

    def starts(s):
        """is datum p of the flattened sequences s the first of its own"""
        return lambda p: vany(length(s), lambda j: eq_(vsum(j, lambda q: length(s[q])), p))

    def ends(s):
        return lambda p: vany(length(s), lambda j: eq_(vsum(j + 1, lambda q: length(s[q])), p + 1))

    def one(d, nm, k):
        O = Order(d)
        n = O.n
        kw = dict(types=d.types, rules=d.rules(max_n=9), pre=d.ok)
        m = length(d.labels("testing"))
        first_t = d.at("isFirstTestingDataOfTemporalSequence")
        ev = d.at("needToEvaluateOnTestingData")
        s1, s2, s3, s4 = (d.call(q, sym("i")) for q in ("isFirstTrainingDataOfTemporalSequence", "needToLearnOnTrainingData",
                                                       "isFirstTestingDataOfTemporalSequence", "needToEvaluateOnTestingData"))
        if d.nature == "nonTemporal":
            ck.equal("%s: every training datum starts a sequence" % nm, vall(n, lambda i: B(O.first(i))), TRUE, s1, **kw)
            ck.equal("%s: every training datum is learned from" % nm, vall(n, lambda i: B(O.need(i))), TRUE, s2, **kw)
            ck.equal("%s: every testing datum is evaluated" % nm, vall(m, lambda i: B(ev(i))), TRUE, s4, **kw)
        elif d.nature == "sequential":
            ti, ei = sym("ti"), sym("ei" if d.both else "ti")
            st = starts(ti)

            def first_ok(i):
                return eq_(B(O.first(i)), vany(n, lambda p: and_(st(p), O.shows(i, p))))
            ck.equal("%s: exactly the first datum of each training sequence is marked" % nm, vall(n, first_ok), TRUE, s1, **kw)
            ck.equal("%s: every training datum is learned from" % nm, vall(n, lambda i: B(O.need(i))), TRUE, s2, **kw)
            ck.equal("%s: exactly the first datum of each testing sequence is marked" % nm, vall(m, lambda i: eq_(B(first_t(i)), starts(ei)(i))), TRUE, s3, **kw)
            ck.equal("%s: exactly the last datum of each testing sequence is evaluated" % nm, vall(m, lambda i: eq_(B(ev(i)), ends(ei)(i))), TRUE, s4, **kw)
        else:
            R = sym("R")
            ck.equal("%s: the memory is reset at the first testing datum only" % nm, vall(m, lambda i: eq_(B(first_t(i)), eq_(i, 0))), TRUE, s3, **kw)
            ck.equal("%s: every testing datum is evaluated" % nm, vall(m, lambda i: B(ev(i))), TRUE, s4, **kw)
            ck.equal("%s: the memory is reset at the first position" % nm, B(O.first(ZERO)), TRUE, s1, **kw)

            def F(i):
                return B(O.first(i))

            def window(w):
                """a complete window starts at position w"""
                return and_(F(w), w + R < n, not_(vany(R, lambda j: F(w + 1 + j))), or_(w + R + 1 >= n, F(w + R + 1)))
            if k == 0:
                ck.equal("%s: only the first position resets the memory" % nm, vall(n - 1, lambda i: not_(F(i + 1))), TRUE, s1, **kw)
                ck.equal("%s: every training datum is learned from" % nm, vall(n, lambda i: B(O.need(i))), TRUE, s2, **kw)
            else:
                def learned(w):
                    return vall(R + 1, lambda j: eq_(B(O.need(w + j)), eq_(j, R)))
                ck.equal("%s: of a window only the last datum is learned from" % nm, vall(n, lambda w: or_(not_(window(w)), learned(w))), TRUE, s2, **kw)
                off = num(k - 1) % (R + 1)
                ck.equal("%s: the windows start at each turn one datum later, and are complete" % nm,
                         vall(n, lambda i: or_(i < off, i + R - (i - off) % (R + 1) >= n, eq_(F(i), eq_((i - off) % (R + 1), 0)))), TRUE, s1, **kw)

                def lone(i):
                    """learned from, though not the last datum of a window"""
                    return and_(B(O.need(i)), i >= off, or_(i < off + R, not_(eq_((i - off) % (R + 1), R))))
                ck.equal("%s: data that only warm up the memory are not learned from" % nm, vall(n, lambda i: not_(lone(i))), TRUE, s2, **kw)
                ck.equal("%s: the data before the first window are presented in order and learned from" % nm,
                         vall(n, lambda i: or_(i >= off, and_(B(O.need(i)), eq_(F(i), eq_(i, 0)), O.shows(i, i)))), TRUE, s2, **kw)
                U = d.after("unshuffle")
                u = Order(U)
                us = d.call("unshuffle")
                ck.equal("%s, undone: only the first position resets the memory and every datum is learned from" % nm,
                         vall(n, lambda i: and_(eq_(B(u.first(i)), eq_(i, 0)), B(u.need(i)))), TRUE, us, **kw)
        if k and d.nature != "timeSeries":
            U = d.after("unshuffle")
            u = Order(U)
            us = d.call("unshuffle")
            spec = (lambda i: starts(sym("ti"))(i)) if d.nature == "sequential" else (lambda i: TRUE)
            ck.equal("%s, undone: the flags are those of the original order" % nm, vall(n, lambda i: and_(eq_(B(u.first(i)), spec(i)), B(u.need(i)))), TRUE, us, **kw)
    datasets(ck, one, problems=("regression",), shuffles=shuffles)
    datasets(ck, one, problems=("classification", "multipleClassification"), shuffles=(1,))
