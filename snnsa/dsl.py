"""Specification notation: specifications are terms of the same value-graph language."""
import itertools
from .terms import *
from . import terms as tm

_c = itertools.count(1)


def t_(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if x is None:
        return NULL
    if isinstance(x, str):
        return string(x)
    return num(x)


def _getitem(self, k):
    if isinstance(k, str):
        r = self
        for p in k.split("."):
            r = fld(r, p)
        return r
    return read(self, t_(k))


T.__add__ = lambda a, b: add(a, t_(b))
T.__radd__ = lambda a, b: add(t_(b), a)
T.__sub__ = lambda a, b: sub(a, t_(b))
T.__rsub__ = lambda a, b: sub(t_(b), a)
T.__mul__ = lambda a, b: mul(a, t_(b))
T.__rmul__ = lambda a, b: mul(t_(b), a)
T.__truediv__ = lambda a, b: rdiv(a, t_(b))
T.__rtruediv__ = lambda a, b: rdiv(t_(b), a)
T.__floordiv__ = lambda a, b: idiv(a, t_(b))
T.__mod__ = lambda a, b: imod(a, t_(b))
T.__neg__ = lambda a: neg(a)
T.__getitem__ = _getitem
T.__lt__ = lambda a, b: lt(a, t_(b))
T.__le__ = lambda a, b: le(a, t_(b))
T.__gt__ = lambda a, b: lt(t_(b), a)
T.__ge__ = lambda a, b: le(t_(b), a)
T.__iter__ = None


def fresh(p="s"):
    return "%s%d!" % (p, next(_c))


def vmap(n, f):
    k = fresh()
    return mkmap(t_(n), k, t_(f(mk("lv", k))))


def vsum(n, f):
    k = fresh()
    return msum(t_(n), k, t_(f(mk("lv", k))))


def vany(n, f):
    k = fresh()
    return many(t_(n), k, t_(f(mk("lv", k))))


def vall(n, f):
    k = fresh()
    return mall(t_(n), k, t_(f(mk("lv", k))))


def vfirst(n, f):
    k = fresh()
    return mfirst(t_(n), k, t_(f(mk("lv", k))))


def vscat(base, n, idx, val, guard=TRUE, kind="+"):
    """for i<n: base[idx(i)] += val(i) when guard(i)"""
    k = fresh()
    i = mk("lv", k)
    idx_, val_ = t_(idx(i)), t_(val(i))
    g = t_(guard(i)) if callable(guard) else guard
    lv, a, b, c = close(k, idx_, val_, g)
    return scat(base, kind, (t_(n),), c, (a,), b, (lv,))


def zeros(n):
    return resize(lst(), t_(n), ZERO)


def with_(o, **kw):
    for f, v in kw.items():
        o = setf(o, f, t_(v))
    return o


def and_(*xs):
    return band(*[t_(x) for x in xs])


def or_(*xs):
    return bor(*[t_(x) for x in xs])


def not_(x):
    return bnot(t_(x))


def eq_(a, b):
    return eq(t_(a), t_(b))


def if_(c, a, b):
    return ite(t_(c), t_(a), t_(b))


def vfold(n, inits, f, pick=0):
    """value number `pick` after n iterations of vals = f(i, *vals)"""
    inits = [t_(x) for x in inits]
    k = fresh()
    hv = [fresh() for _ in inits]
    vals = [mk("lv", h) for h in hv]
    nx = f(mk("lv", k), *vals)
    nx = [t_(x) for x in (nx if isinstance(nx, (list, tuple)) else [nx])]
    lev = 1 + max([p.lev for p in nx] + [0])
    m = {mk("lv", k): mk("bv", lev)}
    for i, v in enumerate(vals):
        m[v] = mk("bv", lev + 1 + i)
    return mk("fold", t_(n), lev, tuple(inits), tuple(subst(p, m) for p in nx), pick)


def ev_(name, *args, guard=TRUE):
    from .interp import Event
    return Event(name, [t_(a) for a in args], guard)


def loop_(n, f):
    """events of a loop: f(i) -> list of events"""
    from .interp import Event
    k = fresh()
    return [Event(e.name, e.args, e.guard, ((k, t_(n)),) + tuple(e.binders)) for e in f(mk("lv", k))]


def call_(name, *args):
    return mk("call", name, *[t_(a) for a in args])
