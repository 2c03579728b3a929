"""Hash-consed value-graph terms with polynomial normal forms.

Everything the abstract interpreter derives is one of these terms.  Numeric terms
are kept as polynomials with rational coefficients over opaque atoms, booleans as
flattened and/or/not over comparisons, aggregates as functional updates, loops as
closed binder forms (map / sum / scatter / any / first / fold).
"""
from fractions import Fraction
import itertools

_tab = {}
_BIND1 = {"map", "sum", "any", "first", "prod"}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "id", "lvs", "lev", "size", "fb", "pp", "__weakref__")

    def __repr__(self):
        return show(self, 6)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    t.id = next(_ids)
    lvs, lev, size = frozenset(), 0, 1
    if op == "lv":
        lvs = frozenset((args[0],))
    elif op == "bv":
        lev = args[0]
    else:
        for a in _children(args):
            if a.lvs:
                lvs = lvs | a.lvs if lvs else a.lvs
            if a.lev > lev:
                lev = a.lev
            size += a.size
    if op in _BIND1:
        lev = max(lev, args[1])
    elif op == "scat":
        lev = max((lev,) + args[6])
    elif op == "fold":
        lev = max(lev, args[1] + len(args[2]))
    t.lvs, t.lev, t.size, t.fb, t.pp = lvs, lev, size, None, None
    _tab[key] = t
    return t


def _children(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _children(a)


def children(t):
    return list(_children(t.args))


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")
NULL = mk("null")
UNIT = mk("unit")


def sym(name, *args):
    return mk("sym", name, *args)


def string(s):
    return mk("str", s)


def isnum(t):
    return t.op == "num"


# ---------------------------------------------------------------- polynomials
def _poly(t):
    """-> dict monomial -> coeff ; monomial = tuple((atom, exp)) sorted by atom id"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "true":
        return {(): Fraction(1)}
    if t.op == "false":
        return {}
    return {((t, 1),): Fraction(1)}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", items)


def _mmul(m1, m2):
    e = {}
    for a, x in m1:
        e[a] = e.get(a, 0) + x
    for a, x in m2:
        e[a] = e.get(a, 0) + x
    return tuple(sorted(((a, x) for a, x in e.items() if x), key=lambda ax: ax[0].id))


def add(*ts):
    d = {}
    for t in ts:
        if t.op == "ite" and False:
            pass
        for m, c in _poly(t).items():
            d[m] = d.get(m, 0) + c
    return _unpoly(d)


def mul(*ts):
    d = {(): Fraction(1)}
    for t in ts:
        p = _poly(t)
        if len(d) * len(p) > 400:   # keep products of big sums opaque
            d = {((_unpoly(d), 1),): Fraction(1)}
            p = {((t, 1),): Fraction(1)}
        n = {}
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m = _mmul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        d = n
    return _unpoly(d)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def inv(t):
    p = _poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return _unpoly({tuple((a, -x) for a, x in m): 1 / c})
    if not p:
        return mk("inv0")
    # normalise leading coefficient
    lead = min(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1]
    q = _unpoly({m: c / lead for m, c in p.items()})
    return _unpoly({((q, -1),): 1 / lead})


def rdiv(a, b):
    return mul(a, inv(b))


def idiv(a, b):
    if b is ONE:
        return a
    if isnum(a) and isnum(b) and b.args[0]:
        q = a.args[0] / b.args[0]
        return num(int(q))  # trunc
    if a is ZERO:
        return ZERO
    return mk("idiv", a, b)


def imod(a, b):
    if isnum(a) and isnum(b) and b.args[0]:
        q = int(a.args[0] / b.args[0])
        return num(a.args[0] - q * b.args[0])
    if b is ONE or a is ZERO:
        return ZERO
    return mk("mod", a, b)


def trunc(t):
    if isnum(t):
        return num(int(t.args[0]))
    return mk("trunc", t)


def isint_const(t):
    return t.op == "num" and t.args[0].denominator == 1


def polyitems(t):
    return _poly(t)


# ---------------------------------------------------------------- booleans
def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return bor(*[bnot(x) for x in t.args])
    if t.op == "or":
        return band(*[bnot(x) for x in t.args])
    if t.op == "num":
        return FALSE if t.args[0] else TRUE
    return mk("not", t)


def band(*ts):
    out = {}
    for t in ts:
        for x in (t.args if t.op == "and" else (t,)):
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            out[x] = 1
    for x in out:
        if bnot(x) in out:
            return FALSE
    # absorption: a & (a|b) -> a ; a & (!a | b) -> a & b
    items = list(out)
    changed = False
    for x in items:
        if x.op == "or":
            if any(y in out for y in x.args):
                del out[x]
                continue
            keep = tuple(y for y in x.args if bnot(y) not in out)
            if len(keep) != len(x.args):
                del out[x]
                out[bor(*keep)] = 1
                changed = True
    if changed:
        return band(*out)
    xs = sorted(out, key=lambda t: t.id)
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk("and", *xs)


def bor(*ts):
    out = {}
    for t in ts:
        for x in (t.args if t.op == "or" else (t,)):
            if x is TRUE:
                return TRUE
            if x is FALSE:
                continue
            out[x] = 1
    for x in out:
        if bnot(x) in out:
            return TRUE
    items = list(out)
    changed = False
    for x in items:
        if x.op == "and":
            if any(y in out for y in x.args):
                del out[x]
                continue
            keep = tuple(y for y in x.args if bnot(y) not in out)
            if len(keep) != len(x.args):
                del out[x]
                out[band(*keep)] = 1
                changed = True
    if changed:
        return bor(*out)
    xs = sorted(out, key=lambda t: t.id)
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mk("or", *xs)


def _scale(d):
    """positive scaling normal form of a polynomial"""
    p = _poly(d)
    if not p:
        return d
    lead = min(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1]
    return _unpoly({m: c / abs(lead) for m, c in p.items()})


def lt(a, b):
    d = sub(a, b)
    if isnum(d):
        return TRUE if d.args[0] < 0 else FALSE
    return mk("lt", _scale(d))


def le(a, b):
    return bnot(lt(b, a))


NUMOPS = {"num", "poly", "idiv", "mod", "trunc", "len", "sum", "maxf", "minf"}


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x is TRUE and isbool(y):
            return y
        if x is FALSE and isbool(y):
            return bnot(y)
    if a.op == "num" and b.op == "num":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op in ("str", "null", "enumtype") and b.op in ("str", "null"):
        return TRUE if a is b else FALSE
    if a.op == "addr" and b.op == "null" or b.op == "addr" and a.op == "null":
        return FALSE
    if a.op == "addr" and b.op == "addr" and a.args[1:] != b.args[1:] and not any(isinstance(s, T) for s in a.args):
        pass
    if a.op == "ite" and (isnum(b) or b.op in ("null", "str")) and (isnum(a.args[1]) or isnum(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (isnum(a) or a.op in ("null", "str")):
        return eq(b, a)
    if a.op in NUMOPS or b.op in NUMOPS:
        d = sub(a, b)
        if isnum(d):
            return TRUE if d.args[0] == 0 else FALSE
        s = _scale(d)
        n = _scale(neg(d))
        return mk("eq0", s if s.id < n.id else n)
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("eqv", x, y)


BOOLOPS = {"true", "false", "not", "and", "or", "lt", "eq0", "eqv", "any", "all", "boolof"}


def isbool(t):
    return t.op in BOOLOPS or (t.op == "ite" and isbool(t.args[1]) and isbool(t.args[2]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isbool(a) and isbool(b):
        return bor(band(c, a), band(bnot(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c1, a, ite(c2, a, b)) -> ite(c1|c2, a, b)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(bor(c, bnot(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    if a.op == "obj" or b.op == "obj":
        r = _join_obj(c, a, b)
        if r is not None:
            return r
    if a.op == "upd" and a.args[0] is b:
        return upd(b, a.args[1], ite(c, a.args[2], read(b, a.args[1])))
    if b.op == "upd" and b.args[0] is a:
        return upd(a, b.args[1], ite(c, read(a, b.args[1]), b.args[2]))
    if a.op == "upd" and b.op == "upd" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return upd(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if a.op == "scat" and a.args[0] is b:
        return scat(b, a.args[1], a.args[2], band(c, a.args[3]), a.args[4], a.args[5], a.args[6])
    if b.op == "scat" and b.args[0] is a:
        return scat(a, b.args[1], b.args[2], band(bnot(c), b.args[3]), b.args[4], b.args[5], b.args[6])
    return mk("ite", c, a, b)


def boolof(t):
    """value used as a condition"""
    if isbool(t):
        return t
    if t.op == "num":
        return TRUE if t.args[0] else FALSE
    if t.op == "null":
        return FALSE
    if t.op == "addr":
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], boolof(t.args[1]), boolof(t.args[2]))
    if t.op in ("idiv", "mod", "len", "poly", "trunc"):
        return bnot(eq(t, ZERO))
    return mk("boolof", t)


# ---------------------------------------------------------------- aggregates
def fld(o, f):
    if o.op == "obj":
        for k, v in o.args[1]:
            if k == f:
                return v
        return fld(o.args[0], f)
    if o.op == "ite":
        a, b = fld(o.args[1], f), fld(o.args[2], f)
        return ite(o.args[0], a, b)
    return mk("fld", o, f)


def setf(o, f, v):
    base, d = o, {}
    if o.op == "obj":
        base, d = o.args[0], dict(o.args[1])
    d[f] = v
    if fld(base, f) is v:
        d.pop(f)
    if not d:
        return base
    return mk("obj", base, tuple(sorted(d.items())))


def _join_obj(c, a, b):
    ba = a.args[0] if a.op == "obj" else a
    bb = b.args[0] if b.op == "obj" else b
    if ba is not bb:
        return None
    fs = {k for o in (a, b) if o.op == "obj" for k, _ in o.args[1]}
    r = ba
    for f in sorted(fs):
        r = setf(r, f, ite(c, fld(a, f), fld(b, f)))
    return r


def length(a):
    op = a.op
    if op in ("upd", "scat"):
        return length(a.args[0])
    if op == "map":
        return a.args[0]
    if op == "resize":
        return a.args[1]
    if op == "lst":
        return num(len(a.args))
    if op == "str":
        return num(len(a.args[0]))
    if op == "ite":
        return ite(a.args[0], length(a.args[1]), length(a.args[2]))
    if op == "concat":
        return add(*[length(x) for x in a.args])
    if op == "slice":
        return sub(a.args[2], a.args[1])
    if op == "rev":
        return length(a.args[0])
    return mk("len", a)


def iter_at(it, k):
    """the iterator at position k of the sequence the iterator walks"""
    return mk("iter", it.args[0], it.args[1], k, *it.args[3:])


def iter_ix(it, t=None):
    """the index of the element t positions further; a fourth argument makes the iterator walk backwards from there"""
    k = it.args[2] if t is None else add(it.args[2], t)
    return sub(sub(it.args[3], ONE), k) if len(it.args) > 3 else k


def mkmap(n, lvname, body):
    """map over [0,n): body has free loop var lvname"""
    # eta: map(len(a), i. a[i]) -> a
    if body.op == "read" and body.args[1].op == "lv" and body.args[1].args[0] == lvname and lvname not in body.args[0].lvs \
            and length(body.args[0]) is n:
        return body.args[0]
    k, b = close(lvname, body)
    return mk("map", n, k, b)


def lst(*xs):
    return mk("lst", *xs)


def read(a, i):
    op = a.op
    if op == "upd":
        j = a.args[1]
        if i is j:
            return a.args[2]
        d = sub(i, j)
        if isnum(d) and d.args[0] != 0:
            return read(a.args[0], i)
        return ite(eq(i, j), a.args[2], read(a.args[0], i))
    if op == "map":
        return open_(a.args[1], a.args[2], i)
    if op == "lst" and i.op == "num":
        k = int(i.args[0])
        if 0 <= k < len(a.args):
            return a.args[k]
    if op == "ite":
        return ite(a.args[0], read(a.args[1], i), read(a.args[2], i))
    if op == "resize":
        base, n, v = a.args
        lb = length(base)
        if lb is ZERO:
            return v
        if isnum(lb) and isnum(i):
            return read(base, i) if i.args[0] < lb.args[0] else v
        if lb is n:
            return read(base, i)
        return ite(lt(i, lb), read(base, i), v)
    if op == "scat":
        base, kind, trips, guard, idx, val, levs = a.args
        if len(trips) == 1 and len(idx) == 1 and idx[0].op == "bv" and idx[0].args[0] == levs[0]:
            g = open_(levs[0], guard, i)
            v = open_(levs[0], val, i)
            if kind == "+":
                v = add(read(base, i), v)
            if trips[0] is not length(base):
                g = band(g, lt(i, trips[0]))
            return ite(g, v, read(base, i))
    if op == "concat":
        x = a.args[0]
        if len(a.args) == 2:
            return ite(lt(i, length(x)), read(x, i), read(a.args[1], sub(i, length(x))))
    if op == "slice":
        return read(a.args[0], add(i, a.args[1]))
    return mk("read", a, i)


def upd(a, i, v):
    if a.op == "upd" and a.args[1] is i:
        return upd(a.args[0], i, v)
    if a.op == "lst" and isint_const(i) and 0 <= i.args[0] < len(a.args):
        xs = list(a.args)
        xs[int(i.args[0])] = v
        return mk("lst", *xs)
    if read(a, i) is v:
        return a
    return mk("upd", a, i, v)


def resize(a, n, v):
    if length(a) is n:
        return a
    if a.op == "lst" and not a.args and isint_const(n) and 0 <= n.args[0] <= 8:
        return lst(*[v] * int(n.args[0]))
    return mk("resize", a, n, v)


def push(a, x):
    if a.op == "lst":
        return mk("lst", *a.args, x)
    n = length(a)
    return mk("concat", a, lst(x)) if True else upd(resize(a, add(n, ONE), ZERO), n, x)


def scat(base, kind, trips, guard, idx, val, levs):
    if guard is FALSE:
        return base
    if kind == "+" and val is ZERO:
        return base
    return mk("scat", base, kind, trips, guard, idx, val, levs)


# ---------------------------------------------------------------- binders
def close(lvname, *bodies):
    """rename free loop var to a canonical bound var; returns (level, body...)"""
    k = 1 + max(b.lev for b in bodies)
    m = {mk("lv", lvname): mk("bv", k)}
    return (k,) + tuple(subst(b, m) for b in bodies)


def open_(k, body, val):
    return subst(body, {mk("bv", k): val})


def msum(n, lvname, body):
    if body is ZERO or n is ZERO:
        return ZERO
    # pull out terms and factors that do not depend on the bound variable
    out, inside = [], {}
    for m, c in _poly(body).items():
        dep = [(a, e) for a, e in m if lvname in a.lvs]
        ind = tuple((a, e) for a, e in m if lvname not in a.lvs)
        coef = _unpoly({ind: c})
        key = tuple(dep)
        inside.setdefault(key, []).append(coef)
    for dep, coefs in inside.items():
        coef = add(*coefs)
        if not dep:
            out.append(mul(coef, n))
        else:
            b = _unpoly({dep: Fraction(1)})
            if b.op == "lv":  # sum of t over [0,n)
                out.append(mul(coef, num(Fraction(1, 2)), n, sub(n, ONE)))
            else:
                k, bb = close(lvname, b)
                out.append(mul(coef, mk("sum", n, k, bb)))
    return add(*out)


def mprod(n, lvname, body):
    if body is ONE or n is ZERO:
        return ONE
    k, b = close(lvname, body)
    return mk("prod", n, k, b)


def many(n, lvname, cond):
    if cond is FALSE or n is ZERO:
        return FALSE
    if lvname not in cond.lvs:
        return band(cond, lt(ZERO, n))
    if cond.op == "or":
        return bor(*[many(n, lvname, x) for x in cond.args])
    if cond.op == "and":
        ind = [x for x in cond.args if lvname not in x.lvs]
        if ind:
            return band(many(n, lvname, band(*[x for x in cond.args if lvname in x.lvs])), *ind)
    k, b = close(lvname, cond)
    return mk("any", n, k, b)


def mall(n, lvname, cond):
    return bnot(many(n, lvname, bnot(cond)))


def mfirst(n, lvname, cond):
    k, b = close(lvname, cond)
    return mk("first", n, k, b)


_BUILD = None


def rebuild(op, args):
    """smart re-construction after substitution"""
    if op == "poly":
        ts = []
        for m, c in args[0]:
            t = num(c)
            for a, e in m:
                if e > 0:
                    for _ in range(e):
                        t = mul(t, a)
                else:
                    for _ in range(-e):
                        t = mul(t, inv(a))
            ts.append(t)
        return add(*ts)
    if op == "idiv":
        return idiv(*args)
    if op == "mod":
        return imod(*args)
    if op == "trunc":
        return trunc(*args)
    if op == "not":
        return bnot(*args)
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "lt":
        return lt(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eqv":
        return eq(*args)
    if op == "ite":
        return ite(*args)
    if op == "boolof":
        return boolof(*args)
    if op == "fld":
        return fld(*args)
    if op == "read":
        return read(*args)
    if op == "upd":
        return upd(*args)
    if op == "len":
        return length(*args)
    if op == "resize":
        return resize(*args)
    if op == "scat":
        return scat(*args)
    if op == "obj":
        r = args[0]
        for f, v in args[1]:
            r = setf(r, f, v)
        return r
    if op == "sum" and args[2] is ZERO:
        return ZERO
    if op == "any" and args[2] is FALSE:
        return FALSE
    if op == "any" and args[0] is ZERO:
        return FALSE
    if op == "sum" and args[0] is ZERO:
        return ZERO
    if op == "call":
        return call(*args)
    return mk(op, *args)


def subst(t, m):
    memo = {}
    keys = set(m)
    lvnames = {k.args[0] for k in keys if k.op == "lv"}
    only_lv = all(k.op == "lv" for k in keys)
    only_bv = all(k.op == "bv" for k in keys)
    maxbv = max([k.args[0] for k in keys if k.op == "bv"], default=0)
    minbv = min([k.args[0] for k in keys if k.op == "bv"], default=0)

    def go(x):
        if x in m:
            return m[x]
        if only_lv and not (x.lvs & lvnames):
            return x
        if only_bv and x.lev < minbv:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        args = tuple(goa(a) for a in x.args)
        r = x if args == x.args else rebuild(x.op, args)
        memo[x] = r
        return r

    def goa(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goa(y) for y in a)
        return a

    return go(t)


# ---------------------------------------------------------------- calls
def call(name, *args):
    if name in ("max", "min") and len(args) == 2 and all(isnum(a) for a in args):
        f = max if name == "max" else min
        return num(f(a.args[0] for a in args))
    if name == "abs" and isnum(args[0]):
        return num(abs(args[0].args[0]))
    if name == "exp" and args[0] is ZERO:
        return ONE
    return mk("call", name, *args)


def tmax(a, b):
    return ite(lt(a, b), b, a)


# ---------------------------------------------------------------- printing
def show(t, depth=8):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op in ("true", "false", "null", "unit"):
        return op
    if op == "sym":
        return a[0] + ("(" + ",".join(show(x, d) for x in a[1:]) + ")" if a[1:] else "")
    if op == "str":
        return repr(a[0])
    if op == "lv":
        return "$" + str(a[0])
    if op == "bv":
        return "#" + str(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            f = [str(c)] if c != 1 or not m else []
            f += [show(x, d) + ("" if e == 1 else "^%d" % e) for x, e in m]
            out.append("*".join(f))
        return "(" + " + ".join(out) + ")"
    if op == "fld":
        return show(a[0], d) + "." + a[1]
    if op == "read":
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if op == "lt":
        return "(" + show(a[0], d) + " < 0)"
    if op == "eq0":
        return "(" + show(a[0], d) + " == 0)"
    if op == "eqv":
        return "(" + show(a[0], d) + " == " + show(a[1], d) + ")"
    if op in ("and", "or"):
        return "(" + (" && " if op == "and" else " || ").join(show(x, d) for x in a) + ")"
    if op == "not":
        return "!" + show(a[0], d)
    if op == "ite":
        return "(" + show(a[0], d) + " ? " + show(a[1], d) + " : " + show(a[2], d) + ")"
    if op == "call":
        return a[0] + "(" + ", ".join(show(x, d) for x in a[1:]) + ")"
    if op == "obj":
        return show(a[0], d) + "{" + ", ".join(k + "=" + show(v, d) for k, v in a[1]) + "}"
    if op in ("sum", "map", "any", "first", "prod"):
        return "%s(#%d<%s: %s)" % (op, a[1], show(a[0], d), show(a[2], d))
    return op + "(" + ", ".join(show(x, d) for x in a) + ")"


def atoms(t, pred, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for c in _children(t.args):
        atoms(c, pred, seen, out)
    return out


def contains(t, pred):
    return bool(atoms(t, pred))
