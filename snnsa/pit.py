"""Identity testing of value-graph terms (random interpretation, Gulwani & Necula).

Two closed forms whose normal forms differ are interpreted over a few random
valuations of their free symbols.  Agreement everywhere discharges the obligation
with high probability, one disagreement is a witness that the two forms really
denote different values, so an incomplete normal form never raises an alarm.
Nothing of the analysed program is executed: only terms are interpreted.
"""
import hashlib
import math
import random
import re
import struct
from fractions import Fraction
from .terms import *
from . import terms as tm


class Undecidable(Exception):
    """the term contains a value the analysis could not determine"""


class Undefined(Exception):
    """the term has no value here (out-of-range index, division by zero)"""


class Obj:
    __slots__ = ("env", "path", "cls", "over")

    def __init__(self, env, path, cls, over=None):
        self.env, self.path, self.cls, self.over = env, path, cls, over or {}

    def get(self, f):
        if f in self.over:
            return self.over[f]
        return self.env.value(self.path + "." + f, self.env.ftype(self.cls, f))

    def put(self, f, v):
        d = dict(self.over)
        d[f] = v
        return Obj(self.env, self.path, self.cls, d)

    def fields(self):
        return [f["n"] for f in self.env.prog.fields(self.cls)] if self.cls in self.env.prog.recs else []

    def __repr__(self):
        return "<%s%s>" % (self.path, " " + str(self.over) if self.over else "")


class Ptr:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "&" + self.path


class State_(list):
    """the state of a loop: memoised by identity"""
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_free = {}
_MISS = object()
_DISPATCH = {}


def freebv(t):
    r = _free.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.args[0],))
    elif t.lev == 0:
        r = frozenset()
    elif t.op in ("map", "sum", "any", "first", "prod"):
        n, k, b = t.args
        r = freebv(n) | (freebv(b) - {k})
    elif t.op == "scat":
        base, kind, trips, guard, idx, val, levs = t.args
        inner = freebv(guard) | freebv(val)
        for x in idx:
            inner |= freebv(x)
        seen = set()
        acc = freebv(base)
        for x, l in zip(trips, levs):
            acc |= freebv(x) - seen
            seen.add(l)
        r = acc | (inner - set(levs))
    elif t.op == "fold":
        n, lev, inits, nexts, i = t.args
        r = freebv(n)
        for x in inits:
            r |= freebv(x)
        inner = frozenset()
        for x in nexts:
            inner |= freebv(x)
        r |= inner - {lev + j for j in range(len(inits) + 1)}
    else:
        r = frozenset()
        for c in children(t):
            r |= freebv(c)
    _free[t] = r
    return r


def _cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def base_type(t):
    t = t.strip()
    t = re.sub(r"^const\s+", "", t)
    t = re.sub(r"\s*[&]+$", "", t)
    t = re.sub(r"^const\s+", "", t)
    return t.strip()


INT = {"int", "size_t", "unsigned long", "long", "unsigned int", "unsigned", "int64_t", "long long", "unsigned long long",
       "std::vector::size_type", "short", "uint64_t", "char"}
FLT = {"float", "double", "long double"}


PASS = object()  # rule result: this rule says nothing here


class Mirror:
    """rule result: the same value as another path"""
    def __init__(self, path):
        self.path = path


class Env:
    """one valuation: values are created on demand from the declared types"""
    BUDGET = 400000

    def __init__(self, prog, seed, types=None, rules=(), calltypes=None, dyn=None, lits=(), zeros=False):
        self.zeros = zeros
        self.prog = prog
        self.lits = list(lits)
        self.allowed = None
        self.sizes = sorted({int(c) + d for c in lits for d in (-1, 0, 1, 2) if 2 <= int(c) + d <= 300})
        self.sized, self.big = {}, False
        self.seed = str(seed)
        self.types = dict(types or {})
        self.rules = [(re.compile(p), f) for p, f in rules]
        self.calltypes = calltypes or {}
        self.dyn = dict(dyn or {})
        self.vals = {}
        self.memo = {}
        self.foldmemo = {}
        self.steps = 0

    # ---------------------------------------------------------------- valuation
    def rnd(self, *key):
        h = hashlib.sha256((self.seed + "|" + "|".join(map(str, key))).encode()).digest()
        return random.Random(int.from_bytes(h[:16], "big"))

    def size(self, key, lo=1, hi=4):
        """a size, normally small; near a constant of the compared forms in the constant-driven valuations"""
        if key not in self.sized:
            r = self.rnd(key)
            c = [x for x in self.sizes if x >= lo]
            if c and r.random() < .6 and (c[-1] <= 12 or not self.big):
                self.big = True
                self.sized[key] = r.choice(c)
            else:
                self.sized[key] = r.randint(lo, hi)
        return self.sized[key]

    def ftype(self, cls, f):
        t = self.prog.ftype(cls, f) if cls else None
        return t or ""

    def set(self, path, v):
        self.vals[path] = v

    def value(self, path, typ):
        if path in self.vals:
            return self.vals[path]
        v = self._value(path, base_type(typ))
        self.vals[path] = v
        return v

    def rule(self, path, typ):
        for p, f in self.rules:
            m = p.fullmatch(path)
            if m:
                v = f(self, m) if callable(f) else f
                if v is not PASS:
                    return True, v
        return False, None

    def _value(self, path, t):
        hit, v = self.rule(path, t)
        if isinstance(v, Mirror):
            hit, v = False, v.path
            if t in self.prog.recs or not t:
                return Obj(self, path, t) if t else self.value(v, t)
            src = self.value(v, t)
            if not isinstance(src, list):
                return src
            hit, v = True, len(src)
        ca = re.match(r"(.*\S)\s*\[(\d+)\]$", t)
        if ca and not hit:
            return [self.value("%s[%d]" % (path, i), ca.group(1)) for i in range(int(ca.group(2)))]
        m = re.match(r"(?:std::)?(?:vector|array|deque)<(.*)>$", t)
        if not m:
            m2 = re.match(r"(?:snn::)?vector(2D|3D)<(.*)>$", t)
            if m2:
                inner = m2.group(2)
                t = "std::vector<std::vector<%s>>" % inner if m2.group(1) == "2D" else \
                    "std::vector<std::vector<std::vector<%s>>>" % inner
                m = re.match(r"std::vector<(.*)>$", t)
        if m:
            if hit and isinstance(v, list):
                return v
            n = v if hit else self.size("len|" + path)
            et = m.group(1)
            am = re.match(r"(.*), (\d+)$", et)
            if t.startswith("std::array") and am:
                et, n = am.group(1), int(am.group(2))
            return [self.value("%s[%d]" % (path, i), et) for i in range(int(n))]
        if hit:
            return v
        return self.fresh(path, t)

    def fresh(self, path, t):
        r = self.rnd("val", path, t)
        if t in ("bool",):
            return r.random() < 0.5
        if self.lits and (t in FLT or t in INT or t == "") and r.random() < .5:
            c = r.choice(self.lits)
            if t in INT:
                return max(0, int(c) + r.choice((-1, 0, 1)))
            return Fraction(c) * r.choice((1, 1, Fraction(1, 2), Fraction(3, 2), -1, 4))
        if self.zeros and t in FLT and r.random() < .35:
            return Fraction(r.choice((0, 0, 0, 1, -1)))
        if t in FLT:
            return Fraction(r.randint(-24, 24) or 5, 8)
        if t in INT:
            return r.randint(0, 5)
        if t in self.prog.enums:
            ks = [int(x["v"]) for x in self.prog.enums[t]["e"]] or [0]
            return r.choice(ks)
        if "unique_ptr<" in t or "shared_ptr<" in t or t.endswith("*"):
            return Ptr(path)
        if t.startswith(("std::string", "std::basic_string<")):
            return "s%d" % r.randint(1000, 10 ** 6)
        if t in self.prog.recs:
            return Obj(self, path, t)
        if t == "":
            return Fraction(r.randint(-24, 24) or 5, 8)
        return Obj(self, path, t)

    def pointee_type(self, t):
        t = base_type(t)
        m = re.match(r"std::(?:unique_ptr|shared_ptr)<(.*?)(?:, std::default_delete<.*>)?>$", t)
        if m:
            return base_type(m.group(1))
        return base_type(t[:-1]) if t.endswith("*") else ""

    # ---------------------------------------------------------------- freezing
    def freeze(self, v):
        if isinstance(v, bool):
            return "b%d" % v
        if isinstance(v, (int, Fraction)):
            return "n" + str(Fraction(v)) if Fraction(v).denominator < 10 ** 9 else "f%.6g" % float(v)
        if isinstance(v, float):
            if not math.isfinite(v):
                return "f" + str(v)
            if v == int(v):
                return "n" + str(int(v))
            f = Fraction(v).limit_denominator(10 ** 6)
            return "n" + str(f) if float(f) == v else "f%.6g" % v
        if isinstance(v, (list, tuple)):
            return "[" + ",".join(self.freeze(x) for x in v) + "]"
        if isinstance(v, Obj):
            ov = {}
            for k, x in v.over.items():
                fx = self.freeze(x)
                try:
                    same = fx == self.freeze(Obj(self, v.path, v.cls).get(k))
                except (Undefined, Undecidable):
                    same = False
                if not same:
                    ov[k] = fx
            return "O(" + v.path + "".join(",%s=%s" % i for i in sorted(ov.items())) + ")"
        return repr(v)

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, b=None):
        return self._ev(t, b or {})

    def _ev(self, t, b):
        self.steps += 1
        op = t.op
        if op == "bv":
            try:
                return b[t.args[0]]
            except KeyError:
                raise Undecidable("unbound variable")
        if self.steps > self.BUDGET:
            raise Undecidable("evaluation budget")
        fb = t.fb
        if fb is None:
            fb = t.fb = tuple(sorted(freebv(t)))
        try:
            if not fb:
                key = t
            elif len(fb) == 1:
                key = (t, b[fb[0]])
            else:
                key = (t, tuple([b[k] for k in fb]))
            r = self.memo.get(key, _MISS)
        except TypeError:
            key, r = None, _MISS
        except KeyError:
            raise Undecidable("unbound variable")
        if r is not _MISS:
            if isinstance(r, Exception):
                raise r
            return r
        m = _DISPATCH.get(op, _MISS)
        if m is _MISS:
            m = _DISPATCH[op] = getattr(Env, "t_" + op, None)
        try:
            r = self.unknown(t, b) if m is None else m(self, t, b)
        except AttributeError as e:
            raise Undecidable(str(e))
        except (Undefined, Undecidable) as e:
            if key is not None:
                self.memo[key] = e
            raise
        if key is not None:
            self.memo[key] = r
        return r

    def unknown(self, t, b):
        if t.op in ("unk", "undef"):
            raise Undecidable("unknown value: " + str(t.args[0]))
        # uninterpreted constructor
        fs = [self.freeze(self._ev(a, b)) if isinstance(a, T) else str(a) for a in t.args]
        return t.op + "(" + ",".join(fs) + ")"

    def t_num(self, t, b):
        f = t.args[0]
        return int(f) if f.denominator == 1 else f

    def t_true(self, t, b):
        return True

    def t_false(self, t, b):
        return False

    def t_null(self, t, b):
        return None

    def t_unit(self, t, b):
        return ()

    def t_str(self, t, b):
        return t.args[0]

    def t_sym(self, t, b):
        n = t.args[0]
        if n == "NaN" or n.endswith("quiet_NaN"):
            return float("nan")
        if n.endswith("::infinity"):
            return float("inf")
        if n.endswith("::lowest"):
            return -3.4028234663852886e38
        if n.endswith("numeric_limits<float>::max"):
            return 3.4028234663852886e38
        if n.startswith("G:"):
            v = self.prog.vars.get(n[2:])
            return self.value(n, (v or {}).get("t", ""))
        if len(t.args) > 1:
            n += "(" + ",".join(self.freeze(self._ev(a, b)) for a in t.args[1:]) + ")"
        return self.value(n, self.types.get(t.args[0], ""))

    def t_lv(self, t, b):
        raise Undecidable("free loop variable")

    def t_bv(self, t, b):
        return b[t.args[0]]

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction, float)):
            return v
        raise Undecidable("non-numeric value in arithmetic: %r" % (v,))

    def t_poly(self, t, b):
        pp = t.pp
        if pp is None:
            pp = t.pp = [(int(c) if c.denominator == 1 else c, m) for m, c in t.args[0]]
        s = 0
        for c, m in pp:
            p = c
            for a, e in m:
                x = self._ev(a, b)
                tx = type(x)
                if tx is int and e == 1:
                    p = p * x
                    continue
                if tx is not int and tx is not Fraction:
                    x = self.num(x)
                if e < 0 and x == 0:
                    raise Undefined("division by zero")
                try:
                    if isinstance(x, float):
                        p = (float(p) if isinstance(p, (Fraction, int)) else p) * x ** e
                    else:
                        y = x if e == 1 else Fraction(x) ** e
                        p = p * (y if not isinstance(p, float) else float(y))
                except OverflowError:
                    p = float("inf")
            if isinstance(s, float) or isinstance(p, float):
                s = float(s) + float(p)
            else:
                s = s + p
        if isinstance(s, Fraction) and s.denominator == 1:
            return int(s)
        return s

    def t_inv0(self, t, b):
        raise Undefined("division by zero")

    def t_idiv(self, t, b):
        x, y = self.num(self._ev(t.args[0], b)), self.num(self._ev(t.args[1], b))
        if y == 0:
            raise Undefined("division by zero")
        return _cdiv(int(x), int(y))

    def t_mod(self, t, b):
        x, y = self.num(self._ev(t.args[0], b)), self.num(self._ev(t.args[1], b))
        if y == 0:
            raise Undefined("division by zero")
        x, y = int(x), int(y)
        return x - y * _cdiv(x, y)

    def t_trunc(self, t, b):
        v = self.num(self._ev(t.args[0], b))
        if isinstance(v, float) and not math.isfinite(v):
            raise Undefined("integer conversion of a non-finite value")
        return int(v)

    def t_lt(self, t, b):
        d = self.num(self._ev(t.args[0], b))
        if isinstance(d, float) and abs(d) < 1e-9:
            return False if d >= 0 else (False if abs(d) < 1e-12 else True)
        return d < 0

    def t_eq0(self, t, b):
        d = self._ev(t.args[0], b)
        return near(self.num(d), 0)

    def t_eqv(self, t, b):
        return deep_equal(self._ev(t.args[0], b), self._ev(t.args[1], b))

    def t_not(self, t, b):
        return not self.truth(self._ev(t.args[0], b))

    def truth(self, v):
        if isinstance(v, (bool, int, Fraction, float)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, Ptr):
            return True
        raise Undecidable("truth of %r" % (v,))

    def t_and(self, t, b):
        err = None
        for x in t.args:
            try:
                if not self.truth(self._ev(x, b)):
                    return False
            except (Undefined, Undecidable) as e:
                err = err or e
        if err:
            raise err
        return True

    def t_or(self, t, b):
        err = None
        for x in t.args:
            try:
                if self.truth(self._ev(x, b)):
                    return True
            except (Undefined, Undecidable) as e:
                err = err or e
        if err:
            raise err
        return False

    def t_ite(self, t, b):
        return self._ev(t.args[1] if self.truth(self._ev(t.args[0], b)) else t.args[2], b)

    def t_boolof(self, t, b):
        return self.truth(self._ev(t.args[0], b))

    # ---------------------------------------------------------------- aggregates
    def t_fld(self, t, b):
        o = self._ev(t.args[0], b)
        if isinstance(o, Obj):
            return o.get(t.args[1])
        if isinstance(o, dict):
            if t.args[1] in o:
                return o[t.args[1]]
        if isinstance(o, str):
            return self.value(o + "." + t.args[1], "")
        raise Undecidable("field %s of %r" % (t.args[1], o))

    def t_obj(self, t, b):
        try:
            o = self._ev(t.args[0], b)
        except Undecidable:
            base = t.args[0]
            if base.op in ("undef", "new"):
                o = Obj(self, "undef:" + str(base.args[0]), str(base.args[0]))
                o = _Fresh(self, "new:" + str(base.args[0]), str(base.args[0]))
            else:
                raise
        for f, v in t.args[1]:
            try:
                x = self._ev(v, b)
            except (Undefined, Undecidable) as e:
                x = Bad(e)
            o = o.put(f, x) if isinstance(o, Obj) else o
        return o

    def seq(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, str):
            return list(v)
        raise Undecidable("not a sequence: %r" % (v,))

    def index(self, i):
        i = self.num(i)
        if i != int(i):
            raise Undefined("fractional index")
        return int(i)

    def t_read(self, t, b):
        a = self.lazyseq(t.args[0], b)
        i = self.index(self._ev(t.args[1], b))
        if i < 0 or i >= len(a):
            raise Undefined("index %d outside [0,%d) of %s" % (i, len(a), show(t.args[0], 3)))
        return unbad(a[i])

    def lazyseq(self, a, b):
        return self.seq(self._ev(a, b))

    def t_upd(self, t, b):
        a = list(self.seq(self._ev(t.args[0], b)))
        i = self.index(self._ev(t.args[1], b))
        if i < 0 or i >= len(a):
            v, same = t.args[2], mk("read", t.args[0], t.args[1])
            while v.op == "ite":
                v = v.args[1] if self.truth(self._ev(v.args[0], b)) else v.args[2]
            if v is same:
                return a          # a conditional write that does not happen here
            raise Undefined("write index %d outside [0,%d) of %s" % (i, len(a), show(t.args[0], 3)))
        try:
            a[i] = self._ev(t.args[2], b)
        except (Undefined, Undecidable) as e:
            a[i] = Bad(e)
        return a

    def t_len(self, t, b):
        v = self._ev(t.args[0], b)
        return len(self.seq(v))

    def trip(self, n, b):
        n = self._ev(n, b)
        if isinstance(n, float) and n == float("inf"):
            raise Undecidable("unbounded loop")
        n = int(self.num(n))
        if n > 20000:
            raise Undecidable("too many iterations")
        return max(n, 0)

    def t_inf(self, t, b):
        return float("inf")

    def t_map(self, t, b):
        n = self.trip(t.args[0], b)
        k, body = t.args[1], t.args[2]
        out = []
        for i in range(n):
            try:
                out.append(self._ev(body, dict(b, **{}) | {k: i}))
            except (Undefined, Undecidable) as e:
                out.append(Bad(e))
        return out

    def t_resize(self, t, b):
        a = list(self.seq(self._ev(t.args[0], b)))
        n = self.trip(t.args[1], b)
        v = self._ev(t.args[2], b)
        return a[:n] + [v] * (n - len(a))

    def t_lst(self, t, b):
        return [self._ev(a, b) for a in t.args]

    def t_concat(self, t, b):
        out = []
        for a in t.args:
            v = self._ev(a, b)
            if isinstance(v, str) and len(t.args) > 1:
                return "".join(str(self._ev(x, b)) for x in t.args)
            out += self.seq(v)
        return out

    def t_slice(self, t, b):
        a = self.seq(self._ev(t.args[0], b))
        lo, hi = self.index(self._ev(t.args[1], b)), self.index(self._ev(t.args[2], b))
        if lo < 0 or hi > len(a) or lo > hi:
            raise Undefined("range [%d,%d) of a sequence of length %d" % (lo, hi, len(a)))
        return a[lo:hi]

    def t_rev(self, t, b):
        return list(reversed(self.seq(self._ev(t.args[0], b))))

    def t_scat(self, t, b):
        base, kind, trips, guard, idx, val, levs = t.args
        a = _copy(self.seq(self._ev(base, b)))

        def rec(j, bb):
            if j == len(trips):
                if not self.truth(self._ev(guard, bb)):
                    return
                ii = [self.index(self._ev(x, bb)) for x in idx]
                try:
                    v = self._ev(val, bb)
                except (Undefined, Undecidable) as e:
                    v = Bad(e)
                tgt = a
                for x in ii[:-1]:
                    if x < 0 or x >= len(tgt):
                        raise Undefined("write index %d outside [0,%d)" % (x, len(tgt)))
                    tgt = tgt[x]
                x = ii[-1]
                if x < 0 or x >= len(tgt):
                    raise Undefined("write index %d outside [0,%d) of %s" % (x, len(tgt), show(base, 3)))
                if kind == "+":
                    o = tgt[x]
                    if isinstance(o, Bad) or isinstance(v, Bad):
                        tgt[x] = o if isinstance(o, Bad) else v
                    else:
                        tgt[x] = fadd(self.num(o), self.num(v))
                else:
                    tgt[x] = v
                return
            n = self.trip(trips[j], bb)
            for i in range(n):
                rec(j + 1, bb | {levs[j]: i})
        rec(0, dict(b))
        return a

    def t_sum(self, t, b):
        n = self.trip(t.args[0], b)
        s = 0
        for i in range(n):
            s = fadd(s, self.num(self._ev(t.args[2], b | {t.args[1]: i})))
        return s

    def t_prod(self, t, b):
        n = self.trip(t.args[0], b)
        s = 1
        for i in range(n):
            s = s * self.num(self._ev(t.args[2], b | {t.args[1]: i}))
        return s

    def t_any(self, t, b):
        n = self.trip(t.args[0], b)
        err = None
        for i in range(n):
            if self.truth(self._ev(t.args[2], b | {t.args[1]: i})):
                return True
        return False

    def t_first(self, t, b):
        nv = self._ev(t.args[0], b)
        n = 20000 if nv == float("inf") else self.trip(t.args[0], b)
        for i in range(n):
            if self.truth(self._ev(t.args[2], b | {t.args[1]: i})):
                return i
        if nv == float("inf"):
            if any(isinstance(v, int) and abs(v) > 2000 for v in self.vals.values()):
                raise Undecidable("too many iterations")
            raise Undefined("loop does not terminate")
        return n

    def t_fold(self, t, b):
        n, lev, inits, nexts, i = t.args
        N = self.trip(n, b)
        vals = [self._ev(x, b) for x in inits]
        for k in range(N):
            bb = b | {lev: k}
            for j, v in enumerate(vals):
                bb[lev + 1 + j] = State_(v) if type(v) is list else v
            vals = [self._ev(x, bb) for x in nexts]
        return vals[i]

    # ---------------------------------------------------------------- pointers
    def pathstr(self, root, path, b):
        if isinstance(root, tuple) and root[0] == "H":
            p = self._ev(root[1], b)
            if p is None:
                raise Undefined("null pointer")
            s = (p.path if isinstance(p, Ptr) else self.freeze(p)) + "->"
            if isinstance(p, Ptr) and p.path.startswith("@"):
                s = p.path[1:]
        else:
            s = str(root)
        for k, x in path:
            s += "." + x if k == "f" else "[%d]" % self.index(self._ev(x, b))
        return s

    def t_addr(self, t, b):
        return Ptr("@" + self.pathstr(t.args[0], t.args[1], b))

    def t_iter(self, t, b):
        return Ptr("@" + self.pathstr(t.args[0], t.args[1], b) + "[%d]" % self.index(self._ev(t.args[2], b)))

    def t_deref(self, t, b):
        p = self._ev(t.args[0], b)
        if p is None:
            raise Undefined("null pointer")
        if isinstance(p, Ptr):
            if p.path.startswith("@"):
                return self.resolve_path(p.path[1:])
            c = self.dyncls(p.path) or self.static_pointee(p.path)
            return Obj(self, p.path + "->", c)
        raise Undecidable("dereference of %r" % (p,))

    def resolve_path(self, s):
        m = re.match(r"^[^.\[]+", s)
        if not m:
            raise Undecidable("path " + s)
        if re.search(r"@\d", m.group(0)) or re.match(r"[TN]\d+", m.group(0)):
            raise Undecidable("a pointer to the local " + m.group(0))
        v = self.value(m.group(0), self.types.get(m.group(0), ""))
        for k in re.findall(r"\.([A-Za-z_0-9]+)|\[(\d+)\]", s[m.end():]):
            if k[0]:
                if not isinstance(v, Obj):
                    raise Undecidable("path " + s)
                v = v.get(k[0])
            else:
                v = self.seq(v)[int(k[1])]
        return v

    def dyncls(self, path):
        for p, c in self.dyn.items():
            if re.fullmatch(p, path):
                return c(path) if callable(c) else c
        return None

    def static_pointee(self, path):
        # type of the pointer expression named by path
        m = re.match(r"^(?:call:)?", path)
        try:
            t = self.path_type(path)
        except Exception:
            t = ""
        return self.pointee_type(t)

    def path_type(self, path):
        m = re.match(r"^([A-Za-z_:0-9@]+)", path)
        t = self.types.get(m.group(1), "")
        rest = path[m.end():]
        for k in re.findall(r"(->)?\.([A-Za-z_0-9]+)|\[(\d+)\]", rest):
            if k[1]:
                c = base_type(t)
                if k[0]:
                    c = self.pointee_type(t)
                t = self.ftype(c, k[1])
            else:
                m2 = re.match(r"(?:const )?std::(?:vector|array)<(.*)>$", base_type(t))
                t = m2.group(1) if m2 else ""
        return t

    # ---------------------------------------------------------------- calls
    def t_isa(self, t, b):
        o = self._ev(t.args[0], b)
        c = t.args[1]
        if isinstance(o, Obj):
            d = self.dyncls(o.path) or self.dyncls(re.sub(r"->$", "", o.path))
            if d:
                return c in self.prog.bases(d)
            if o.cls in self.prog.recs:
                return c in self.prog.bases(o.cls)
        return self.rnd("isa", self.freeze(o), c).random() < 0.5

    def t_typeid(self, t, b):
        o = t.args[0]
        if o.op == "str":
            return "type:" + o.args[0]
        v = self._ev(o, b)
        if isinstance(v, Obj):
            d = self.dyncls(v.path) or self.dyncls(re.sub(r"->$", "", v.path)) or v.cls
            return "type:" + str(d)
        return "type:" + self.freeze(v)

    def t_exc(self, t, b):
        return "exc:" + str(t.args[0])

    def t_call(self, t, b):
        n = t.args[0]
        f = getattr(self, "c_" + SPECIAL.get(n, n), None) if n in SPECIAL or re.fullmatch(r"\w+", n) else None
        args = [self._ev(a, b) for a in t.args[1:]]
        if f:
            return f(*args)
        return self.opaque(n, args)

    def opaque(self, n, args):
        if self.allowed is not None and n not in self.allowed and FOREIGN.match(n) and n not in self.calltypes \
                and not any(p.pattern.startswith("CALL:") and re.fullmatch(p.pattern[5:], n) for p, f in self.rules):
            raise Undecidable("the result of " + n + " is not modelled")
        typ = self.calltypes.get(n, "")
        if n.startswith("out") and ":" in n:
            base = n.split(":", 1)[1]
            typ = self.calltypes.get(n, self.calltypes.get("arg" + n[3:], "std::vector<float>"))
        path = "call:%s(%s)" % (n, hashlib.sha256("|".join(self.freeze(a) for a in args).encode()).hexdigest()[:12])
        self.lastargs = args
        for p, f in self.rules:
            if p.pattern.startswith("CALL:") and re.fullmatch(p.pattern[5:], n):
                v = f(self, args)
                if isinstance(v, int) and not isinstance(v, bool) and "vector" in typ:
                    if path not in self.vals:
                        m = re.match(r"(?:const )?std::vector<(.*)>$", base_type(typ))
                        self.vals[path] = [self.value("%s[%d]" % (path, i), m.group(1)) for i in range(v)]
                    return self.vals[path]
                return v
        return self.value(path, typ)

    @staticmethod
    def _m1(f):
        def g(self, x):
            x = self.num(x)
            try:
                return f(float(x))
            except OverflowError:
                return float("inf")
            except ValueError:
                raise Undefined("domain error")
        return g

    def c_pow(self, x, e):
        x, e = self.num(x), self.num(e)
        if e == Fraction(1, 2):
            if x < 0:
                raise Undefined("sqrt of a negative value")
            return math.sqrt(x)
        try:
            return float(x) ** float(e)
        except OverflowError:
            return float("inf")
        except (ZeroDivisionError, ValueError):
            raise Undefined("pow domain")

    def c_abs(self, x):
        return abs(self.num(x))

    def c_isnan(self, x):
        return math.isnan(float(self.num(x)))

    def c_isinf(self, x):
        return math.isinf(float(self.num(x)))

    def c_isnormal(self, x):
        return self.c_fpclassify(x) == 4

    def c_fpclassify(self, x):
        x = float(self.num(x))
        return 0 if math.isnan(x) else 1 if math.isinf(x) or abs(x) > FLT_MAX else 2 if x == 0 else 3 if abs(x) < 1.17549435e-38 else 4

    def c_signbit(self, x):
        return self.num(x) < 0

    def c_isfinite(self, x):
        return math.isfinite(float(self.num(x)))

    def c_shuffled(self, v, lo, n, ident, *active):
        v = list(self.seq(v))
        lo, n = int(lo), int(n)
        if lo < 0 or n < 0 or lo + n > len(v):
            raise Undefined("shuffle range")
        part = v[lo:lo + n]
        r = self.rnd("shuffle", ident, self.freeze(list(active)))
        r.shuffle(part)
        return v[:lo] + part + v[lo + n:]

    def c_bitcast(self, x):
        x = float(self.num(x))
        try:
            return struct.unpack("<I", struct.pack("<f", x))[0]
        except OverflowError:
            return 0x7F800000 | (0x80000000 if x < 0 else 0)

    def c_bitand(self, a, b):
        return int(self.num(a)) & int(self.num(b))

    def c_bitor(self, a, b):
        return int(self.num(a)) | int(self.num(b))

    def c_bitxor(self, a, b):
        return int(self.num(a)) ^ int(self.num(b))

    def c_shl(self, a, b):
        return int(self.num(a)) << int(self.num(b))

    def c_shr(self, a, b):
        return int(self.num(a)) >> int(self.num(b))

    def c_strcat(self, a, b):
        return self.c_text(a) + self.c_text(b)

    # reading a report (specifications only)
    def c_numbersafter(self, text, label):
        """the numbers on the rest of the line after a label"""
        m = re.search(r"(?i)" + re.escape(label) + r"[^\S\n]*[:=(]?([^\n]*)", self.c_text(text))
        if not m:
            return "no " + label
        return [Fraction(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", m.group(1))]

    def c_wordafter(self, text, label):
        m = re.search(r"(?i)" + re.escape(label) + r"[^\S\n]*:?[^\S\n]*(\S*)", self.c_text(text))
        return m.group(1) if m else "no " + label

    def c_marks(self, text):
        """the reports of parts (uninterpreted strings) it contains, in order"""
        return re.findall(r"s\d{4,}", self.c_text(text))

    def c_mentions(self, text, word):
        return re.search(r"\b" + re.escape(word) + r"\b", self.c_text(text)) is not None

    def c_shown(self, v):
        """a number as a stream shows it"""
        return Fraction(self.c_text(v)) if re.fullmatch(r"-?\d+(\.\d+)?(e[-+]?\d+)?", self.c_text(v)) else v

    def c_chr(self, a):
        return chr(int(self.num(a)))

    def c_text(self, a):
        """how a stream prints the value"""
        if isinstance(a, str):
            return a
        if isinstance(a, bool):
            return "1" if a else "0"
        if isinstance(a, (int, Fraction)):
            f = Fraction(a)
            return str(f.numerator) if f.denominator == 1 else "%.6g" % float(f)
        if isinstance(a, float):
            return "%.6g" % a
        if a is None:
            return "0"
        return "<%s>" % self.freeze(a)


SPECIAL = {"std::to_string": "text", "std::bit_cast": "bitcast", "op&": "bitand", "op|": "bitor", "op^": "bitxor", "op<<": "shl", "op>>": "shr"}
FLT_MAX = 3.4028234663852886e38


def _exp32(x):
    """single precision range: overflows and underflows like the library's floats"""
    if x > 88.72283:
        raise OverflowError
    return math.exp(x) if x > -103.98 else 0.0


for _n in ("exp", "tanh", "log", "sin", "cos", "erf", "cosh", "sinh", "exp2", "log2", "log10", "expm1", "log1p"):
    if _n == "exp2":
        _f = lambda x: 2.0 ** x
    elif _n == "exp":
        _f = _exp32
    else:
        _f = getattr(math, _n)
    setattr(Env, "c_" + _n, Env._m1(_f))
for _n, _f in (("floor", math.floor), ("ceil", math.ceil)):
    setattr(Env, "c_" + _n, (lambda f: lambda self, x: f(self.num(x)))(_f))
Env.c_round = lambda self, x: int(math.floor(abs(self.num(x)) + Fraction(1, 2))) * (1 if self.num(x) >= 0 else -1)


class Bad:
    """an element whose value is undefined / unknown; harmless unless it is used"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<undefined: %s>" % self.e


def unbad(v):
    if isinstance(v, Bad):
        raise v.e
    return v


class _Fresh(Obj):
    """an object under construction: fields not yet written have no value"""
    def get(self, f):
        if f in self.over:
            return unbad(self.over[f])
        raise Undecidable("uninitialised field " + f)

    def put(self, f, v):
        d = dict(self.over)
        d[f] = v
        return _Fresh(self.env, self.path, self.cls, d)


_oget = Obj.get


def _get(self, f):
    return unbad(_oget(self, f))


Obj.get = _get


def _copy(a):
    return [(_copy(x) if isinstance(x, list) else x) for x in a]


def fadd(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return float(x) + float(y)
    return x + y


def near(a, b, tol=1e-7):
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def diff(a, b, where=""):
    """first structural difference between two values, or None"""
    if isinstance(a, Bad) or isinstance(b, Bad):
        if isinstance(b, Bad):
            return None           # specification leaves this element open
        if isinstance(a.e, Undecidable):
            raise a.e
        return "%s: %s" % (where, a)
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, (bool, int, Fraction, float)) and isinstance(b, (bool, int, Fraction, float)):
            return None if bool(a) == bool(b) and near(a * 1, b * 1) else "%s: %r instead of %r" % (where, a, b)
        return "%s: %r instead of %r" % (where, a, b)
    if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
        return None if near(a, b) else "%s: %s instead of %s" % (where, _s(a), _s(b))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d instead of %d" % (where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.path == b.path or isinstance(a, _Fresh) or isinstance(b, _Fresh):
            if isinstance(a, _Fresh) and isinstance(b, _Fresh):
                if a.cls != b.cls:
                    return "%s: a %s instead of a %s" % (where, a.cls, b.cls)
            fs = sorted(set(a.over) | set(b.over))
            if isinstance(a, _Fresh) or isinstance(b, _Fresh):
                full = a.fields() or fs
                fs = sorted(set(fs) | set(full))
        else:
            fs = a.fields() or None
            if fs is None:
                return "%s: %r instead of %r" % (where, a, b)
        known = _schema(a.cls)
        cur = {x["n"] for x in a.env.prog.fields(a.cls)} if a.cls in a.env.prog.recs else None
        for f in fs:
            if known is not None and f not in known or cur is not None and f not in cur:
                continue          # state the specification does not know (or that no longer exists)
            try:
                y = b.get(f)
            except (Undefined, Undecidable):
                continue
            try:
                x = a.get(f)
            except Undefined as e:
                return "%s.%s: %s" % (where, f, e)
            d = diff(x, y, where + "." + f)
            if d:
                return d
        return None
    return None if a == b else "%s: %r instead of %r" % (where, a, b)


_sch = {}


def _schema(cls):
    """fields (with inherited ones) the specifications were written against"""
    if not _sch:
        import json, os
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema.json")
        _sch["?"] = json.load(open(p)) if os.path.exists(p) else {}
    if cls not in _sch:
        from .check import program
        P = program()
        base = _sch["?"]
        if cls not in base or any(b.startswith("snn::") and b not in base for b in P.bases(cls)):
            _sch[cls] = None
        else:
            _sch[cls] = {n for b in P.bases(cls) for n, _ in base.get(b, ())}
    return _sch[cls]


def _s(x):
    if isinstance(x, Fraction):
        return "%.6g" % float(x)
    return "%.6g" % x if isinstance(x, float) else str(x)


def deep_equal(a, b):
    return diff(a, b) is None


_lits = {}


FOREIGN = re.compile(r"(?:ctor:|make:|out\d+:)?(?:const )?(?:std|__gnu_cxx|boost)::|op\W|apply$")
_CALLS = {}


def callnames(t):
    """names of the uninterpreted calls of a term"""
    r = _CALLS.get(t.id) if isinstance(t, T) else None
    if r is not None:
        return r
    r = frozenset()
    if isinstance(t, T):
        if t.op == "call" and FOREIGN.match(str(t.args[0])):
            r = frozenset((t.args[0],))
        for a in t.args:
            if isinstance(a, (T, tuple)):
                r |= callnames(a)
        _CALLS[t.id] = r
    elif isinstance(t, tuple):
        for a in t:
            if isinstance(a, (T, tuple)):
                r |= callnames(a)
    return r


def literals(t):
    """non-trivial constants of a closed form (thresholds a change may have introduced)"""
    r = _lits.get(t)
    if r is not None:
        return r
    r = set()
    if t.op == "num":
        r.add(t.args[0])
    elif t.op == "poly":
        for m, c in t.args[0]:
            if not m:
                r.add(c)
                r |= {c / x for y, x in t.args[0] if y and x}
    for c in children(t):
        r |= literals(c)
    r = frozenset(abs(c) for c in r if isinstance(c, Fraction) and Fraction(1, 5 * 10 ** 6) <= abs(c) <= 10 ** 7)
    _lits[t] = r
    return r


def special(lits):
    return sorted(c for c in lits if c >= 3 or c.denominator not in (1, 2))


def plans(prog, name, seed0, n, types, rules, calltypes, dyn, lits, progress=lambda: (1 << 30, 0)):
    """the valuations: n of ordinary size (more when few satisfy the precondition), then some around the constants of the compared forms"""
    for s in range(8 * n):
        if s >= n:
            used, undec = progress()
            if used >= n // 2 or undec:
                break
        yield False, Env(prog, "%s/%d/%d" % (name, seed0, s), types, rules(s) if callable(rules) else rules, calltypes, dyn)
    for s in range(max(4, n // 5)):
        yield True, Env(prog, "%s/%d/Z%d" % (name, seed0, s), types, rules(s) if callable(rules) else rules, calltypes, dyn, zeros=True)
    if lits:
        for s in range(min(8 * len(lits), max(24, n))):
            e = Env(prog, "%s/%d/L%d" % (name, seed0, s), types, rules(s) if callable(rules) else rules, calltypes, dyn, [lits[s % len(lits)]])
            yield True, e


def compare(prog, derived, spec, types=None, rules=(), calltypes=None, dyn=None, n=24, pre=None, name="", seed0=0):
    """-> ('identical'|'agree'|'differ'|'undecided', detail)"""
    if derived is spec:
        return "identical", "normal forms coincide"
    used = undec = 0
    why = ""
    known = callnames(spec) | (callnames(pre) if pre is not None else frozenset())
    for extra, env in plans(prog, name, seed0, n, types, rules, calltypes, dyn, special(literals(derived) | literals(spec)), lambda: (used, undec)):
        try:
            if pre is not None:
                ok = env.truth(env.ev(pre))
                if not ok:
                    continue
            want = env.ev(spec)
        except Undefined:
            continue
        except Undecidable as e:
            undec, why = undec + (not extra), extra and why or "spec: " + str(e)
            continue
        except RecursionError:
            undec, why = undec + (not extra), extra and why or "recursion"
            continue
        env.allowed = known
        try:
            got = env.ev(derived)
            d = diff(got, want, "value")
        except Undefined as e:
            d = "undefined behaviour: %s" % e
        except Undecidable as e:
            undec, why = undec + (not extra), extra and why or str(e)
            continue
        except RecursionError:
            undec, why = undec + (not extra), extra and why or "recursion"
            continue
        if d:
            ass = {k: env_show(v) for k, v in env.vals.items() if isinstance(v, (int, float, Fraction, bool, str)) and len(k) < 80}
            return "differ", {"difference": d, "valuation": dict(sorted(ass.items())[:60])}
        used += not extra
    if undec:
        return "undecided", why
    if used < max(3, n // 6):
        return "undecided", "only %d of %d valuations satisfied the precondition" % (used, n)
    return "agree", "%d valuations" % used


def expand(env, evs):
    """the concrete sequence of effects a summarised trace denotes under one valuation"""
    out = []
    _expand(env, [_closed(e) for e in evs], {}, out)
    return out


def _closed(e):
    """loop counters become bound variables, so that one traversal serves all iterations"""
    r = _closed_cache.get(id(e))
    if r is not None and r[0] is e:
        return r[1]
    m, bs = {}, []
    for d, x in enumerate(e.binders):
        bs.append((x[0], 1000 * (d + 1), subst(x[1], m) if m else x[1]))
        m[mk("lv", x[0])] = mk("bv", 1000 * (d + 1))
    y = (e.name, [subst(a, m) for a in e.args] if m else list(e.args), subst(e.guard, m) if m else e.guard, bs, e.site)
    _closed_cache[id(e)] = (e, y)
    return y


_closed_cache = {}


def _excluded(env, e, b):
    """a condition outside of the loops still to run is false"""
    g = e[2]
    for c in (g.args if g.op == "and" else (g,)):
        try:
            if all(k in b for k in freebv(c)) and not env.truth(env._ev(c, b)):
                return True
        except (Undefined, Undecidable):
            pass
    return False


def _expand(env, evs, b, out, depth=0):
    i = 0
    while i < len(evs):
        e = evs[i]
        if len(out) > 3000:
            raise Undecidable("trace too long")
        if len(e[3]) == depth:
            if env.truth(env._ev(e[2], b)):
                vals = []
                for a in e[1]:
                    try:
                        vals.append(env._ev(a, b))
                    except Undefined as x:
                        vals.append(Bad(x))
                out.append((e[0], vals, e[4]))
            i += 1
            continue
        nm, lev, n = e[3][depth]
        j = i
        while j < len(evs) and len(evs[j][3]) > depth and evs[j][3][depth][0] == nm:
            j += 1
        try:
            trips = env.trip(n, b)
        except Undefined:
            if not all(_excluded(env, x, b) for x in evs[i:j]):
                raise
            trips = 0
        for k in range(trips):
            _expand(env, evs[i:j], {**b, lev: k}, out, depth + 1)
        i = j


def compare_traces(prog, got, spec, types=None, rules=(), calltypes=None, dyn=None, n=24, pre=None, name="", seed0=0,
                   view=None, gview=None, order=None):
    """view: (name, values) -> comparable tuple or None to drop the event"""
    view = view or (lambda nm, a: (nm, a))
    used = undec = 0
    why = ""
    lits = set()
    for e in list(got) + list(spec):
        for x in [e.guard] + list(e.args) + [b[1] for b in e.binders]:
            lits |= literals(x)
    known = callnames(pre) if pre is not None else frozenset()
    for e in spec:
        known = known.union(*[callnames(x) for x in [e.guard] + list(e.args) + [b[1] for b in e.binders]])
    for extra, env in plans(prog, name, seed0, n, types, rules, calltypes, dyn, special(lits), lambda: (used, undec)):
        try:
            if pre is not None and not env.truth(env.ev(pre)):
                continue
            want = [x for x in (view(nm, a) for nm, a, _ in expand(env, spec)) if x is not None]
            if order:
                want.sort(key=order)
        except Undefined:
            continue
        except (Undecidable, RecursionError) as e:
            undec, why = undec + (not extra), extra and why or "spec: " + str(e)
            continue
        site = None
        env.allowed = known
        try:
            ex = expand(env, got)
            have = [(y, l) for y, l in (((gview or view)(nm, a), l) for nm, a, l in ex) if y is not None]
            if order:
                have.sort(key=lambda x: order(x[0]))
            d = None
            for k in range(max(len(want), len(have))):
                if k >= len(have):
                    d = "effect %d missing: %s" % (k, str(want[k])[:300])
                elif k >= len(want):
                    d, site = "unexpected effect %d: %s" % (k, str(have[k][0])[:300]), have[k][1]
                elif want[k][0] != have[k][0][0]:
                    d, site = "effect %d is %s instead of %s" % (k, have[k][0][0], want[k][0]), have[k][1]
                else:
                    d = diff(list(have[k][0][1:]), list(want[k][1:]), "effect %d %s" % (k, want[k][0]))
                    site = have[k][1]
                if d:
                    break
        except Undefined as e:
            d = "undefined behaviour: %s" % e
        except (Undecidable, RecursionError) as e:
            undec, why = undec + (not extra), extra and why or str(e)
            continue
        if d:
            ass = {k: env_show(v) for k, v in env.vals.items() if isinstance(v, (int, float, Fraction, bool, str)) and len(k) < 80}
            return "differ", {"difference": d, "line": site, "valuation": dict(sorted(ass.items())[:60])}
        used += not extra
    if undec:
        return "undecided", why
    if used < max(3, n // 6):
        return "undecided", "only %d of %d valuations satisfied the precondition" % (used, n)
    return "agree", "%d valuations" % used


def env_show(v):
    return _s(v) if isinstance(v, (Fraction, float)) else v
