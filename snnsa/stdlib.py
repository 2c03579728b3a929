"""Transfer functions of the standard library entities the code base uses."""
import re
from fractions import Fraction
from .terms import *
from . import terms as tm
from .interp import LV, Outcome, Unsupported, Dead, Event, _uid
from . import interp as _i

MATH1 = {"exp", "expf", "sqrt", "sqrtf", "log", "logf", "tanh", "tanhf", "fabs", "fabsf", "abs", "floor", "ceil", "round",
         "sin", "cos", "erf", "cosh", "sinh", "floorf", "ceilf", "roundf", "log2", "log10", "exp2", "lround", "expm1", "expm1f", "log1p"}


def canon(n):
    n = n.split("::")[-1]
    if n in ("fabs", "fabsf"):
        return "abs"
    if n.endswith("f") and n[:-1] in MATH1:
        return n[:-1]
    return n


def math1(n, x):
    n = canon(n)
    if n == "sqrt":
        return power(x, num(Fraction_half))
    return call(n, x)


from fractions import Fraction
Fraction_half = Fraction(1, 2)


def power(x, e):
    if isint_const(e):
        k = int(e.args[0])
        if 0 <= k <= 8:
            r = ONE
            for _ in range(k):
                r = mul(r, x)
            return r
        if -8 <= k < 0:
            return inv(power(x, num(-k)))
    return call("pow", x, e)


def cls_of(t):
    return t.replace("const ", "").replace("&", "").strip()


TEXT_STREAMS = ("std::basic_stringstream<", "std::basic_ostringstream<")


def is_text(v):
    return v.op == "str" or v.op == "call" and v.args[0] in ("strcat", "text")


def strcat(a, b):
    if b.op == "str" and b.args[0] == "":
        return a
    if a.op == "str" and b.op == "str":
        return string(a.args[0] + b.args[0])
    if a.op == "str" and a.args[0] == "":
        return b if is_text(b) else mk("call", "strcat", a, b)
    if b.op == "str" and a.op == "call" and a.args[0] == "strcat" and a.args[2].op == "str":
        return mk("call", "strcat", a.args[1], string(a.args[2].args[0] + b.args[0]))
    return mk("call", "strcat", a, b)


def piece(I, a, st):
    """what inserting the expression into a stream writes"""
    if a["k"] == "fnref":
        n = a["fn"]["n"]
        return string({"endl": "\n", "ends": "\0"}.get(n, ""))
    v = I.rv(a, st)
    t = cls_of(str(a.get("t", "")))
    if v.op == "str" or "char *" in t or "char[" in t or t.startswith("std::basic_string"):
        return v
    if t == "char":
        return mk("call", "chr", v) if not (v.op == "num") else string(chr(int(v.args[0])))
    if t.startswith("std::"):
        return string("")  # manipulators change the look of what follows, not what it is
    return mk("call", "text", mk("boolof", v) if t == "bool" and v.op != "boolof" else v)


def text_stream(I, e, l, st):
    """the lvalue is an in-memory stream"""
    x = e
    while isinstance(x, dict) and x.get("k") in ("opcall", "upcast", "cast", "mcall", "paren"):
        x = x["a"][0] if x["k"] == "opcall" else (x.get("obj") if x["k"] == "mcall" else x.get("e"))
    if isinstance(x, dict) and cls_of(str(x.get("t", ""))).startswith(TEXT_STREAMS):
        return True
    try:
        return is_text(I.get(st, l))
    except Unsupported:
        return False


def std_ctor(I, e, st):
    fn = e["fn"]
    cls = fn["cls"]
    args = [a for a in e["a"] if a is not None and not (a["k"] == "ctor" and "allocator" in a["fn"]["cls"])]
    if fn.get("copy") or fn.get("move"):
        return I.rv(args[0], st)
    if cls.startswith("std::vector<") or cls.startswith("std::array<"):
        pt = fn.get("pt", [])
        if not args:
            return lst()
        if pt and pt[0].startswith("std::initializer_list"):
            return I.rv(args[0], st)
        a0 = I.rv(args[0], st)
        if a0.op == "lst":
            return a0
        if a0.op == "iter" and len(args) >= 2:
            b0 = I.rv(args[1], st)
            if b0.op == "iter":
                return arr_of(I, st, a0, b0)
        if len(args) >= 2 and not pt[1].startswith("const std::allocator") :
            v = I.rv(args[1], st)
        else:
            v = elem_default(I, cls, st)
        return mkmap(a0, "_", v)
    if cls.startswith("std::optional<"):
        return optional(I, args[0], st) if len(args) == 1 else lst() if not args else I.fuzzy("optional")
    if cls.startswith("std::pair<") and len(args) == 2:
        return pair(cls, I.rv(args[0], st), I.rv(args[1], st))
    if cls.startswith("std::tuple<") and args and not str(fn.get("pt", [""])[0]).startswith(("const std::tuple", "std::tuple", "std::pair", "const std::pair", "std::allocator_arg")):
        return lst(*[I.rv(a, st) for a in args])
    if cls.startswith("std::span<") and args:
        try:
            if len(args) == 1:
                return view(*range_arg(I, args[0], st))
            a0, k = I.rv(args[0], st), I.rv(args[1], st)
            if a0.op == "iter" and k.op == "iter":
                k = sub(k.args[2], a0.args[2])
            if a0.op == "iter":
                return view(a0, k)
        except Unsupported:
            pass
        return I.fuzzy("span")
    if cls.startswith(("std::unique_ptr", "std::shared_ptr")):
        if not args:
            return NULL
        return I.rv(args[0], st)
    if cls.startswith("std::basic_string<"):
        if not args:
            return string("")
        return I.rv(args[0], st)
    if cls.startswith(TEXT_STREAMS):
        # an in-memory stream is the text written to it
        v = I.rv(args[0], st) if args and "openmode" not in str(args[0].get("t", "")) and "Openmode" not in str(args[0].get("t", "")) else None
        return v if v is not None and is_text(v) else string("")
    if cls.startswith("__gnu_cxx::__normal_iterator"):
        return I.rv(args[0], st)
    if cls == "std::filesystem::path" and args:
        return I.rv(args[0], st)  # a path is its text
    if cls.startswith(("std::function", "std::reference_wrapper")):
        return I.rv(args[0], st) if args else NULL
    m = re.match(r"std::(?:ranges::)?(plus|minus|multiplies|divides|greater|less)\b", cls)
    if m:
        return mk("op2", {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "greater": ">", "less": "<"}[m.group(1)])
    vals = [I.rv(a, st) for a in args]
    if cls == "std::thread":
        # the objects handed to the thread, as they are when it starts
        snap = [I.get(st, LV(v.args[0])) for v in vals if v.op == "addr" and v.args[0] in ("this",)]
        st.trace = st.trace + (Event("std::thread::thread", vals + snap, st.cond(), (), e.get("l")),)
        return mk("call", "std::thread", *vals)
    return mk("call", "ctor:" + cls, *vals)


def period(cls):
    """durations are numbers of nanoseconds; ticks of a duration type in nanoseconds"""
    m = re.match(r"(?:const )?std::chrono::duration<[\w ]+(?:, std::ratio<(\d+), (\d+)>)?>", cls or "")
    if not m:
        return None
    return Fraction(int(m.group(1)), int(m.group(2))) * 10 ** 9 if m.group(1) else Fraction(10 ** 9)


def elem_type(cls):
    m = re.match(r"(?:const )?std::vector<(.*)>$", cls_of(cls))
    return m.group(1) if m else ""


def elem_default(I, cls, st):
    et = elem_type(cls)
    if et == "bool":
        return FALSE
    v = I.default_value(et, st)
    return ZERO if v is None else v


def subarr(a, lo, hi):
    if lo is ZERO and hi is length(a):
        return a
    return mk("slice", a, lo, hi)


def arr_of(I, st, it0, it1):
    src = I.get(st, LV(it0.args[0], it0.args[1]))
    if len(it0.args) > 3:
        r = subarr(src, add(iter_ix(it1), ONE), add(iter_ix(it0), ONE))
        return mk("rev", r)
    return subarr(src, it0.args[2], it1.args[2])


def optional(I, a, st):
    """an optional is the sequence of its values: none or one"""
    t = cls_of(a.get("t", ""))
    if t == "std::nullopt_t":
        return lst()
    v = I.rv(a, st)
    return v if t.startswith("std::optional<") else lst(v)


def pair(cls, a, b):
    return setf(setf(mk("undef", cls), "first", a), "second", b)


def std_mcall(I, e, st):
    fn = e["fn"]
    n = fn["n"]
    cls = fn["cls"]
    A = e["a"]
    if re.match(r"std::basic_o?fstream<", cls) and n in ("open", "close", "flush"):
        l = I.this_lv(e, st)
        if n == "open":
            vals = [I.rv(a, st) for a in A]
            I.set(st, l, mk("call", "ctor:" + cls, *vals))
            st.trace = st.trace + (Event("file:open", [l.addr()] + vals[:2], st.cond(), (), e.get("l")),)
        elif n == "close":
            st.trace = st.trace + (Event("file:close", [l.addr()], st.cond(), (), e.get("l")),)
        return UNIT
    if cls == "std::filesystem::path" and n in ("string", "generic_string", "c_str", "native"):
        return I.rv(e["obj"], st)
    if cls.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__uniq_ptr", "std::__shared_count")):
        l = I.this_lv(e, st)
        v = I.get(st, l)
        if n == "get":
            return v
        if n == "reset":
            I.set(st, l, I.rv(A[0], st) if A else NULL)
            return UNIT
        if n == "release":
            I.set(st, l, NULL)
            return v
        if n == "swap":
            r = I.lv(A[0], st)
            w = I.get(st, r)
            I.set(st, l, w)
            I.set(st, r, v)
            return UNIT
        if n == "operator bool":
            return boolof(v)
        return mk("call", "sp." + n, v)
    if cls.startswith("std::vector<") or cls.startswith("std::array<") or cls.startswith("std::basic_string<") or cls.startswith("std::initializer_list"):
        l = I.this_lv(e, st)
        v = I.get(st, l)
        if n in ("size", "length"):
            return length(v)
        if n == "empty":
            return eq(length(v), ZERO)
        if n in ("c_str", "data") and cls.startswith("std::basic_string<"):
            return v
        if n in ("begin", "cbegin"):
            return mk("iter", l.root, l.path, ZERO)
        if n in ("end", "cend"):
            return mk("iter", l.root, l.path, length(v))
        if n in ("rbegin", "crbegin"):
            return mk("iter", l.root, l.path, ZERO, length(v))
        if n in ("rend", "crend"):
            return mk("iter", l.root, l.path, length(v), length(v))
        if n == "back":
            return l.i(sub(length(v), ONE))
        if n == "front":
            return l.i(ZERO)
        if n == "at":
            return l.i(I.rv(A[0], st))
        if n == "data":
            return mk("iter", l.root, l.path, ZERO)
        if n in ("reserve", "shrink_to_fit"):
            for a in A:
                I.rv(a, st)
            return UNIT
        if n == "clear":
            I.set(st, l, lst() if not cls.startswith("std::basic_string") else string(""))
            return UNIT
        if n == "resize":
            k = I.rv(A[0], st)
            d = I.rv(A[1], st) if len(A) > 1 else elem_default(I, cls, st)
            if v.op == "lst" and not v.args:
                I.set(st, l, mkmap(k, "_", d))
            else:
                I.set(st, l, resize(v, k, d))
            return UNIT
        if n == "assign":
            k = I.rv(A[0], st)
            d = I.rv(A[1], st)
            if k.op == "iter":
                I.set(st, l, arr_of(I, st, k, d))
            else:
                I.set(st, l, mkmap(k, "_", d))
            return UNIT
        if n == "push_back":
            I.set(st, l, push(v, I.rv(A[0], st)))
            return UNIT
        if n == "pop_back":
            I.set(st, l, subarr(v, ZERO, sub(length(v), ONE)))
            return UNIT
        if n == "emplace_back":
            et = elem_type(cls)
            x = emplace(I, et, A, st)
            I.set(st, l, push(v, x))
            return l.i(length(v))
        if n == "insert" and len(A) in (2, 3) and not cls.startswith("std::basic_string"):
            vs = [I.rv(x, st) for x in A]
            p = vs[0]
            src = None
            if p.op == "iter" and len(A) == 3 and vs[1].op == "iter" and vs[2].op == "iter":
                src = arr_of(I, st, vs[1], vs[2])
            elif p.op == "iter" and len(A) == 3:
                src = mkmap(vs[1], "_", vs[2])
            elif p.op == "iter" and "initializer_list" in str((fn.get("pt") or ["", ""])[1]):
                src = vs[1]
            elif p.op == "iter":
                src = lst(vs[1])
            if src is None:
                I.set(st, l, I.fuzzy("vector::insert"))
                return I.fuzzy("result of vector::insert")
            at = p.args[2]
            if at is length(v):
                I.set(st, l, src if (v.op == "lst" and not v.args) else mk("concat", *(list(v.args) if v.op == "concat" else [v]), src))
            else:
                I.set(st, l, mk("concat", subarr(v, ZERO, at), src, subarr(v, at, length(v))))
            return p
        if n == "erase" and len(A) in (1, 2) and not cls.startswith("std::basic_string"):
            vs = [I.rv(x, st) for x in A]
            if any(x.op != "iter" for x in vs):
                I.set(st, l, I.fuzzy("vector::erase"))
                return I.fuzzy("result of vector::erase")
            a = vs[0].args[2]
            b = vs[1].args[2] if len(A) == 2 else add(a, ONE)
            if b is length(v):
                I.set(st, l, subarr(v, ZERO, a))
            elif a is ZERO:
                I.set(st, l, subarr(v, b, length(v)))
            else:
                I.set(st, l, mk("concat", subarr(v, ZERO, a), subarr(v, b, length(v))))
            return vs[0]
        if n == "append" and len(A) == 1 and cls.startswith("std::basic_string"):
            I.set(st, l, strcat(v, I.rv(A[0], st)))
            return l
        if n == "swap":
            r = I.lv(A[0], st)
            w = I.get(st, r)
            I.set(st, l, w)
            I.set(st, r, v)
            return UNIT
        if n == "operator[]":
            return l.i(I.rv(A[0], st))
        args = [I.rv(a, st) for a in A]
        if not fn.get("const"):
            I.set(st, l, I.fuzzy("modified by " + n))
        return I.fuzzy("result of " + n)
    if cls.startswith("std::span<") or cls.startswith("std::ranges::"):
        v = I.rv(e["obj"], st)
        if v.op == "view":
            start, k = v.args
            if n in ("size",):
                return k
            if n == "empty":
                return eq(k, ZERO)
            if n in ("begin", "cbegin", "data"):
                return start
            if n in ("end", "cend"):
                return iter_at(start, add(start.args[2], k))
            if n == "front":
                return it_lv(start, ZERO)
            if n == "back":
                return it_lv(start, sub(k, ONE))
            if n == "operator[]":
                return it_lv(start, I.rv(A[0], st))
            if n == "first" and len(A) == 1:
                return view(start, I.rv(A[0], st))
            if n == "last" and len(A) == 1:
                m = I.rv(A[0], st)
                return view(iter_at(start, add(start.args[2], sub(k, m))), m)
            if n == "subspan" and len(A) in (1, 2):
                o = I.rv(A[0], st)
                full = len(A) == 1 or A[1]["k"] in ("defarg", "?")
                return view(iter_at(start, add(start.args[2], o)), sub(k, o) if full else I.rv(A[1], st))
        return I.fuzzy(cls.split("<")[0] + "::" + n)
    if cls.startswith(("std::optional<", "std::_Optional")):
        try:
            l = I.this_lv(e, st)
        except Unsupported:
            l = I.temp(st, I.rv(e["obj"], st))
        v = I.get(st, l)
        if n in ("has_value", "operator bool"):
            return lt(ZERO, length(v))
        if n == "value":
            return l.i(ZERO)
        if n == "value_or":
            return ite(lt(ZERO, length(v)), read(v, ZERO), I.rv(A[0], st))
        if n == "reset":
            I.set(st, l, lst())
            return UNIT
        if n == "emplace":
            I.set(st, l, lst(emplace(I, elem_type(cls.replace("std::optional<", "std::vector<")), A, st)))
            return l.i(ZERO)
        return I.fuzzy("optional::" + n)
    if n == "operator bool" and "_Bit_reference" in cls:
        return boolof(I.rv(e["obj"], st))
    if n == "hash_code":
        return mk("call", "hash_code", I.rv(e["obj"], st))
    if n in ("register_type",):
        o = I.rv(e["obj"], st)
        targ = (fn.get("targs") or ["?"])[0]
        st.trace = st.trace + (Event("register_type", [string(targ)], st.cond(), (), e.get("l")),)
        return UNIT
    if cls.startswith("std::thread") or "std::thread" in cls:
        o = I.rv(e["obj"], st)
        if n in ("join", "detach"):
            l = I.this_lv(e, st)
            own = [I.get(st, LV(l.root))] if l.path else []
            st.trace = st.trace + (Event("std::thread::" + n, [o] + own, st.cond(), (), e.get("l")),)
            return UNIT
        return mk("call", "std::thread::" + n, o)
    if cls.startswith("std::atomic") or "__atomic_base" in cls:
        l = I.this_lv(e, st)
        if n in ("load",) or n.startswith("operator "):
            return I.get(st, l)
        if n == "store":
            I.set(st, l, I.rv(A[0], st))
            return UNIT
        if n == "exchange":
            old = I.get(st, l)
            I.set(st, l, I.rv(A[0], st))
            return old
    obj = I.rv(e["obj"], st)
    args = [I.rv(a, st) for a in A]
    if n == "count" and period(cls) is not None:
        return rdiv(obj, num(period(cls)))
    if n == "str" and cls.startswith(TEXT_STREAMS + ("std::basic_ios", "std::basic_ostream")) and not args:
        return obj
    if n == "str" or n == "count":
        return mk("call", n, obj, *args)
    ev = Event(cls.split("<")[0] + "::" + n, [obj] + args, st.cond(), (), e.get("l"))
    st.trace = st.trace + (ev,)
    I.opaque_std = getattr(I, "opaque_std", set())
    I.opaque_std.add(fn["q"])
    return mk("call", cls.split("<")[0] + "::" + n, obj, *args)


def emplace(I, et, A, st):
    if et in I.p.recs:
        argv = A
        if len(A) == 1:
            t = cls_of(A[0].get("t", ""))
            if t == et:
                return I.rv(A[0], st)
        # choose the constructor by arity
        cs = [f for f in I.p.byq.get(et + "::" + et.split("::")[-1].split("<")[0], []) if f.get("kind") == "ctor"
              and len(f["params"]) >= len(A) and all(p.get("def") for p in f["params"][len(A):])
              and not f.get("copy") and not f.get("move")]
        if len(cs) > 1:
            def score(f):
                return sum(cls_of(p["t"]) == cls_of(a.get("t", "")) for p, a in zip(f["params"], A))
            cs.sort(key=lambda f: -score(f))
        if cs:
            f = cs[0]
            ce = {"k": "ctor", "fn": {k: f[k] for k in f if k not in ("body", "inits", "params")}, "a": A, "t": et}
            l = I.new_object(et, ce, st)
            return I.get(st, l)
        if not A:
            v = I.default_value(et, st)
            if v is not None:
                return v
        return mk("call", "make:" + et, *[I.rv(a, st) for a in A])
    if not A:
        v = I.default_value(et, st)
        return ZERO if v is None else v
    return I.rv(A[0], st)


def std_opcall(I, e, st):
    op = e["op"]
    A = e["a"]
    fn = e.get("fn") or {}
    q = fn.get("q", "")
    cls = fn.get("cls", "")
    if op == "[]":
        base = I.lv(A[0], st)
        v = I.get(st, base)
        i = I.rv(A[1], st)
        if v.op == "view":
            return it_lv(v.args[0], i)
        if v.op == "iter":
            return LV(v.args[0], v.args[1] + (("i", iter_ix(v, i)),))
        if hasattr(I, "on_index"):
            I.on_index(v, i, e, st)
        return base.i(i)
    if op in ("->", "*") and len(A) == 1:
        if cls.startswith(("std::optional<", "std::_Optional")):
            try:
                l = I.lv(A[0], st)
            except Unsupported:
                l = I.temp(st, I.rv(A[0], st))
            return l.i(ZERO) if op == "*" else l.i(ZERO).addr()
        v = I.rv(A[0], st)
        if v.op == "iter":
            return LV(v.args[0], v.args[1] + (("i", iter_ix(v)),)) if op == "*" else mk("addr", v.args[0], v.args[1] + (("i", iter_ix(v)),))
        if op == "->":
            return v
        return I.deref(st, v)
    if op in ("++", "--"):
        l = I.lv(A[0], st)
        v = I.get(st, l)
        d = num(1 if op == "++" else -1)
        if v.op == "iter":
            I.set(st, l, iter_at(v, add(v.args[2], d)))
        else:
            I.set(st, l, add(v, d))
        return v if len(A) > 1 else l
    if op == "=" and cls.startswith("std::tuple<"):
        l = I.rv(A[0], st)
        v = I.rv(A[1], st)
        if l.op == "tie":
            for k, a in enumerate(l.args):
                I.set(st, I.deref(st, a), read(v, num(k)))
            return v
        l = I.lv(A[0], st)
        I.set(st, l, v)
        return l
    if op == "=" and cls.startswith("std::optional<"):
        l = I.lv(A[0], st)
        I.set(st, l, optional(I, A[1], st))
        return l
    if op == "=":
        v = I.rv(A[1], st)
        l = I.lv(A[0], st)
        I.set(st, l, v)
        return l
    if op == "&" and "archive" in q:
        return archive(I, e, st)
    if op in ("<<", ">>") and "archive" in q:
        return archive(I, e, st)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        a, b = I.rv(A[0], st), I.rv(A[1], st)
        if a.op == "iter" and b.op == "iter":
            return I.arith(op, a.args[2], b.args[2], "int")
        et = elem_type(cls_of(A[0].get("t", "")))
        if op in ("==", "!="):
            r = container_eq(I, a, b, cls_of(A[0].get("t", "")), st)
            return r if op == "==" else bnot(r)
        if "chrono" in q:
            return I.arith(op, a, b, "int")
        return I.arith(op, a, b, "int")
    if op in ("+", "-", "*", "/", "%"):
        a, b = I.rv(A[0], st), I.rv(A[1], st) if len(A) > 1 else ZERO
        if a.op == "iter" or b.op == "iter":
            return I.iter_arith(op, a, b)
        if "chrono" in q and op == "-":
            return sub(a, b)
        if "chrono" in q and op == "+":
            return add(a, b)
        if op == "+" and (is_text(a) or is_text(b) or "basic_string" in str(fn.get("ret", ""))):
            return strcat(a, b)
        return mk("call", "op" + op, a, b) if "string" in q or op == "+" else I.arith(op, a, b, "float")
    if op in ("+=", "-="):
        l = I.lv(A[0], st)
        a, b = I.get(st, l), I.rv(A[1], st)
        r = I.iter_arith(op[0], a, b) if a.op == "iter" else (strcat(a, b) if a.op in ("str", "call") or "basic_string" in cls else I.arith(op[0], a, b, "float"))
        I.set(st, l, r)
        return l
    if op == "<<":
        # streams: observable text only
        try:
            l = I.lv(A[0], st)
        except Unsupported:
            l = None
        if l is not None and text_stream(I, A[0], l, st):
            b = piece(I, A[1], st)
            I.set(st, l, strcat(I.get(st, l), b))
            return l
        if l is not None:
            for a in A[1:]:
                try:
                    I.rv(a, st)
                except Unsupported:
                    pass
            return l
        for a in A[1:]:
            try:
                I.rv(a, st)
            except Unsupported:
                pass
        try:
            l = I.lv(A[0], st)
            return l
        except Unsupported:
            return UNIT
    if op == "()":
        return std_functor(I, e, st)
    if op == "|" and len(A) == 2 and ("ranges" in q or "ranges" in A[1].get("t", "") + str(A[1].get("g", ""))):
        return pipe(I, A, st)
    vs = [I.rv(a, st) for a in A]
    if op in ("|", "&", "^") and len(vs) == 2 and all(v.op == "num" for v in vs):
        return I.arith(op, vs[0], vs[1], "int")
    return mk("call", "op" + op, *vs)


def container_eq(I, a, b, cls, st):
    if cls.startswith("std::vector<"):
        et = elem_type(cls)
        if et in I.p.recs:
            return mk("eqv", *sorted((a, b), key=lambda t: t.id)) if a is not b else TRUE
    return eq(a, b)


def archive(I, e, st):
    """one archive operation: (address or value, static type, archive, operator, value before)"""
    A = e["a"]
    ar = I.rv(A[0], st)
    x = A[1]
    l = None
    try:
        l = I.lv(x, st)
    except Unsupported:
        pass
    v = I.get(st, l) if l is not None else I.rv(x, st)
    st.trace = st.trace + (Event("archive", [l.addr() if l is not None else v, string(cls_of(x.get("t", ""))), ar, string(e["op"]), v],
                                 st.cond(), (), e.get("l")),)
    h = getattr(I, "on_archive", None)
    if h and "iarchive" in A[0].get("t", ""):
        h(I, l, v, st)
    return I.lv(A[0], st)


RANDOM = re.compile(r"random|mt19937|_distribution")


def run_loop(I, st, n, fn, line=0):
    """summarise 'for t in [0,n): fn(state, t)'"""
    from .loops import summarise
    I.frames.append(dict(I.frames[-1], vars=dict(I.frames[-1]["vars"])))
    try:
        outs = summarise(I, {"l": line}, st, None, None, None, n, None,
                         lambda S, t: _body(I, S, t, fn))
    finally:
        I.frames.pop()
    nx = [o for o in outs if o.kind == "next"]
    if not nx:
        raise Dead()
    o = _i.merge(nx, st.pc)
    st.store, st.pc, st.trace = o.st.store, o.st.pc, o.st.trace


def _body(I, S, t, fn):
    try:
        fn(S, t)
        return [Outcome("next", S)]
    except Dead:
        return []


def view(start, n):
    """a part of a sequence, as the iterator to its first element and its length"""
    return mk("view", start, n)


def view_of(I, v, l, st):
    """(start, n) of the range with value v stored at l"""
    if v.op == "view":
        return v.args
    if v.op in ("unk", "call") or l is None:
        raise Unsupported("range")
    return mk("iter", l.root, l.path, ZERO), length(v)


def range_arg(I, a, st):
    try:
        l = I.lv(a, st)
    except Unsupported:
        l = I.temp(st, I.rv(a, st))
    v = I.get(st, l)
    if v.op == "view":
        return v.args
    if "std::ranges::" in a.get("t", "") and "_view" in a.get("t", ""):
        raise Unsupported("view")
    return mk("iter", l.root, l.path, ZERO), length(v)


def elements(I, v, st):
    """(number, element at) of a view"""
    if v.op == "view":
        return v.args[1], lambda t: it_lv(v.args[0], t)
    if v.op == "iota":
        return v.args[1], lambda t: add(v.args[0], t)
    return None


def adapt(I, name, start, n, args):
    """the view a range adaptor makes of a view"""
    lo = start.args[2]
    if name == "reverse":
        if len(start.args) > 3:
            return view(mk("iter", start.args[0], start.args[1], sub(sub(start.args[3], lo), n)), n)
        return view(mk("iter", start.args[0], start.args[1], ZERO, add(lo, n)), n)
    if name in ("take", "first"):
        k = args[0]
        return view(start, ite(lt(k, n), k, n))
    if name == "drop":
        k = ite(lt(args[0], n), args[0], n)
        return view(iter_at(start, add(lo, k)), sub(n, k))
    if name == "all":
        return view(start, n)
    return None


VIEWS = re.compile(r"std::(?:ranges::)?views::(\w+)$")


def adaptor_name(a):
    while a["k"] in ("upcast", "cast", "paren"):
        a = a["e"]
    m = VIEWS.match(str(a.get("g") or "")) if a["k"] == "ref" else None
    return m.group(1) if m else None


def view_call(I, A, st):
    """a range adaptor applied to a range, or an adaptor waiting for one"""
    name = adaptor_name(A[0]) if A else None
    if name is None:
        return None
    if name == "iota":
        if len(A) != 3:
            return I.fuzzy("unbounded iota")
        a, b = I.rv(A[1], st), I.rv(A[2], st)
        n = sub(b, a)
        return mk("iota", a, ite(lt(n, ZERO), ZERO, n))
    if len(A) == 2 and name in ("take", "drop"):
        return mk("adaptor", name, I.rv(A[1], st))
    if name in ("reverse", "take", "drop", "all"):
        try:
            start, n = range_arg(I, A[1], st)
        except Unsupported:
            return I.fuzzy("view")
        r = adapt(I, name, start, n, [I.rv(a, st) for a in A[2:]])
        if r is not None:
            return r
    return I.fuzzy("view " + name)


def pipe(I, A, st):
    """range | adaptor"""
    name = adaptor_name(A[1])
    f = mk("adaptor", name) if name is not None else I.rv(A[1], st)
    if f.op != "adaptor":
        return I.fuzzy("view")
    try:
        start, n = range_arg(I, A[0], st)
    except Unsupported:
        return I.fuzzy("view")
    r = adapt(I, f.args[0], start, n, f.args[1:])
    return r if r is not None else I.fuzzy("view " + f.args[0])


def algo_args(I, A, st, nranges=1):
    """normalise (first,last,...) or (range,...) -> list of (lv, lo, n), rest"""
    v0 = None
    t0 = A[0].get("t", "")
    if "iterator" in t0 or t0.rstrip().endswith("*"):
        a, b = I.rv(A[0], st), I.rv(A[1], st)
        if a.op != "iter" or b.op != "iter":
            raise Unsupported("iterator range")
        if len(a.args) != len(b.args):
            raise Unsupported("iterator range")
        return (a, sub(b.args[2], a.args[2])), A[2:]
    return range_arg(I, A[0], st), A[1:]


def it_lv(it, t):
    return LV(it.args[0], it.args[1] + (("i", iter_ix(it, t)),))


def algorithm(I, name, A, st, e):
    if name in ("begin", "end", "cbegin", "cend") and len(A) == 1:
        l = I.lv(A[0], st)
        return mk("iter", l.root, l.path, ZERO if "begin" in name else length(I.get(st, l)))
    if name.endswith("_n") and name in ("fill_n", "generate_n", "copy_n", "for_each_n"):
        a = I.rv(A[0], st)
        if a.op != "iter":
            raise Unsupported("iterator")
        (start, n), rest = (a, I.rv(A[1], st)), A[2:]
        n = ite(lt(n, ZERO), ZERO, n)
        name = name[:-2]
    else:
        (start, n), rest = algo_args(I, A, st)
    l, lo = LV(start.args[0], start.args[1]), start.args[2]
    backwards = len(start.args) > 3
    if backwards and name in ("reverse", "shuffle"):
        raise Unsupported("reversed range")
    rest = [r for r in rest if not re.search(r"std::(ranges::less|identity|less<)", r.get("t", ""))]
    isranges = (e.get("fn") or {}).get("q", "").startswith("std::ranges") and "iterator" not in A[0].get("t", "")
    el = lambda t: it_lv(start, t)
    if name in ("for_each",):
        f = I.rv(rest[0], st)
        run_loop(I, st, n, lambda S, t: I.call_closure(f, [el(t)], S), e.get("l"))
        return UNIT
    if name == "fill":
        v = I.rv(rest[0], st)
        run_loop(I, st, n, lambda S, t: I.set(S, el(t), v), e.get("l"))
        return UNIT
    if name == "generate":
        f = I.rv(rest[0], st)
        run_loop(I, st, n, lambda S, t: I.set(S, el(t), I.call_closure(f, [], S)), e.get("l"))
        return UNIT
    if name == "iota":
        v = I.rv(rest[0], st)
        run_loop(I, st, n, lambda S, t: I.set(S, el(t), add(v, t)), e.get("l"))
        return UNIT
    if name == "transform":
        second = None
        t1 = rest[0].get("t", "")
        if len(rest) == 2:
            out, f = I.rv(rest[0], st), I.rv(rest[1], st)
        else:
            if "iterator" in t1 and len(rest) == 4:
                s0 = I.rv(rest[0], st)
                out, f = I.rv(rest[2], st), I.rv(rest[3], st)
            elif "iterator" in t1:
                s0 = I.rv(rest[0], st)
                out, f = I.rv(rest[1], st), I.rv(rest[2], st)
            else:
                l2 = I.lv(rest[0], st)
                s0 = mk("iter", l2.root, l2.path, ZERO)
                n2 = length(I.get(st, l2))
                if n2 is not n:
                    n = ite(lt(n2, n), n2, n)
                out, f = I.rv(rest[1], st), I.rv(rest[2], st)
            second = s0
        def body(S, t):
            args = [el(t)] + ([it_lv(second, t)] if second is not None else [])
            v = I.call_closure(f, args, S)
            if isinstance(v, LV):
                v = I.get(S, v)
            if out.op == "inserter":
                c = LV(out.args[0], out.args[1])
                I.set(S, c, push(I.get(S, c), v))
            else:
                I.set(S, it_lv(out, t), v)
        run_loop(I, st, n, body, e.get("l"))
        return UNIT
    if name in ("replace", "replace_if") and len(rest) == 2:
        new = I.rv(rest[1], st)
        old = I.rv(rest[0], st)
        def body(S, t):
            x = I.get(S, el(t))
            c = eq(x, old) if name == "replace" else boolof(I.val(I.call_closure(old, [el(t)], S), S))
            I.set(S, el(t), ite(c, new, x))
        run_loop(I, st, n, body, e.get("l"))
        return UNIT
    if name in ("copy", "move", "copy_if"):
        out = I.rv(rest[0], st)
        f = I.rv(rest[1], st) if name == "copy_if" else None
        if f is not None and out.op != "inserter":
            raise Unsupported("copy_if to an iterator")
        if out.op not in ("inserter", "iter"):
            raise Unsupported("output iterator")
        def body(S, t):
            v = I.get(S, el(t))
            if out.op == "inserter":
                c = LV(out.args[0], out.args[1])
                p = push(I.get(S, c), v)
                if f is not None:
                    p = ite(boolof(I.val(I.call_closure(f, [el(t)], S), S)), p, I.get(S, c))
                I.set(S, c, p)
            else:
                I.set(S, it_lv(out, t), v)
        run_loop(I, st, n, body, e.get("l"))
        return UNIT
    if name in ("accumulate", "reduce"):
        acc = I.temp(st, I.rv(rest[0], st) if rest else ZERO)
        f = I.rv(rest[1], st) if len(rest) > 1 else mk("op2", "+")
        run_loop(I, st, n, lambda S, t: I.set(S, acc, I.val(I.call_closure(f, [I.get(S, acc), el(t)], S), S)), e.get("l"))
        return I.get(st, acc)
    if name in ("inner_product", "transform_reduce"):
        # (range, range, init[, reduce, transform]) or (range, init, reduce, transform)
        one = name == "transform_reduce" and len(rest) == 3
        s0 = None if one else I.rv(rest[0], st)
        if s0 is not None and s0.op != "iter":
            raise Unsupported("iterator")
        acc = I.temp(st, I.rv(rest[0 if one else 1], st))
        fs = [I.rv(x, st) for x in rest[1 if one else 2:]]
        if len(fs) not in (0, 2):
            raise Unsupported("functions")
        def body(S, t):
            args = [el(t)] + ([] if one else [it_lv(s0, t)])
            x = I.val(I.call_closure(fs[1], args, S), S) if fs else mul(I.get(S, args[0]), I.get(S, args[1]))
            a = I.get(S, acc)
            I.set(S, acc, I.val(I.call_closure(fs[0], [a, x], S), S) if fs else add(a, x))
        run_loop(I, st, n, body, e.get("l"))
        return I.get(st, acc)
    if name in ("any_of", "all_of", "none_of", "count_if", "find_if", "find_if_not", "find", "count", "contains"):
        f = I.rv(rest[0], st)
        if len(rest) > 1:
            raise Unsupported("projection")
        if name in ("find", "count", "contains"):
            value = f
            f = None
        def holds(t, S):
            if f is None:
                return eq(I.get(S, el(t)), value)
            return boolof(I.val(I.call_closure(f, [el(t)], S), S))
        if name in ("count_if", "count"):
            acc = I.temp(st, ZERO)
            run_loop(I, st, n, lambda S, t: I.set(S, acc, add(I.get(S, acc), ite(holds(t, S), ONE, ZERO))), e.get("l"))
            return I.get(st, acc)
        neg_ = name == "all_of"
        S = st.copy()
        tn = "q%d" % next(_uid)
        t = mk("lv", tn)
        c = holds(t, S)
        if name == "find_if_not":
            c = bnot(c)
        if name.startswith("find"):
            return iter_at(start, add(lo, ite(many(n, tn, c), mfirst(n, tn, c), n)))
        if name in ("any_of", "contains"):
            return many(n, tn, c)
        if name == "none_of":
            return bnot(many(n, tn, c))
        return mall(n, tn, c)
    if name in ("max_element", "min_element", "max", "min") :
        idx = I.temp(st, ZERO)
        def body(S, t):
            cur = I.get(S, el(I.get(S, idx)))
            x = I.get(S, el(t))
            if rest:
                f = I.rv(rest[0], S)
                c = boolof(I.val(I.call_closure(f, [cur, x] if "max" in name else [x, cur], S), S))
            else:
                c = lt(cur, x) if "max" in name else lt(x, cur)
            I.set(S, idx, ite(c, t, I.get(S, idx)))
        run_loop(I, st, n, body, e.get("l"))
        if name in ("max", "min"):
            return I.get(st, el(I.get(st, idx)))
        return iter_at(start, add(lo, I.get(st, idx)))
    if name == "shuffle":
        v = I.get(st, l)
        st.trace = st.trace + (Event("shuffle", [l.addr(), v, lo, n], st.cond(), (), e.get("l")),)
        I.rv(rest[0], st) if rest else None
        I.set(st, l, mk("call", "shuffled", v, lo, n, num(next(_uid)), *I.active))
        return UNIT
    if name == "reverse":
        v = I.get(st, l)
        if lo is ZERO and n is length(v):
            I.set(st, l, mk("rev", v))
        else:
            I.set(st, l, mk("concat", subarr(v, ZERO, lo), mk("rev", subarr(v, lo, add(lo, n))), subarr(v, add(lo, n), length(v))))
        return UNIT
    if name in ("equal",):
        same = TRUE
        if "iterator" in rest[0].get("t", ""):
            s0, rest = I.rv(rest[0], st), rest[1:]
            if s0.op != "iter":
                raise Unsupported("iterator")
            if rest and "iterator" in rest[0].get("t", ""):
                s1, rest = I.rv(rest[0], st), rest[1:]
                if s1.op != "iter" or len(s0.args) != len(s1.args):
                    raise Unsupported("comparison")
                same = eq(n, sub(s1.args[2], s0.args[2]))
        else:
            (s0, n2), rest = range_arg(I, rest[0], st), rest[1:]
            same = eq(n, n2)
        if len(rest) > 1:
            raise Unsupported("projection")
        f = I.rv(rest[0], st) if rest else None
        tn = "q%d" % next(_uid)
        t = mk("lv", tn)
        a, b = el(t), it_lv(s0, t)
        if f is None:
            c = eq(I.get(st, a), I.get(st, b))
        else:
            S = st.copy()
            c = boolof(I.val(I.call_closure(f, [a, b], S), S))
        return band(same, mall(n, tn, c))
    return None


def std_functor(I, e, st):
    q = e["fn"]["q"] if e.get("fn") else ""
    A = e["a"]
    m = re.match(r"std::ranges::__(\w+?)_fn::operator\(\)", q)
    if m:
        try:
            r = algorithm(I, m.group(1), A[1:], st, e)
        except Unsupported:
            r = None
        if r is not None:
            return r
        I.note("unmodelled algorithm " + q)
        return havoc_call(I, q, A[1:], st, e)
    if RANDOM.search(q):
        st.trace = st.trace + (Event("random", [string(q)], st.cond(), (), e.get("l")),)
        d = I.rv(A[0], st)
        return mk("call", "random", d, num(next(_uid)), *I.active)
    if e.get("fn") and e["fn"]["n"] == "operator()":
        c = I.rv(A[0], st)
        if c.op in ("clo", "fn", "op2", "bind"):
            args = I.eval_args({"params": [{"t": t} for t in e["fn"].get("pt", [])]}, A[1:], st)
            return I.call_closure(c, args, st)
        r = view_call(I, A, st)
        if r is not None:
            return r
        return mk("call", "apply", c, *[I.rv(a, st) for a in A[1:]])
    return mk("call", "apply", *[I.rv(a, st) for a in A])


def havoc_call(I, q, A, st, e):
    vals = []
    for a in A:
        vals.append(I.rv(a, st))
    for a in A:
        try:
            l = I.lv(a, st)
            if l.root in st.store and not str(l.root).startswith("T"):
                I.set(st, l, I.fuzzy("argument of " + q))
        except (Unsupported, Dead):
            pass
    for v in vals:
        v = v.args[0] if v.op == "view" else v
        if v.op == "iter":
            I.set(st, LV(v.args[0], v.args[1]), I.fuzzy("range argument of " + q))
    return I.fuzzy("result of " + q)


ALGOS = {"transform", "accumulate", "generate", "fill", "iota", "for_each", "copy", "any_of", "all_of", "none_of", "count_if", "count", "find", "find_if_not", "contains", "fill_n", "copy_n", "generate_n", "for_each_n", "copy_if", "replace", "replace_if", "transform_reduce",
         "max_element", "min_element", "shuffle", "inner_product", "reduce", "reverse", "equal", "find_if", "begin", "end", "cbegin", "cend"}


def std_call(I, e, st):
    fn = e["fn"]
    q = fn["q"]
    n = fn["n"]
    A = e["a"]
    if n in ("move", "forward", "as_const", "ref", "cref") and len(A) == 1:
        if n in ("ref", "cref"):
            return I.lv(A[0], st).addr()
        try:
            return I.lv(A[0], st)
        except Unsupported:
            return I.rv(A[0], st)
    if n in ("make_unique", "make_shared"):
        m = re.match(r"(?:std::)?(?:unique_ptr|shared_ptr)<(.*?)(?:, std::default_delete.*)?>$", fn["ret"].replace("std::__detail::__unique_ptr_t<", "std::unique_ptr<"))
        et = (fn.get("targs") or [""])[0]
        r = emplace_new(I, et, A, st)
        return r
    if n in ("max", "min") and len(A) >= 1 and (len(A) == 2 or (len(A) == 3 and "initializer_list" not in A[0].get("t", ""))):
        a, b = I.rv(A[0], st), I.rv(A[1], st)
        return ite(lt(a, b), b, a) if n == "max" else ite(lt(b, a), b, a)
    if n in ("max", "min") and len(A) == 1:
        v = I.rv(A[0], st)
        if v.op == "lst":
            r = v.args[0]
            for x in v.args[1:]:
                r = ite(lt(r, x), x, r) if n == "max" else ite(lt(x, r), x, r)
            return r
    if n == "clamp":
        v, lo, hi = [I.rv(a, st) for a in A[:3]]
        return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
    if n in MATH1 and len(A) == 1:
        x = I.rv(A[0], st)
        if n == "abs" and A[0].get("t") == "int" and fn.get("pt", [""])[0] == "int":
            pass
        return math1(n, x)
    if n in ("pow", "powf") and len(A) == 2:
        return power(I.rv(A[0], st), I.rv(A[1], st))
    if n in ("fma", "fmaf", "std::fma") and len(A) == 3:
        a, b, c = [I.rv(x, st) for x in A]
        return add(mul(a, b), c)
    if n in ("fmax", "fmin", "fmaxf", "fminf"):
        a, b = I.rv(A[0], st), I.rv(A[1], st)
        return ite(lt(a, b), b, a) if "max" in n else ite(lt(b, a), b, a)
    if n in ("isnan", "isinf", "isfinite", "fpclassify", "isnormal"):
        return mk("call", n, I.rv(A[0], st))
    if n == "swap" and len(A) == 2:
        a, b = I.lv(A[0], st), I.lv(A[1], st)
        va, vb = I.get(st, a), I.get(st, b)
        I.set(st, a, vb)
        I.set(st, b, va)
        return UNIT
    if n == "make_pair" and len(A) == 2:
        return pair(cls_of(fn.get("ret", "std::pair<>")), I.rv(A[0], st), I.rv(A[1], st))
    if n == "make_tuple":
        return lst(*[I.rv(a, st) for a in A])
    if n == "tie":
        return mk("tie", *[I.lv(a, st).addr() for a in A])
    if n == "get" and len(A) == 1 and q.startswith("std::") and re.match(r"\d+", str((fn.get("targs") or [""])[0])):
        k = int(re.match(r"\d+", fn["targs"][0]).group(0))
        t = cls_of(A[0].get("t", ""))
        try:
            l = I.lv(A[0], st)
        except Unsupported:
            l = I.temp(st, I.rv(A[0], st))
        if t.startswith("std::pair<"):
            return l.f(("first", "second")[k])
        if t.startswith(("std::tuple<", "std::array<")):
            return l.i(num(k))
    if n == "back_inserter":
        l = I.lv(A[0], st)
        return mk("inserter", l.root, l.path)
    if n == "bind":
        f = I.rv(A[0], st)
        args = []
        for a in A[1:]:
            t = a.get("t", "")
            m = re.search(r"_Placeholder<(\d+)>", t)
            if m:
                args.append(mk("ph", int(m.group(1))))
            else:
                args.append(I.rv(a, st))
        return mk("bind", f, tuple(args))
    if n in ("exchange",):
        l = I.lv(A[0], st)
        old = I.get(st, l)
        I.set(st, l, I.rv(A[1], st))
        return old
    if n in ("distance",) and len(A) == 2:
        a, b = I.rv(A[0], st), I.rv(A[1], st)
        if a.op == "iter" and b.op == "iter":
            return sub(b.args[2], a.args[2])
    if n in ("next", "prev", "advance") and A:
        a = I.rv(A[0], st)
        k = I.rv(A[1], st) if len(A) > 1 else ONE
        if a.op == "iter":
            r = iter_at(a, add(a.args[2], k if n != "prev" else neg(k)))
            if n == "advance":
                I.set(st, I.lv(A[0], st), r)
                return UNIT
            return r
    if n in ALGOS or n in ("max_element",):
        try:
            r = algorithm(I, n, A, st, e)
        except Unsupported:
            r = None
        if r is not None:
            return r
        I.note("unmodelled algorithm " + q)
        return havoc_call(I, q, A, st, e)
    if n == "size" and len(A) == 1:
        return length(I.rv(A[0], st))
    if n == "ssize" and len(A) == 1:
        return length(I.rv(A[0], st))
    if n in ("max", "lowest", "min", "epsilon") and not A and "numeric_limits<" in q:
        k = LIMITS.get((q.split("numeric_limits<")[1].split(">")[0], n))
        if k is not None:
            return num(k)
    if n in ("infinity", "quiet_NaN", "max", "lowest", "epsilon", "min") and not A:
        return sym(q)
    if n in ("void_cast_register", "base_object"):
        if n == "base_object":
            targ = (fn.get("targs") or ["?"])[0]
            l = I.lv(A[0], st)
            return mk("call", "base_object", string(targ), l.addr())
        st.trace = st.trace + (Event("void_cast_register", [string(",".join(fn.get("targs") or []))], st.cond(), (), e.get("l")),)
        return UNIT
    if n == "duration_cast" and (fn.get("targs") or [None])[0]:
        d = fn["targs"][0]
        x = I.rv(A[0], st)
        p = period(d)
        if p is not None:
            return x if "double" in d or "float" in d else mul(tm.trunc(rdiv(x, num(p))), num(p))
    if n == "now":
        st.trace = st.trace + (Event("clock", [], st.cond(), (), e.get("l")),)
        return mk("call", "now", num(next(_uid)), *I.active)
    if n == "sleep_for":
        st.trace = st.trace + (Event("sleep", [], st.cond(), (), e.get("l")),)
        return UNIT
    if n == "__builtin_nanf" or n == "nanf":
        return sym("NaN")
    if n == "addressof":
        return I.lv(A[0], st).addr()
    if n in ("dynamic_pointer_cast", "static_pointer_cast"):
        return I.rv(A[0], st)
    if q not in KNOWN_CALLS and not q.startswith("std::filesystem") and q not in FILE_OPS and q.split("::")[-1] not in FILE_OPS:
        I.note("unmodelled function " + q)
        return havoc_call(I, q, A, st, e)
    args = [I.rv(a, st) for a in A]
    if q in FILE_OPS or q.split("::")[-1] in FILE_OPS and q.startswith(("std::filesystem", "std::remove", "std::rename")):
        st.trace = st.trace + (Event("file:" + n, args, st.cond(), (), e.get("l")),)
    I.opaque_std = getattr(I, "opaque_std", set())
    I.opaque_std.add(q)
    return mk("call", q, *args)


LIMITS = {("int", "max"): 2 ** 31 - 1, ("int", "min"): -2 ** 31, ("int", "lowest"): -2 ** 31,
          ("unsigned int", "max"): 2 ** 32 - 1, ("unsigned int", "min"): 0, ("unsigned long", "max"): 2 ** 64 - 1, ("unsigned long", "min"): 0,
          ("long", "max"): 2 ** 63 - 1, ("long", "min"): -2 ** 63, ("long", "lowest"): -2 ** 63,
          ("float", "epsilon"): Fraction(1, 2 ** 23), ("double", "epsilon"): Fraction(1, 2 ** 52),
          ("float", "max"): Fraction(2 ** 128 - 2 ** 104), ("float", "lowest"): -Fraction(2 ** 128 - 2 ** 104), ("float", "min"): Fraction(1, 2 ** 126)}
KNOWN_CALLS = ("std::to_string", "std::bit_cast")
FILE_OPS = ("rename", "remove", "remove_all", "copy_file", "copy", "resize_file", "truncate", "unlink", "fopen")


def emplace_new(I, et, A, st):
    if et in I.p.recs:
        if len(A) == 1 and cls_of(A[0].get("t", "")) == et:
            r = "N%d:%s" % (next(_uid), et)
            I.dyn[r] = et
            st.store[r] = mk("undef", et)
            I.copy_construct(et, LV(r), A[0], st)
            return LV(r).addr()
        cs = [f for f in I.p.byq.get(et + "::" + et.split("::")[-1].split("<")[0], []) if f.get("kind") == "ctor"
              and len(f["params"]) >= len(A) and all(p.get("def") for p in f["params"][len(A):])
              and not f.get("copy") and not f.get("move")]
        if len(cs) > 1:
            def score(f):
                return sum(cls_of(p["t"]) == cls_of(a.get("t", "")) for p, a in zip(f["params"], A))
            cs.sort(key=lambda f: -score(f))
        if cs:
            f = cs[0]
            ce = {"k": "ctor", "fn": {k: f[k] for k in f if k not in ("body", "inits", "params")}, "a": A, "t": et}
            return I.new_object(et, ce, st).addr()
    r = "N%d:%s" % (next(_uid), et)
    st.store[r] = mk("call", "make:" + et, *[I.rv(a, st) for a in A])
    return LV(r).addr()
