"""Abstract interpretation of the extracted AST on the value-graph domain.

One pass per function, joins at merge points (gated values), loops summarised in
closed form (no path enumeration, no solver, no execution).
"""
import itertools
import re
from fractions import Fraction
from .terms import *
from . import terms as tm

_uid = itertools.count(1)


class Unsupported(Exception):
    pass


class LV:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def f(self, name):
        return LV(self.root, self.path + (("f", name),))

    def i(self, idx):
        return LV(self.root, self.path + (("i", idx),))

    def addr(self):
        if isinstance(self.root, tuple) and self.root[0] == "?":
            return ite(self.root[1], self._ext(self.root[2]).addr(), self._ext(self.root[3]).addr())
        return mk("addr", self.root, self.path)

    def _ext(self, pair):
        return LV(pair[0], pair[1] + self.path)

    def branches(self):
        """(condition, lvalue, lvalue) of an lvalue that is one of two objects, or None"""
        if isinstance(self.root, tuple) and self.root[0] == "?":
            return self.root[1], self._ext(self.root[2]), self._ext(self.root[3])
        return None

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.path)


def lv_of_addr(t):
    if t.op == "ite":
        return either(t.args[0], lv_of_addr(t.args[1]), lv_of_addr(t.args[2]))
    return LV(t.args[0], t.args[1])


def is_addr(t):
    return isinstance(t, T) and (t.op == "addr" or t.op == "ite" and is_addr(t.args[1]) and is_addr(t.args[2]))


def plain_lvalue(e):
    """naming the object has no effect of its own, so both branches of a conditional may be named"""
    k = e["k"]
    if k in ("this", "ref", "int", "enum", "flt", "null", "bool"):
        return True
    if k in ("mem", "decay", "cast", "upcast", "un", "sub", "bin", "cond"):
        if k == "un" and e["op"] in ("++", "--") or k == "bin" and e["op"] == ",":
            return False
        return all(plain_lvalue(e[x]) for x in ("e", "b", "a", "c") if isinstance(e.get(x), dict))
    if k == "opcall":
        return e["op"] in ("[]", "*", "->") and all(plain_lvalue(x) for x in e["a"])
    return False


def either(c, a, b):
    """the lvalue that is a when c holds and b otherwise"""
    if c is TRUE or (a.root, a.path) == (b.root, b.path):
        return a
    if c is FALSE:
        return b
    return LV(("?", c, (a.root, a.path), (b.root, b.path)))


class Event:
    __slots__ = ("name", "args", "guard", "binders", "site", "extra")

    def __init__(self, name, args, guard=TRUE, binders=(), site=None, extra=None):
        self.name, self.args, self.guard, self.binders, self.site, self.extra = name, tuple(args), guard, tuple(binders), site, extra

    def __repr__(self):
        return "%s(%s)%s%s" % (self.name, ", ".join(show(a, 4) for a in self.args),
                               " if " + show(self.guard, 4) if self.guard is not TRUE else "",
                               " for " + str([(b[0], show(b[1], 3)) for b in self.binders]) if self.binders else "")

    def sub(self, m):
        return Event(self.name, [subst(a, m) for a in self.args], subst(self.guard, m),
                     [(n, subst(t, m)) + tuple(r) for n, t, *r in self.binders], self.site, self.extra)


class State:
    __slots__ = ("store", "pc", "trace")

    def __init__(self, store=None, pc=(), trace=()):
        self.store = store if store is not None else {}
        self.pc = tuple(pc)
        self.trace = tuple(trace)

    def copy(self):
        return State(dict(self.store), self.pc, self.trace)

    def cond(self):
        return band(*self.pc)


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def relcond(st, base):
    """condition of st relative to path prefix base"""
    b = set(base)
    return band(*[c for c in st.pc if c not in b])


def lazy(r):
    """roots that denote pre-existing objects (not locals/temporaries of the analysed code)"""
    return isinstance(r, tuple) or not ("@" in r or r[:1] in "TN" and r[1:2].isdigit())


def initial_root(root):
    if isinstance(root, tuple) and root[0] == "H":
        return mk("deref", root[1])
    return sym(str(root))


def merge(outs, base):
    """join outcomes (same kind) -> one Outcome"""
    if len(outs) == 1:
        return outs[0]
    cur = outs[-1]
    ccond = relcond(cur.st, base)
    for o in reversed(outs[:-1]):
        c = relcond(o.st, base)
        sel = c
        store = {}
        for r in list(dict.fromkeys(list(o.st.store) + list(cur.st.store))):
            a, b = o.st.store.get(r), cur.st.store.get(r)
            if a is None or b is None:
                if lazy(r):
                    i = initial_root(r)
                    a, b = (i if a is None else a), (i if b is None else b)
                else:
                    store[r] = a if a is not None else b
                    continue
            if a is b:
                store[r] = a
            else:
                store[r] = ite(sel, a, b)
        ta, tb = o.st.trace, cur.st.trace
        n = 0
        while n < len(ta) and n < len(tb) and ta[n] is tb[n]:
            n += 1
        ccond = bor(c, ccond)
        v = None
        if o.val is not None or cur.val is not None:
            if isinstance(o.val, T) and isinstance(cur.val, T):
                v = ite(sel, o.val, cur.val)
            else:
                v = o.val if o.val is not None else cur.val
        st = State(store, tuple(base) + ((ccond,) if ccond is not TRUE else ()), ta[:n] + ta[n:] + tb[n:])
        cur = Outcome(o.kind, st, v)
    return cur


class Interp:
    def __init__(self, prog, policy=None, dyn=None, maxdepth=14):
        self.p = prog
        self.policy = policy or (lambda *a: None)
        self.dyn = dyn or {}          # root -> dynamic class name
        self.maxdepth = maxdepth
        self.notes = []
        self.depth = 0
        self.frames = []
        self.throws = [[]]
        self.visited = {}
        self.loopno = 0
        self.calltypes = {}
        self.symtypes = {}
        self.rootinit = {}
        self.ctor_cls = {}
        self.handlers = []
        self.active = []
        self.scope = set()
        self.writes = []
        self.closures = {}

    # ------------------------------------------------------------ notes
    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def fuzzy(self, why, typ=None):
        """an over-approximated (unknown) value"""
        self.note("unknown value: " + why)
        return mk("unk", why, next(_uid))

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.store.get(root)
        if v is None:
            v = self.initial(root)
            st.store[root] = v
        return v

    def initial(self, root):
        return initial_root(root)

    def get(self, st, lv):
        br = lv.branches()
        if br:
            return ite(br[0], self.get(st, br[1]), self.get(st, br[2]))
        v = self.root_value(st, lv.root)
        for k, x in lv.path:
            v = fld(v, x) if k == "f" else read(v, x)
        return v

    def set(self, st, lv, val):
        br = lv.branches()
        if br:
            c, a, b = br
            self.set(st, a, ite(c, val, self.get(st, a)))
            self.set(st, b, ite(c, self.get(st, b), val))
            return

        def go(v, path):
            if not path:
                return val
            k, x = path[0]
            if k == "f":
                return setf(v, x, go(fld(v, x), path[1:]))
            return upd(v, x, go(read(v, x), path[1:]))
        self.writes.append((lv.root, lv.path))
        st.store[lv.root] = go(self.root_value(st, lv.root), lv.path)

    def deref(self, st, p):
        if p.op == "addr":
            return lv_of_addr(p)
        if p.op == "iter":
            return self.iter_lv(p)
        if p.op == "read" and p.args[0].op == "lst" and p.args[0].args and all(x.op == "addr" for x in p.args[0].args):
            xs = p.args[0].args
            r = lv_of_addr(xs[-1])
            for k in range(len(xs) - 2, -1, -1):
                r = either(eq(p.args[1], num(k)), lv_of_addr(xs[k]), r)
            return r
        if p.op == "ite":
            return either(p.args[0], self.deref(st, p.args[1]), self.deref(st, p.args[2]))
        return LV(("H", p))

    def iter_lv(self, t):
        return LV(t.args[0], t.args[1] + (("i", iter_ix(t)),))

    def temp(self, st, v):
        r = "T%d" % next(_uid)
        st.store[r] = v
        return LV(r)

    # ------------------------------------------------------------ entry
    def run(self, fn, this=None, args=(), st=None, cls=None):
        """interpret fn; returns list of Outcomes (ret / throw), merged by kind"""
        st = st or State()
        self.throws.append([])
        try:
            outs = self.call_fn(fn, this, list(args), st, cls=cls, raw=True)
        except Dead:  # every path throws
            if not self.throws[-1]:
                raise
            outs = None
        finally:
            th = self.throws.pop()
        res = []
        if outs is not None:
            res.append(outs)
        if th:
            res += th
        return res

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, this, args, st, cls=None, raw=False, lambda_env=None):
        """inline fn.  args are already-evaluated: LV (by reference) or T (by value).
        Returns Outcome('ret') with merged state, or None when it never returns normally."""
        if self.depth > self.maxdepth:
            raise Unsupported("inlining depth at " + fn.get("q", "?"))
        self.visited[fn.get("key", fn.get("q", "lambda"))] = fn
        self.depth += 1
        frame = {"this": this, "cls": cls or fn.get("cls"), "vars": {}, "fn": fn, "uid": next(_uid),
                 "ret": fn.get("ret", "")}
        if lambda_env:
            frame["vars"].update(lambda_env["vars"])
            frame["this"] = lambda_env["this"]
            frame["cls"] = lambda_env["cls"]
        base = st.pc
        try:
            self.frames.append(frame)
            for i, p in enumerate(fn.get("params", [])):
                if i < len(args):
                    a = args[i]
                elif p.get("def"):
                    a = self.rv(p["def"], st)
                else:
                    a = self.fuzzy("missing argument")
                self.bind(st, p, a)
            body = fn.get("body")
            if fn.get("kind") == "ctor":
                self.ctor_inits(fn, this, st)
            outs = self.exec(body, st) if body else [Outcome("next", st)]
            rets = [o for o in outs if o.kind in ("ret", "next")]
            for o in rets:
                o.kind = "ret"
            if not rets:
                return None
            m = merge(rets, base)
            if m.val is None:
                m.val = UNIT
            return m
        finally:
            self.frames.pop()
            self.depth -= 1

    def bind(self, st, p, a):
        fr = self.frames[-1]
        isref = p["t"].rstrip().endswith("&")
        if isinstance(a, LV) and isref:
            fr["vars"][p["d"]] = a
        else:
            if isinstance(a, LV):
                a = self.get(st, a)
            r = "%s@%d" % (p["n"] or "arg", fr["uid"])
            if r in st.store:  # parameters of one pack share their name
                r = "%s_%d" % (r, len(fr["vars"]))
            st.store[r] = a
            fr["vars"][p["d"]] = LV(r)

    def ctor_inits(self, fn, this, st):
        for i in fn.get("inits", []):
            e = i["e"]
            if i.get("f"):
                v = self.rv(e, st)
                ft = self.p.ftype(fn["cls"], i["f"])
                if ft and ft.rstrip().endswith("&"):
                    try:
                        v = self.lv(e, st).addr()
                    except Unsupported:
                        pass
                self.set(st, this.f(i["f"]), v)
            elif i.get("base") or i.get("deleg"):
                if e and e["k"] == "ctor":
                    self.construct_into(e, this, st)
                else:
                    self.note("base init form")

    def construct_into(self, e, this, st):
        fr = e["fn"]
        d = self.p.fns.get(fr["key"])
        if fr.get("copy") or fr.get("move"):
            if d is None or d.get("defaulted") or (d.get("body") is None and d.get("kind") != "ctor"):
                self.copy_construct(fr["cls"], this, e["a"][0], st)
                return
        if d is None or (d.get("body") is None):
            if d is not None and d.get("defaulted") and not e["a"]:
                self.default_init(fr["cls"], this, st)
                return
            if fr.get("dflt") or not e["a"]:
                self.default_init(fr["cls"], this, st)
                return
            self.note("opaque constructor " + fr["q"])
            return
        args = self.eval_args(d, e["a"], st)
        if not (fr.get("copy") or fr.get("move")) or True:
            self.default_members(fr["cls"], d, this, st)
        o = self.call_fn(d, this, args, st, cls=fr["cls"])
        self.adopt(st, o)

    def user_copy_ctor(self, cls):
        n = cls.split("<")[0].split("::")[-1]
        for f in self.p.byq.get(cls + "::" + n, []):
            if f.get("copy") and f.get("body") is not None and not f.get("defaulted"):
                return f
        return None

    def any_user_copy(self, cls):
        r = self.p.recs.get(cls)
        return bool(r) and (self.user_copy_ctor(cls) is not None or any(self.any_user_copy(b) for b in r["bases"]))

    def copy_construct(self, cls, this, node, st):
        """copy constructor of cls run on *this; a defaulted one copies the own members and runs the bases' ones"""
        if not self.any_user_copy(cls):
            return self.copy_fields(cls, this, self.rv(node, st), st)
        try:
            src = self.lv(node, st)
        except Unsupported:
            src = self.rv(node, st)
        self.copy_from(cls, this, src, st)

    def copy_from(self, cls, this, src, st):
        if not self.any_user_copy(cls):
            return self.copy_fields(cls, this, self.get(st, src) if isinstance(src, LV) else src, st)
        d = self.user_copy_ctor(cls)
        if d is not None:
            self.default_members(cls, d, this, st)
            self.adopt(st, self.call_fn(d, this, [src], st, cls=cls))
            return
        r = self.p.recs[cls]
        for b in r["bases"]:
            self.copy_from(b, this, src, st)
        val = self.get(st, src) if isinstance(src, LV) else src
        for f in r["fields"]:
            self.set(st, this.f(f["n"]), fld(val, f["n"]))

    def copy_fields(self, cls, this, src, st):
        cur = self.get(st, this)
        if cur.op in ("undef", "new") :
            self.set(st, this, src)
            return
        for f in self.p.fields(cls):
            self.set(st, this.f(f["n"]), fld(src, f["n"]))

    def default_members(self, cls, ctor, this, st):
        named = {i.get("f") for i in (ctor or {}).get("inits", []) if i.get("f")}
        r = self.p.recs.get(cls)
        if not r:
            return
        for f in r["fields"]:
            if f["n"] in named:
                continue
            if f.get("init") is not None:
                self.frames.append({"this": this, "cls": cls, "vars": {}, "fn": ctor, "uid": next(_uid), "ret": ""})
                try:
                    v = self.rv(f["init"], st)
                finally:
                    self.frames.pop()
            else:
                v = self.default_value(f["t"], st)
            if v is not None:
                self.set(st, this.f(f["n"]), v)

    def default_init(self, cls, this, st):
        r = self.p.recs.get(cls)
        if not r:
            return
        for b in r["bases"]:
            self.default_init(b, this, st)
        self.default_members(cls, None, this, st)

    def default_value(self, t, st):
        if t.startswith(("std::vector", "vector", "std::deque")):
            return lst()
        if t.startswith(("std::unique_ptr", "std::shared_ptr")):
            return NULL
        if t.startswith("std::basic_string<"):
            return string("")
        if t in self.p.recs:
            r = self.temp(st, mk("undef", t))
            self.default_init(t, r, st)
            return self.get(st, r)
        m = re.match(r"std::array<(.*), (\d+)>", t)
        if m:
            d = self.default_value(m.group(1), st) if int(m.group(2)) <= 64 else None
            return mk("undef", t) if d is None else lst(*[d] * int(m.group(2)))
        if t.startswith("std::optional<"):
            return lst()
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m and m.group(1).strip() in self.p.recs and int(m.group(2)) <= 16:
            return lst(*[self.default_value(m.group(1).strip(), st) for _ in range(int(m.group(2)))])
        return None

    def new_object(self, cls, ctor_e, st, root=None):
        r = root or "N%d:%s" % (next(_uid), cls)
        st.store[r] = mk("undef", cls)
        self.dyn[r] = cls
        self.construct_into(ctor_e, LV(r), st)
        return LV(r)

    def adopt(self, st, outcome):
        """make st continue from outcome's state"""
        if outcome is None:
            st.pc = st.pc + (FALSE,)
            raise Dead()
        st.store = outcome.st.store
        st.pc = outcome.st.pc
        st.trace = outcome.st.trace
        return outcome.val

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        """-> list of outcomes, at most one per kind per exit class"""
        if s is None:
            return [Outcome("next", st)]
        k = s["k"]
        if k == "block":
            return self.exec_block(s["s"], st)
        try:
            m = getattr(self, "s_" + k, None)
            if m:
                return m(s, st)
            self.rv(s, st, discard=True)
            return [Outcome("next", st)]
        except Dead:
            return []

    def exec_block(self, stmts, st):
        outs, files = [], []
        base = st.pc
        for x in stmts:
            rs = self.exec(x, st)
            if x["k"] == "decl":
                files += [(self.frames[-1]["vars"][v["d"]], v.get("l")) for v in x["v"]
                          if re.match(r"(const )?(std::basic_o?fstream|boost::archive::\w+_oarchive)\b", v["t"]) and not v["t"].rstrip().endswith(("&", "*"))
                          and v["d"] in self.frames[-1]["vars"]]
            nxt = [o for o in rs if o.kind == "next"]
            outs += [o for o in rs if o.kind != "next"]
            if not nxt:
                return self.closing(outs, files)
            st = merge(nxt, base).st
        return self.closing(outs + [Outcome("next", st)], files)

    def closing(self, outs, files):
        """the files a block declared are complete when it is left"""
        for l, line in reversed(files):
            for o in outs:
                o.st.trace = o.st.trace + (Event("file:close", [l.addr()], o.st.cond(), (), line),)
        return outs

    def s_nop(self, s, st):
        return [Outcome("next", st)]

    def s_decl(self, s, st):
        for v in s["v"]:
            self.decl(v, st)
        return [Outcome("next", st)]

    def decl(self, v, st):
        fr = self.frames[-1]
        t = v["t"].rstrip()
        if v.get("static"):
            fr["vars"][v["d"]] = LV("static:%s" % v["n"])
            if "init" in v and LV("static:%s" % v["n"]).root not in st.store:
                st.store["static:%s" % v["n"]] = sym("static:%s" % v["n"])
            return
        init = v.get("init")
        if v.get("binds") is not None:
            if t.endswith("&") and init is not None:
                try:
                    fr["vars"][v["d"]] = self.lv(init, st)
                    return
                except Unsupported:
                    pass
            r = "%s@%d" % ("bind", next(_uid))
            st.store[r] = self.rv(init, st)
            fr["vars"][v["d"]] = LV(r)
            return
        if t.endswith("&") and init is not None:
            try:
                fr["vars"][v["d"]] = self.lv(init, st)
                return
            except Unsupported:
                pass
        r = "%s@%d_%d" % (v["n"], fr["uid"], next(_uid))
        val = self.rv(init, st) if init is not None else self.default_value(t, st)
        if val is None:
            val = mk("undef", v["n"])
        st.store[r] = self.conv(val, t)
        fr["vars"][v["d"]] = LV(r)
        if val.op == "call" and re.match(r"ctor:std::basic_o?fstream", val.args[0]) and len(val.args) > 1:
            st.trace = st.trace + (Event("file:open", [LV(r).addr()] + list(val.args[1:3]), st.cond(), (), v.get("l")),)

    def conv(self, v, t):
        return v

    def s_ret(self, s, st):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            if fr["ret"].rstrip().endswith("&"):
                try:
                    v = self.lv(s["e"], st).addr()
                except Unsupported:
                    v = self.rv(s["e"], st)
            else:
                v = self.rv(s["e"], st)
        return [Outcome("ret", st, v)]

    def s_break(self, s, st):
        return [Outcome("break", st)]

    def s_continue(self, s, st):
        return [Outcome("continue", st)]

    def s_if(self, s, st):
        if s.get("i"):
            self.exec(s["i"], st)
        if s.get("cv"):
            self.decl(s["cv"], st)
        c = boolof(self.rv(s["c"], st))
        return self.branch(c, st, lambda x: self.exec(s["a"], x), lambda x: self.exec(s.get("b"), x))

    def assume(self, st, c):
        """evaluate c under st.pc facts"""
        facts = set(st.pc)
        for p in st.pc:
            if p.op == "and":
                facts |= set(p.args)
        if c in facts:
            return TRUE
        if bnot(c) in facts:
            return FALSE
        return c

    def branch(self, c, st, fa, fb):
        base = st.pc
        c = self.assume(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        sa, sb = st.copy(), st.copy()
        sa.pc = base + (c,)
        sb.pc = base + (bnot(c),)
        oa = fa(sa)
        ob = fb(sb)
        return self.group(oa + ob, base)

    def group(self, outs, base):
        res = []
        kinds = []
        for o in outs:
            if o.kind not in kinds:
                kinds.append(o.kind)
        for k in kinds:
            g = [o for o in outs if o.kind == k]
            res.append(merge(g, base))
        return res

    def s_switch(self, s, st):
        if s.get("i"):
            self.exec(s["i"], st)
        v = self.rv(s["c"], st)
        base = st.pc
        # flatten labelled statements
        items = []

        def flat(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x["v"] if x["k"] == "case" else None)
                x = x["s"]
            items.append((labels, x))
        for x in s["b"]["s"] if s["b"]["k"] == "block" else [s["b"]]:
            flat(x)
        vals = []
        for ls, _ in items:
            for l in ls:
                if l is not None:
                    vals.append(self.rv(l, st))
        outs = []
        alive = []   # list of states falling through
        anyeq = bor(*[eq(v, x) for x in vals]) if vals else FALSE
        done = FALSE
        for ls, x in items:
            if ls:
                conds = []
                for l in ls:
                    conds.append(bnot(anyeq) if l is None else eq(v, self.rv(l, st)))
                c = self.assume(st, bor(*conds))
                if c is not FALSE:
                    e = st.copy()
                    e.pc = base + ((c,) if c is not TRUE else ())
                    alive.append(Outcome("next", e))
            if not alive or x is None:
                continue
            cur = merge(alive, base).st
            rs = self.exec(x, cur)
            alive = [o for o in rs if o.kind == "next"]
            for o in rs:
                if o.kind == "break":
                    o.kind = "next"
                    outs.append(o)
                elif o.kind != "next":
                    outs.append(o)
        outs += alive
        if not any(None in ls for ls, _ in items):
            c = self.assume(st, bnot(anyeq))
            if c is not FALSE:
                e = st.copy()
                e.pc = base + ((c,) if c is not TRUE else ())
                outs.append(Outcome("next", e))
        return self.group(outs, base)

    def s_try(self, s, st):
        base = st.pc
        self.throws.append([])
        outs = self.exec(s["b"], st)
        th = self.throws.pop()
        rest = []
        for t in th:
            handled = False
            for h in s["h"]:
                if h["t"] == "..." or self.catches(h["t"], t.val):
                    rs = self.exec(h["b"], t.st)
                    outs += rs
                    handled = True
                    break
            if not handled:
                rest.append(t)
        self.throws[-1] += rest
        return self.group(outs, base)

    def catches(self, ht, val):
        ht = ht.replace("const ", "").replace("&", "").strip()
        vt = val.args[0] if isinstance(val, T) and val.op == "exc" else "?"
        if ht == vt or ht == "std::exception":
            return True
        if ht.endswith("bad_cast") and vt.endswith("bad_cast"):
            return True
        if ht == "std::runtime_error" and vt.startswith("snn::"):
            return True
        return False

    def throw(self, st, val, site=None):
        o = Outcome("throw", st.copy(), val)
        self.throws[-1].append(o)

    # ------------------------------------------------------------ loops
    def s_for(self, s, st):
        if s.get("i"):
            self.exec(s["i"], st)
        return self.loop(s, st, cond=s.get("c"), inc=s.get("n"), body=s["b"])

    def s_while(self, s, st):
        return self.loop(s, st, cond=s["c"], inc=None, body=s["b"])

    def s_do(self, s, st):
        base = st.pc
        outs = self.exec(s["b"], st)
        brk = [Outcome("next", o.st, o.val) for o in outs if o.kind == "break"]
        nxt = [o for o in outs if o.kind in ("next", "continue")]
        rest = [o for o in outs if o.kind in ("ret",)]
        if not nxt:
            return self.group(brk + rest, base)
        for o in nxt:
            o.kind = "next"
        cur = merge(nxt, base).st
        outs = self.loop(s, cur, cond=s["c"], inc=None, body=s["b"])
        return self.group(brk + rest + outs, base)

    def s_rfor(self, s, st):
        if s.get("i"):
            self.exec(s["i"], st)
        try:
            c = self.lv(s["r"], st)
        except Unsupported:
            c = self.temp(st, self.rv(s["r"], st))
        from .stdlib import elements
        whole = self.get(st, c)
        n, elem = elements(self, whole, st) or (length(whole), c.i)
        v = s["v"]
        isref = v["t"].rstrip().endswith("&")
        fr = self.frames[-1]

        def enter(x, t):
            el = elem(t)
            if isref and isinstance(el, LV):
                fr["vars"][v["d"]] = el
            else:
                r = "%s@%d_%d" % (v["n"], fr["uid"], next(_uid))
                x.store[r] = self.val(el, x)
                fr["vars"][v["d"]] = LV(r)
        limit = {"limit": 32} if whole.op == "lst" and any(x.op in ("addr", "fn", "clo") for x in whole.args) else {}
        return self.loop(s, st, body=s["b"], trip=n, enter=enter, **limit)

    def loop(self, s, st, cond=None, inc=None, body=None, trip=None, enter=None, exec_body=None, **limit):
        """closed-form summarisation of a loop"""
        from .loops import summarise, unroll
        outs = unroll(self, st, cond, inc, body, trip, enter, exec_body, **limit)
        if outs is not None:
            return outs
        return summarise(self, s, st, cond, inc, body, trip, enter, exec_body)

    # ------------------------------------------------------------ expressions: lvalues
    def lv(self, e, st):
        k = e["k"]
        fr = self.frames[-1]
        if k == "ref":
            if e["d"] in fr["vars"]:
                return fr["vars"][e["d"]]
            if e.get("g"):
                return LV("G:" + e["g"])
            r = "V:%s:%s" % (e["n"], e["d"])
            if r not in st.store:
                st.store[r] = self.fuzzy("variable " + e["n"])
            return LV(r)
        if k == "bind":
            if e.get("e"):
                return self.lv(e["e"], st)
            raise Unsupported("binding")
        if k == "this":
            raise Unsupported("this as lvalue")
        if k == "mem":
            b = e["b"]
            if e.get("ar"):
                if b["k"] == "this" or (b["k"] == "upcast" and b["e"]["k"] == "this"):
                    base = fr["this"]
                    if base is None:
                        raise Unsupported("no this")
                else:
                    base = self.deref(st, self.rv(b, st))
            else:
                base = self.lv(b, st)
            l = base.f(e["f"])
            ft = self.p.ftype(e.get("o", ""), e["f"])
            if ft and ft.rstrip().endswith("&"):
                v = self.get(st, l)
                if is_addr(v):
                    return lv_of_addr(v)
            return l
        if k == "decay":
            return self.lv(e["e"], st)
        if k == "sub":
            if e["a"]["k"] == "decay":
                return self.lv(e["a"]["e"], st).i(self.rv(e["b"], st))
            a = self.rv(e["a"], st)
            i = self.rv(e["b"], st)
            if a.op == "addr":
                return lv_of_addr(a).i(i)
            if a.op == "iter":
                return LV(a.args[0], a.args[1] + (("i", iter_ix(a, i)),))
            return self.lv(e["a"], st).i(i)
        if k == "upcast":
            return self.lv(e["e"], st)
        if k == "un" and e["op"] == "*":
            if e["e"]["k"] == "this":
                return fr["this"]
            return self.deref(st, self.rv(e["e"], st))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            l = self.lv(e["e"], st)
            self.set(st, l, add(self.get(st, l), num(1 if e["op"] == "++" else -1)))
            return l
        if k in ("asg", "casg"):
            self.rv(e, st)
            return self.lv(e["a"], st)
        if k == "cond":
            c = boolof(self.rv(e["c"], st))
            c = self.assume(st, c)
            if c is TRUE:
                return self.lv(e["a"], st)
            if c is FALSE:
                return self.lv(e["b"], st)
            if e.get("lv") and plain_lvalue(e["a"]) and plain_lvalue(e["b"]):
                return either(c, self.lv(e["a"], st), self.lv(e["b"], st))
            return self.temp(st, self.rv(e, st))
        if k == "cast":
            if e["ck"] == "Dynamic":
                return self.dynamic_cast(e, st)
            if e["ck"] in ("BaseToDerived", "NoOp", "BitCast", "DerivedToBase"):
                return self.lv(e["e"], st)
        if k in ("opcall", "mcall", "call"):
            v = self.rv(e, st, want_ref=True)
            if isinstance(v, LV):
                return v
            if is_addr(v):
                return lv_of_addr(v)
            return self.temp(st, v)
        if k == "null":
            return self.temp(st, NULL)
        v = self.rv(e, st)
        return self.temp(st, v)

    def dynamic_cast(self, e, st):
        """dynamic_cast to reference: succeeds or throws bad_cast"""
        l = self.lv(e["e"], st)
        target = e["t"].replace("const ", "").replace("&", "").strip()
        d = self.dyn.get(l.root) if not l.path else None
        if d:
            if target in self.p.bases(d):
                return l
            self.throw(st, mk("exc", "std::bad_cast"))
            raise Dead()
        v = self.get(st, l)
        c = mk("isa", v, target)
        c = self.assume(st, c)
        if c is TRUE:
            return l
        if c is FALSE:
            self.throw(st, mk("exc", "std::bad_cast"))
            raise Dead()
        t = st.copy()
        t.pc = st.pc + (bnot(c),)
        self.throw(t, mk("exc", "std::bad_cast"))
        st.pc = st.pc + (c,)
        return l

    # ------------------------------------------------------------ expressions: values
    def rv(self, e, st, discard=False, want_ref=False):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.fuzzy("expression kind %s %s line %s" % (k, e.get("cn", ""), e.get("l")))
        if k in ("opcall", "mcall", "call"):
            v = m(e, st)
            if want_ref:
                return v
            if isinstance(v, LV):
                return self.get(st, v)
            if is_addr(v) and not e.get("t", "").rstrip().endswith("*") and not self.is_ptr_type(e.get("t", "")):
                return self.get(st, lv_of_addr(v))
            return v
        return m(e, st)

    @staticmethod
    def is_ptr_type(t):
        t = t.strip()
        return t.endswith("*") or t.startswith(("std::unique_ptr", "std::shared_ptr", "const std::unique_ptr", "const std::shared_ptr")) or "unique_ptr" in t[:40] or "shared_ptr" in t[:40]

    def e_int(self, e, st):
        return num(int(e["v"]))

    def e_flt(self, e, st):
        s = e.get("src", "").rstrip("fFlL")
        try:
            return num(Fraction(s))
        except Exception:
            try:
                return num(Fraction(e["v"]))
            except Exception:
                return self.fuzzy("float literal")

    def e_bool(self, e, st):
        return TRUE if e["v"] else FALSE

    def e_str(self, e, st):
        return string(e["v"])

    def e_null(self, e, st):
        return NULL

    def e_enum(self, e, st):
        return num(int(e["v"]))

    def e_zero(self, e, st):
        v = self.default_value(e["t"], st)
        if v is not None:
            return v
        if self.is_ptr_type(e["t"]):
            return NULL
        if e["t"] == "bool":
            return FALSE
        return ZERO

    def e_sizeof(self, e, st):
        return num(int(e["v"])) if "v" in e else self.fuzzy("sizeof")

    def e_this(self, e, st):
        return self.frames[-1]["this"].addr()

    def e_ref(self, e, st):
        fr = self.frames[-1]
        if e["d"] in fr["vars"]:
            return self.get(st, fr["vars"][e["d"]])
        if e.get("init") is not None:
            return self.rv(e["init"], st)
        if e.get("cv") is not None:
            return num(Fraction(e["cv"])) if re.match(r"^-?[0-9.eE+-]+$", e["cv"]) else sym(e["n"])
        if e.get("g"):
            return self.get(st, LV("G:" + e["g"]))
        return self.get(st, self.lv(e, st))

    def e_bind(self, e, st):
        return self.get(st, self.lv(e, st))

    def e_mem(self, e, st):
        return self.get(st, self.lv(e, st))

    def e_sub(self, e, st):
        return self.get(st, self.lv(e, st))

    def e_decay(self, e, st):
        try:
            return self.lv(e["e"], st).addr()
        except Unsupported:
            return self.rv(e["e"], st)

    def e_upcast(self, e, st):
        return self.rv(e["e"], st)

    def e_fnref(self, e, st):
        return mk("fn", e["fn"]["key"], e["fn"]["q"])

    def e_typeid(self, e, st):
        if "e" in e:
            t = e["e"].get("t", "").rstrip("& ")
            if t.endswith("*"):
                return mk("typeid", string(t))
            try:
                l = self.lv(e["e"], st)
                if not l.path and l.root in self.dyn:
                    return mk("typeid", string(self.dyn[l.root]))
                return mk("typeid", self.get(st, l))
            except Unsupported:
                return mk("typeid", self.rv(e["e"], st))
        return mk("typeid", string(e["at"]))

    def e_cast(self, e, st):
        ck = e["ck"]
        if ck == "Dynamic":
            if e["t"].rstrip().endswith("*"):
                p = self.rv(e["e"], st)
                target = e["t"].replace("const ", "").replace("*", "").strip()
                l = self.deref(st, p)
                d = self.dyn.get(l.root) if not l.path else None
                if d:
                    return p if target in self.p.bases(d) else NULL
                return ite(mk("isa", self.get(st, l), target), p, NULL)
            return self.get(st, self.dynamic_cast(e, st))
        if ck in ("NullToPointer",):
            return NULL
        v = self.rv(e["e"], st)
        if ck == "ToVoid":
            return UNIT
        if ck == "FloatingToIntegral":
            return trunc(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return boolof(v)
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingCast"):
            if isbool(v) and e.get("from") == "bool":
                return ite(v, ONE, ZERO)
            return v
        return v

    def e_un(self, e, st):
        op = e["op"]
        if op == "&":
            if e["e"]["k"] == "fnref":
                return self.e_fnref(e["e"], st)
            return self.lv(e["e"], st).addr()
        if op == "*":
            if e["e"]["k"] == "this":
                return self.get(st, self.frames[-1]["this"])
            return self.get(st, self.deref(st, self.rv(e["e"], st)))
        if op in ("++", "--"):
            l = self.lv(e["e"], st)
            old = self.get(st, l)
            if old.op == "iter":
                new = iter_at(old, add(old.args[2], num(1 if op == "++" else -1)))
            else:
                new = add(old, num(1 if op == "++" else -1))
            self.set(st, l, new)
            return old if e.get("post") else new
        v = self.rv(e["e"], st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return bnot(boolof(v))
        return mk("call", "op" + op, v)

    def e_cond(self, e, st):
        c = self.assume(st, boolof(self.rv(e["c"], st)))
        if c is TRUE:
            return self.rv(e["a"], st)
        if c is FALSE:
            return self.rv(e["b"], st)
        return self.gated(c, st, lambda x: self.rv(e["a"], x), lambda x: self.rv(e["b"], x))

    def gated(self, c, st, fa, fb):
        base = st.pc
        outs = []
        for cc, f in ((c, fa), (bnot(c), fb)):
            x = st.copy()
            x.pc = base + (cc,)
            try:
                v = f(x)
                outs.append(Outcome("next", x, v))
            except Dead:
                pass
        if not outs:
            raise Dead()
        o = merge(outs, base)
        st.store, st.pc, st.trace = o.st.store, o.st.pc, o.st.trace
        return o.val

    def e_bin(self, e, st):
        op = e["op"]
        if op == "&&":
            a = self.assume(st, boolof(self.rv(e["a"], st)))
            if a is FALSE:
                return FALSE
            if a is TRUE:
                return boolof(self.rv(e["b"], st))
            return self.gated(a, st, lambda x: boolof(self.rv(e["b"], x)), lambda x: FALSE)
        if op == "||":
            a = self.assume(st, boolof(self.rv(e["a"], st)))
            if a is TRUE:
                return TRUE
            if a is FALSE:
                return boolof(self.rv(e["b"], st))
            return self.gated(a, st, lambda x: TRUE, lambda x: boolof(self.rv(e["b"], x)))
        if op == ",":
            self.rv(e["a"], st)
            return self.rv(e["b"], st)
        a = self.rv(e["a"], st)
        b = self.rv(e["b"], st)
        return self.arith(op, a, b, e["t"], e["a"].get("t", ""))

    FLOATS = ("float", "double", "long double")

    def arith(self, op, a, b, t, ta=""):
        if a.op == "iter" or b.op == "iter":
            return self.iter_arith(op, a, b)
        if op in ("+", "-", "*", "/", "%"):
            for x, y in ((a, b), (b, a)):
                if isbool(x) and x not in (TRUE, FALSE):
                    x2 = ite(x, ONE, ZERO)
                    if x is a:
                        a = x2
                    else:
                        b = x2
        if a.op == "addr" and op in ("+", "-") and b.op != "addr":
            r, p = a.args
            if p and p[-1][0] == "i":
                return mk("addr", r, p[:-1] + (("i", add(p[-1][1], b if op == "+" else neg(b))),))
            return mk("iter", r, p, b if op == "+" else neg(b))
        if op == "+":
            if a.op == "str" or b.op == "str":
                return mk("call", "strcat", a, b)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            base = t.replace("const ", "")
            if base in self.FLOATS:
                return rdiv(a, b)
            self.on_div(a, b)
            return idiv(a, b)
        if op == "%":
            self.on_div(a, b)
            return imod(a, b)
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return bnot(eq(a, b))
        if op == "|" and isbool(a) and isbool(b):
            return bor(a, b)
        if op == "&" and isbool(a) and isbool(b):
            return band(a, b)
        if op == "<<" and isint_const(b):
            return mul(a, num(2 ** int(b.args[0])))
        if op in ("|", "&", "^", "<<", ">>") and a.op == "num" and b.op == "num" and a.args[0].denominator == b.args[0].denominator == 1 and b.args[0] >= 0:
            x, y = int(a.args[0]), int(b.args[0])
            return num({"|": x | y, "&": x & y, "^": x ^ y, "<<": x << min(y, 64), ">>": x >> y}[op])
        return mk("call", "op" + op, a, b)

    def on_div(self, a, b):
        pass

    def iter_arith(self, op, a, b):
        if a.op == "iter" and b.op == "iter":
            if op == "-":
                return sub(a.args[2], b.args[2])
            return self.arith(op, a.args[2], b.args[2], "int")
        if b.op == "iter":
            a, b = b, a
        return iter_at(a, add(a.args[2], b if op == "+" else neg(b)))

    def e_asg(self, e, st):
        # C++17: right operand first
        v = self.rv(e["b"], st)
        l = self.lv(e["a"], st)
        self.set(st, l, v)
        return v

    def e_casg(self, e, st):
        v = self.rv(e["b"], st)
        l = self.lv(e["a"], st)
        old = self.get(st, l)
        n = self.arith(e["op"], old, v, e.get("ct", e["t"]))
        if e.get("ct", "") in self.FLOATS and e["t"] not in self.FLOATS and n is not old:
            n = trunc(n)
        self.set(st, l, n)
        return n

    def e_throw(self, e, st):
        t = "?"
        if e.get("e"):
            x = e["e"]
            t = x.get("t", "?").replace("const ", "")
            try:
                for a in x.get("a", []):
                    self.rv(a, st)
            except Unsupported:
                pass
        self.throw(st, mk("exc", t, e.get("l", 0)))
        raise Dead()

    def e_lambda(self, e, st):
        fr = self.frames[-1]
        env = {"vars": {}, "this": fr["this"], "cls": fr["cls"]}
        for c in e["caps"]:
            if c.get("this"):
                continue
            d = c["d"]
            if c.get("init") is not None:
                r = self.temp(st, self.rv(c["init"], st))
                env["vars"][d] = r
            elif d in fr["vars"]:
                if c.get("byref"):
                    env["vars"][d] = fr["vars"][d]
                else:
                    env["vars"][d] = self.temp(st, self.get(st, fr["vars"][d]))
        cid = next(_uid)
        self.closures[cid] = (e, env)
        return mk("clo", cid)

    def call_closure(self, c, args, st):
        if c.op == "fn":
            d = self.p.fns.get(c.args[0])
            if d:
                o = self.call_fn(d, None, args, st)
                return self.adopt(st, o)
            return mk("call", c.args[1], *[self.val(a, st) for a in args])
        if c.op == "op2":
            a, b = [self.val(x, st) for x in args]
            return self.arith(c.args[0], a, b, "float")
        if c.op == "bind":
            full = []
            for b in c.args[1]:
                if b.op == "ph":
                    full.append(args[b.args[0] - 1])
                else:
                    full.append(b)
            return self.call_closure(c.args[0], full, st)
        if c.op != "clo":
            return self.fuzzy("call of unknown function object " + c.op)
        e, env = self.closures[c.args[0]]
        fn = {"q": e["q"], "key": e["q"], "params": e["params"], "body": e["body"], "ret": e["ret"], "kind": "lambda"}
        o = self.call_fn(fn, None, args, st, lambda_env=env)
        return self.adopt(st, o)

    def val(self, a, st):
        return self.get(st, a) if isinstance(a, LV) else a

    def e_ilist(self, e, st):
        t = e["t"]
        if "fs" in e and not e.get("nb"):
            cls = t.replace("const ", "")
            am = re.match(r"std::array<(.*), (\d+)>$", cls)
            if am and len(e["a"]) <= 1 and int(am.group(2)) <= 64:
                a = e["a"][0] if e["a"] else None
                xs = [self.rv(x, st) for x in a["a"]] if a and a.get("k") == "ilist" else []
                d = self.default_value(am.group(1), st)
                return lst(*xs, *[d if d is not None else ZERO] * (int(am.group(2)) - len(xs)))
            o = mk("undef", cls)
            for f, a in zip(e["fs"], e["a"]):
                if a is None or a["k"] == "?":
                    v = self.default_value(self.p.ftype(cls, f) or "", st)
                    if v is None:
                        continue
                else:
                    v = self.rv(a, st)
                o = setf(o, f, v)
            return o
        xs = [self.rv(a, st) for a in e["a"]]
        if len(xs) == 1 and not t.startswith("std::") and "[" not in t:
            return xs[0]
        if not xs and not t.replace("const ", "").startswith("std::") and "[" not in t:
            v = self.default_value(t, st)
            if v is not None:
                return v
            return FALSE if t.replace("const ", "") == "bool" else NULL if t.rstrip().endswith("*") else ZERO
        return lst(*xs)

    def e_new(self, e, st):
        cls = e["at"]
        if e.get("arr"):
            return self.fuzzy("array new")
        if cls in self.p.recs and e.get("init", {}).get("k") == "ctor":
            return self.new_object(cls, e["init"], st).addr()
        r = "N%d:%s" % (next(_uid), cls)
        st.store[r] = self.rv(e["init"], st) if e.get("init") else mk("undef", cls)
        return LV(r).addr()

    def e_delete(self, e, st):
        self.rv(e["e"], st)
        return UNIT

    def e_ctor(self, e, st):
        from .stdlib import std_ctor
        fr = e["fn"]
        cls = fr["cls"]
        if cls in self.p.recs:
            if (fr.get("copy") or fr.get("move")):
                d = self.p.fns.get(fr["key"])
                if d is None or d.get("body") is None:
                    return self.rv(e["a"][0], st)
            m = re.search(r"\[(\d+)\]$", e.get("t", ""))
            if m and int(m.group(1)) <= 16:  # array of objects
                return lst(*[self.get(st, self.new_object(cls, e, st)) for _ in range(int(m.group(1)))])
            l = self.new_object(cls, e, st)
            return self.get(st, l)
        if cls.startswith("lambda") or "(lambda" in cls or "lambda at" in cls:
            return self.rv(e["a"][0], st) if e["a"] else UNIT
        return std_ctor(self, e, st)

    def e_stmtexpr(self, e, st):
        return self.fuzzy("statement expression")

    # ------------------------------------------------------------ calls
    def eval_args(self, d, args, st):
        out = []
        ps = d.get("params", []) if d else []
        for i, a in enumerate(args):
            pt = ps[i]["t"] if i < len(ps) else ""
            if pt.rstrip().endswith("&"):
                try:
                    out.append(self.lv(a, st))
                    continue
                except Unsupported:
                    pass
            if pt.rstrip().endswith("*") and re.search(r"\[\d+\](?: ?&)?$", a.get("t", "")):
                try:  # an array forwarded by reference to a pointer parameter
                    out.append(self.lv(a, st).addr())
                    continue
                except Unsupported:
                    pass
            out.append(self.rv(a, st))
        return out

    def this_lv(self, e, st):
        """LV of the object of a member call"""
        o = e["obj"]
        while o["k"] == "upcast":
            o = o["e"]
        if e.get("ar"):
            if o["k"] == "this":
                return self.frames[-1]["this"]
            return self.deref(st, self.rv(o, st))
        return self.lv(o, st)

    def dyn_class(self, lv, static_cls, st):
        if not lv.path and lv.root in self.dyn:
            return self.dyn[lv.root], True
        return static_cls, False

    def e_mcall(self, e, st):
        if "fn" not in e:
            return self.fuzzy("pointer-to-member call")
        from .stdlib import std_mcall
        fn = e["fn"]
        if not fn.get("repo"):
            return std_mcall(self, e, st)
        this = None if fn.get("static") else self.this_lv(e, st)
        return self.invoke(fn, this, e["a"], e, st, qual=e.get("qual"))

    def invoke(self, fn, this, argexprs, e, st, qual=False):
        """call of a repo function"""
        d = None
        objcls = fn.get("cls")
        if fn.get("virt") and not qual and this is not None:
            dc, known = self.dyn_class(this, fn["cls"], st)
            if known:
                d = self.p.resolve(fn, dc)
                objcls = dc
            else:
                cands = {fn["key"]}
                todo = [fn["key"]]
                while todo:
                    for o in self.p.overriders.get(todo.pop(), ()):
                        if o not in cands:
                            cands.add(o)
                            todo.append(o)
                defs = [self.p.fns[c] for c in cands if c in self.p.fns]
                d = defs[0] if len(defs) == 1 and len(cands) == 1 else None
        else:
            d = self.p.fns.get(fn["key"])
            dc, known = self.dyn_class(this, fn.get("cls"), st) if this is not None else (fn.get("cls"), False)
            objcls = dc or fn.get("cls")
        args = self.eval_args(d or {"params": [{"t": t} for t in fn.get("pt", [])]}, argexprs, st)
        pol = self.policy(fn, d, this, args, st, self)
        if pol is not None and pol is not False:
            if callable(pol):
                return pol(self, fn, this, args, e, st)
            if pol == "opaque":
                return self.opaque_call(fn, this, args, e, st)
        if d is not None and d.get("defaulted") and fn["n"] in ("operator=",):
            self.set(st, this, self.val(args[0], st))
            return this
        if d is None or d.get("body") is None:
            if d is not None and d.get("defaulted") and fn["n"] == "operator==":
                a, b = self.get(st, this), self.val(args[0], st)
                return band(*[eq(fld(a, f["n"]), fld(b, f["n"])) for f in self.p.fields(fn["cls"])])
            if fn.get("assign"):
                self.set(st, this, self.val(args[0], st))
                return this
            return self.opaque_call(fn, this, args, e, st)
        if any(fr["fn"] is d for fr in self.frames if fr.get("fn")) and sum(fr["fn"] is d for fr in self.frames) > 1:
            return self.opaque_call(fn, this, args, e, st)
        o = self.call_fn(d, this, args, st, cls=objcls)
        return self.adopt(st, o)

    def opaque_call(self, fn, this, args, e, st, pure=False):
        """uninterpreted call: an event in the trace, result is a term over (object, args)"""
        name = fn["q"]
        obj = self.get(st, this) if this is not None else None
        vals = ([obj] if obj is not None else []) + [self.val(a, st) for a in args]
        self.calltypes[name] = fn.get("ret", "")
        ev = Event(name, vals, st.cond(), (), (e or {}).get("l"), (this.addr() if this is not None else None))
        st.trace = st.trace + (ev,)
        for i, a in enumerate(args):
            t = fn["pt"][i] if i < len(fn.get("pt", [])) else ""
            if isinstance(a, LV) and t.rstrip().endswith("&") and not t.startswith("const "):
                self.set(st, a, mk("call", "out%d:%s" % (i, name), *vals))
        if fn.get("ret", "") == "void":
            return UNIT
        return mk("call", name, *vals)

    def e_call(self, e, st):
        from .stdlib import std_call
        if "fn" not in e:
            c = self.rv(e["callee"], st)
            return self.call_closure(c, [self.rv(a, st) for a in e["a"]], st)
        fn = e["fn"]
        if not fn.get("repo"):
            return std_call(self, e, st)
        return self.invoke(fn, None, e["a"], e, st)

    def e_opcall(self, e, st):
        from .stdlib import std_opcall
        fn = e.get("fn")
        if fn and fn.get("repo") and fn["n"] != "operator()" and "lambda" not in fn.get("q", ""):
            if "cls" in fn and not fn.get("static"):
                o = e["a"][0]
                while o["k"] == "upcast":
                    o = o["e"]
                this = self.lv(o, st)
                return self.invoke(fn, this, e["a"][1:], e, st)
            return self.invoke(fn, None, e["a"], e, st)
        if e["op"] == "()":
            q = (fn or {}).get("q", "")
            if q.startswith("lambda@") or (fn and "lambda" in fn.get("cls", "")) or "operator()" == q:
                c = self.rv(e["a"][0], st)
                args = self.eval_args({"params": [{"t": t} for t in fn.get("pt", [])]}, e["a"][1:], st)
                return self.call_closure(c, args, st)
        return std_opcall(self, e, st)

    def e_memfn(self, e, st):
        return mk("fn", e["fn"]["key"], e["fn"]["q"])


class Dead(Exception):
    """control never reaches the continuation"""
