"""Closed-form loop summaries (induction variables, sums, maps, scatters, flags, searches, folds)."""
import itertools
from .terms import *
from . import terms as tm

_n = itertools.count(1)


def _ispre(root, pre):
    from .interp import lazy
    return root in pre.store or lazy(root)


def _norm(writes, pre, tname, I, scope):
    """written locations, cut at the first index that varies with this loop"""
    locs = []
    for root, path in writes:
        if not _ispre(root, pre):
            continue
        if isinstance(root, tuple) and any(not x.lvs <= scope for x in root if isinstance(x, T)):
            I.note("heap write through a loop-dependent pointer")
            continue
        p = []
        for k, x in path:
            if k == "i" and not x.lvs <= scope:
                break
            p.append((k, x))
        l = (root, tuple(p))
        if l not in locs:
            locs.append(l)
    # two different constant/invariant indices into one array: keep the array
    changed = True
    while changed:
        changed = False
        for a in range(len(locs)):
            for b in range(len(locs)):
                (r1, p1), (r2, p2) = locs[a], locs[b]
                if r1 != r2 or a == b:
                    continue
                n = 0
                while n < len(p1) and n < len(p2) and p1[n] == p2[n]:
                    n += 1
                if n < len(p1) and n < len(p2) and p1[n][0] == "i" and p2[n][0] == "i":
                    if isnum(p1[n][1]) and isnum(p2[n][1]):
                        continue
                    locs[a] = (r1, p1[:n])
                    locs[b] = (r2, p2[:n])
                    changed = True
    locs = list(dict.fromkeys(locs))
    # drop locations below an already listed prefix
    out = []
    for r, p in locs:
        if any(r == r2 and p2 != p and p[:len(p2)] == p2 for r2, p2 in locs):
            continue
        out.append((r, p))
    return out


UNROLL = 4


def unroll(I, st, cond, inc, body, trip, enter, exec_body, limit=UNROLL):
    """a loop with a known number of at most UNROLL iterations is executed literally; None if it is not one"""
    from .interp import Outcome, merge, Dead
    if trip is not None and not (trip.op == "num" and trip.args[0] <= limit):
        return None
    if trip is None and cond is None:
        return None
    base = st.pc
    fr = I.frames[-1] if I.frames else {"vars": {}}
    vars0, nthrow, nwrites, nnotes = dict(fr["vars"]), len(I.throws[-1]), len(I.writes), len(I.notes)
    cur = st.copy()
    res = []

    def undo():
        fr["vars"] = vars0
        del I.throws[-1][nthrow:]
        del I.writes[nwrites:]
        del I.notes[nnotes:]
        return None
    for k in range(limit + 1):
        go = TRUE
        if trip is not None:
            go = TRUE if k < trip.args[0] else FALSE
        else:
            try:
                go = boolof(I.rv(cond, cur))
            except Dead:
                return undo()
        if go is FALSE:
            fr["vars"] = vars0
            return I.group(res + [Outcome("next", cur)], base)
        if go is not TRUE or k == limit:
            return undo()
        if enter:
            enter(cur, num(k))
        outs = exec_body(cur, num(k)) if exec_body else I.exec(body, cur)
        nxt = [o for o in outs if o.kind in ("next", "continue")]
        for o in outs:
            if o.kind in ("break", "ret"):
                res.append(Outcome("next" if o.kind == "break" else o.kind, o.st, o.val))
        if not nxt:
            fr["vars"] = vars0
            return I.group(res, base)
        for o in nxt:
            o.kind = "next"
        cur = merge(nxt, base).st
        if inc is not None:
            I.rv(inc, cur)
    return undo()


def summarise(I, s, st, cond, inc, body, trip, enter, exec_body):
    from .interp import LV, Outcome, merge, relcond, State, Event, Dead
    base = st.pc
    tname = "t%d" % next(_n)
    t = mk("lv", tname)
    outer_writes = I.writes
    W = []
    hs = {}
    scope0 = set(I.scope)
    saved_vars = dict(I.frames[-1]["vars"]) if I.frames else {}

    def one_pass():
        S = st.copy()
        for l in W:
            init = I.get(st, LV(*l))
            if l not in hs:
                hs[l] = "h%d_%s" % (next(_n), tname)
            h = mk("lv", hs[l])
            if init.op == "iter":
                h = iter_at(init, h)
            elif isbool(init) or init.op == "boolof":
                h = mk("boolof", h)
            I.set(S, LV(*l), h)
        I.writes = []
        I.throws.append([])
        I.active.append(t)
        I.scope = scope0 | {tname} | set(hs.values())
        c = None
        try:
            if I.frames:
                I.frames[-1]["vars"] = dict(saved_vars)
            if enter:
                enter(S, t)
            if cond is not None:
                c = boolof(I.rv(cond, S))
            head = S.copy()
            S0pc = S.pc
            if exec_body:
                outs = exec_body(S, t)
            else:
                outs = I.exec(body, S)
            nxt = [o for o in outs if o.kind in ("next", "continue")]
            for o in nxt:
                o.kind = "next"
            P = None
            if nxt:
                P = merge(nxt, S0pc)
                if inc is not None:
                    I.rv(inc, P.st)
            exits = [o for o in outs if o.kind in ("break", "ret")]
        except Dead:
            P, exits, S0pc, head = None, [], base, S
        I.active.pop()
        I.scope = set(scope0)
        th = I.throws.pop()
        return c, P, exits, th, I.writes, S0pc, head

    for _ in range(8):
        c, P, exits, th, wr, S0pc, head = one_pass()
        newW = _norm([(r, p) for r, p in wr] + W, st, tname, I, scope0)
        if newW == W:
            break
        W = newW
    if I.frames:
        I.frames[-1]["vars"] = saved_vars
    I.writes = outer_writes + [(r, p) for r, p in W]
    inits = {l: I.get(st, LV(*l)) for l in W}
    hv = {l: mk("lv", hs[l]) for l in W}
    hnames = {hs[l] for l in W}
    if P is None:
        # body never completes: executes at most once
        return _once(I, st, base, c, exits, th, t, hv, inits, trip)
    posts = {}
    for l in W:
        v = I.get(P.st, LV(*l))
        if inits[l].op == "iter":
            v = v.args[2] if v.op == "iter" else I.fuzzy("iterator")
        posts[l] = v
    ini = {l: (v.args[2] if v.op == "iter" else v) for l, v in inits.items()}

    # ---- induction variables
    known = {}            # lv h -> term in t
    # arrays that are only written element-wise keep their length
    for l in W:
        ln = mk("len", hv[l])
        p = posts[l]
        if p.op in ("upd", "scat", "ite", "map") and length(p) is ln:
            known[ln] = length(ini[l])
    changed = True
    while changed:
        changed = False
        for l in W:
            if hv[l] in known:
                continue
            p = subst(posts[l], known) if known else posts[l]
            d = sub(p, hv[l]) if not isbool(ini[l]) and ini[l].op not in ("lst", "map", "obj", "str", "null", "addr") else None
            if d is not None and not (d.lvs & (hnames | {tname})) and _numeric(p, hv[l]):
                known[hv[l]] = add(ini[l], mul(d, t))
                changed = True
    S = lambda x: subst(x, known) if known else x
    cc = S(c) if c is not None else None
    # ---- trip count
    N = trip
    extra_exit = FALSE
    if N is None:
        if cc is None:
            N = mk("inf")
        else:
            N, extra_exit = _trip(I, cc, t, tname, hnames)
    else:
        N = trip
    unknown_trip = N is None
    if unknown_trip:
        I.note("loop at line %s: trip count not in closed form" % s.get("l"))
        N = mk("unk", "trip", next(_n))
    # ---- remaining carried values
    A = {}                # l -> function(N) -> term at start of iteration N
    todo = [l for l in W if hv[l] not in known]
    for l in W:
        if hv[l] in known:
            k = known[hv[l]]
            A[l] = (lambda k: (lambda n: subst(k, {t: n})))(k)
    sub_t = dict(known)
    progress = True
    while todo and progress:
        progress = False
        for l in list(todo):
            p = subst(posts[l], sub_t)
            others = {hs[x] for x in todo if x is not l}
            if p.lvs & others:
                continue
            f = _solve(I, p, hv[l], ini[l], t, tname)
            if f is None:
                continue
            A[l] = f
            sub_t[hv[l]] = f(t)
            todo.remove(l)
            progress = True
    if todo:
        # mutually dependent group -> fold
        ps = [subst(posts[l], sub_t) for l in todo]
        order = sorted(range(len(todo)), key=lambda i: (str(todo[i][0]).split("@")[0], str(todo[i][1])))
        grp = [todo[i] for i in order]
        ps = [ps[i] for i in order]
        lev = 1 + max([p.lev for p in ps] + [0])
        m = {t: mk("bv", lev)}
        for i, l in enumerate(grp):
            m[hv[l]] = mk("bv", lev + 1 + i)
        nx = tuple(subst(p, m) for p in ps)
        iv = tuple(ini[l] for l in grp)
        for i, l in enumerate(grp):
            A[l] = (lambda i: (lambda n: mk("fold", n, lev, iv, nx, i)))(i)
            w = mk("fold", t, lev, iv, nx, i)
            sub_t[hv[l]] = w
        I.folds = getattr(I, "folds", 0) + 1
    St = lambda x: subst(x, sub_t)

    # ---- exits
    exs = []
    for o in exits + th:
        exs.append((o, St(relcond(o.st, S0pc))))
    E = bor(extra_exit and St(extra_exit) or FALSE, *[x for _, x in exs])
    res = []
    if E is FALSE:
        fin = st
        _assign(I, fin, W, inits, A, N)
        fin.trace = st.trace + _loop_events(P.st.trace[len(st.trace):], tname, N, sub_t)
        if N.op == "inf":
            return []
        return [Outcome("next", fin)]
    anyE = many(N, tname, E) if N.op != "inf" else TRUE
    f = mfirst(N, tname, E)
    ev = P.st.trace[len(st.trace):]
    Nc = ite(anyE, f, N) if anyE is not TRUE else f
    loop_ev = _loop_events(ev, tname, Nc, sub_t)
    if anyE is not TRUE and N.op != "inf":
        fin = st.copy()
        fin.pc = base + (bnot(anyE),)
        _assign(I, fin, W, inits, A, N)
        fin.trace = st.trace + loop_ev
        res.append(Outcome("next", fin))
    at_f = {t: f}
    allexits = list(exs)
    ee = St(extra_exit) if extra_exit is not FALSE else FALSE
    if ee is not FALSE:
        # loop condition became false: behaves as break at the loop head
        o = Outcome("break", head)
        allexits = [(o, ee)] + [(x, band(cx, bnot(ee))) for x, cx in allexits]
    for o, ce in allexits:
        x = st.copy()
        cf = subst(ce, at_f)
        if len(allexits) == 1:
            cf = TRUE
        x.pc = base + tuple(y for y in (band(anyE, cf),) if y is not TRUE)
        for l in W:
            v = I.get(o.st, LV(*l))
            I.set(x, LV(*l), subst(St(v), at_f))
        tail = [e.sub(sub_t).sub(at_f) for e in o.st.trace[len(st.trace):]]
        eg = band(anyE, cf)
        if eg is not TRUE:
            tail = [Event(e.name, e.args, band(eg, e.guard), e.binders, e.site, e.extra) for e in tail]
        x.trace = st.trace + loop_ev + tuple(tail)
        v = subst(St(o.val), at_f) if isinstance(o.val, T) else o.val
        if o.kind == "throw":
            I.throws[-1].append(Outcome("throw", x, v))
        elif o.kind == "break":
            res.append(Outcome("next", x))
        else:
            res.append(Outcome(o.kind, x, v))
    return I.group(res, base)


def _numeric(p, h):
    """p really is h + const (guards against aggregates)"""
    return p.op in ("poly", "lv", "num")


def _assign(I, st, W, inits, A, N):
    from .interp import LV
    for l in W:
        v = A[l](N)
        i = inits[l]
        if i.op == "iter":
            v = iter_at(i, v)
        I.set(st, LV(*l), v)


def _loop_events(evs, tname, N, sub_t):
    from .interp import Event
    out = []
    for e in evs:
        e = e.sub(sub_t)
        out.append(Event(e.name, e.args, e.guard, ((tname, N),) + tuple(e.binders), e.site, e.extra))
    return tuple(out)


def _once(I, st, base, c, exits, th, t, hv, inits, trip):
    from .interp import Outcome, relcond, LV, State
    m = {t: ZERO}
    for l in hv:
        i = inits[l]
        m[hv[l]] = i.args[2] if i.op == "iter" else i
    if c is not None:
        go = subst(c, m)
    elif trip is not None:
        go = lt(ZERO, trip)
    else:
        go = TRUE
    res = []
    if go is not TRUE:
        x = st.copy()
        x.pc = base + (bnot(go),)
        res.append(Outcome("next", x))
    for o in exits + th:
        x = st.copy()
        rc = subst(relcond(o.st, base), m)
        cnd = band(go, rc)
        if cnd is FALSE:
            continue
        x.pc = base + ((cnd,) if cnd is not TRUE else ())
        for r, v in o.st.store.items():
            if r in st.store or isinstance(r, tuple) or r == "this":
                x.store[r] = subst(v, m)
        x.trace = st.trace + tuple(e.sub(m) for e in o.st.trace[len(st.trace):])
        v = subst(o.val, m) if isinstance(o.val, T) else o.val
        if o.kind == "throw":
            I.throws[-1].append(Outcome("throw", x, v))
        else:
            res.append(Outcome("next" if o.kind == "break" else o.kind, x, v))
    return I.group(res, base)


def _trip(I, c, t, tname, hnames):
    """-> (N, extra exit condition)"""
    conj = list(c.args) if c.op == "and" else [c]
    N, rest = None, []
    for x in conj:
        n = _affine_trip(x, t, tname, hnames) if N is None else None
        if n is not None:
            N = n
        else:
            rest.append(x)
    extra = bnot(band(*rest)) if rest else FALSE
    if N is None:
        if extra is FALSE:
            return mk("inf"), FALSE
        return mk("inf"), extra
    return N, extra


def _affine_trip(x, t, tname, hnames):
    negd = False
    if x.op == "not":
        negd, x = True, x.args[0]
    if x.op not in ("lt", "eq0"):
        return None
    d = x.args[0]
    if d.lvs & hnames:
        return None
    a, r = None, []
    for m, c in polyitems(d).items():
        if any(tname in at.lvs for at, e in m):
            if len(m) != 1 or m[0][1] != 1 or m[0][0] is not t or a is not None:
                return None
            a = c
        else:
            r.append((m, c))
    if a is None:
        return None
    r = tm._unpoly(dict(r))
    if x.op == "lt" and not negd:
        if a < 0:
            return None
        # a t + r < 0 : integers, scale so that coefficients are integral
        if a == 1:
            return neg(r)
        q = mul(num(1 / a), neg(r))      # t < q
        return _ceil(q)
    if x.op == "lt" and negd:
        if a > 0:
            return None
        q = mul(num(1 / -a), r)          # t <= q
        return add(_floor(q), ONE)
    if x.op == "eq0" and negd:
        return mul(num(-1 / a), r)
    return None


def _den(q):
    from math import lcm
    d = 1
    for m, c in polyitems(q).items():
        d = lcm(d, c.denominator)
    return d


def _floor(q):
    d = _den(q)
    if d == 1:
        return q
    return idiv(mul(q, num(d)), num(d))


def _ceil(q):
    d = _den(q)
    if d == 1:
        return q
    return idiv(add(mul(q, num(d)), num(d - 1)), num(d))


def _delta(p, h, hname):
    if p is h:
        return ZERO
    if p.op == "ite" and hname not in p.args[0].lvs:
        a, b = _delta(p.args[1], h, hname), _delta(p.args[2], h, hname)
        if a is None or b is None:
            return None
        return ite(p.args[0], a, b)
    if p.op == "poly":
        d = sub(p, h)
        if hname not in d.lvs:
            return d
        # h*(stuff)? coefficient-1 monomial expected
        its = dict(polyitems(p))
        # (ite(..., h+.., h) + e) nested
        for m, c in its.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and hname in m[0][0].lvs:
                rest = sub(p, m[0][0])
                if hname in rest.lvs:
                    return None
                dd = _delta(m[0][0], h, hname)
                return None if dd is None else add(dd, rest)
    return None


def _replace_reads(x, h, idx, hname):
    """replace read(h, idx) by a marker; None when h occurs otherwise"""
    mark = mk("lv", "elem!" + hname)
    y = subst(x, {mk("read", h, idx): mark})
    if hname in y.lvs:
        return None, mark
    return y, mark


def _solve(I, p, h, init, t, tname):
    hname = h.args[0]
    if p is h or p.op == "boolof" and p.args[0] is h:
        return lambda n: init
    if hname not in p.lvs:
        def f(n):
            v = subst(p, {t: sub(n, ONE)})
            return ite(lt(ZERO, n), v, init)
        return f
    # numeric accumulation
    d = _delta(p, h, hname)
    if d is not None and _is_numeric_value(init):
        return lambda n: add(init, msum(n, tname, d))
    # product
    if p.op == "poly":
        its = polyitems(p)
        if len(its) == 1:
            (m, c), = its.items()
            if (h, 1) in m:
                e = tm._unpoly({tuple(x for x in m if x != (h, 1)): c})
                if hname not in e.lvs:
                    return lambda n: mul(init, mprod(n, tname, e))
    # booleans
    if isbool(p):
        bh = mk("boolof", h)
        pT, pF = subst(p, {bh: TRUE}), subst(p, {bh: FALSE})
        if hname not in pT.lvs and hname not in pF.lvs:
            if pT is TRUE:
                return lambda n: bor(boolof(init), many(n, tname, pF))
            if pF is FALSE:
                return lambda n: band(boolof(init), mall(n, tname, pT))
    # guarded overwrite: last match wins
    if p.op == "ite" and hname not in p.args[0].lvs:
        c, a, b = p.args
        if a is h:
            c, a, b = bnot(c), b, a
        if b is h and hname not in a.lvs:
            def f(n):
                if tname not in a.lvs:
                    return ite(many(n, tname, c), a, init)
                rev = subst(c, {t: sub(sub(n, ONE), t)})
                last = sub(sub(n, ONE), mfirst(n, tname, rev))
                return ite(many(n, tname, c), subst(a, {t: last}), init)
            return f
    # push_back
    if p.op == "concat" and p.args[0] is h and all(hname not in x.lvs for x in p.args[1:]):
        if all(x.op == "lst" and len(x.args) == 1 for x in p.args[1:]) and len(p.args) == 2:
            x = p.args[1].args[0]
            def f(n):
                m = mkmap(n, tname, x)
                return m if init.op == "lst" and not init.args else mk("concat", init, m)
            return f
    return _solve_array(I, p, h, init, t, tname)


def _is_numeric_value(init):
    return init.op not in ("lst", "map", "obj", "str", "null", "addr", "upd", "scat", "resize", "concat")


def _split(y, none):
    """(condition under which y is not `none`, the value it then has)"""
    if y is none:
        return FALSE, None
    if y.op == "ite":
        c, a, b = y.args
        (ga, va), (gb, vb) = _split(a, none), _split(b, none)
        if va is None:
            return band(bnot(c), gb), vb
        if vb is None:
            return band(c, ga), va
        return ite(c, ga, gb), ite(c, va, vb)
    return TRUE, y


def _solve_array(I, p, h, init, t, tname):
    hname = h.args[0]
    if p.op == "upd":
        b, idx, v = p.args
        if b is h and hname not in idx.lvs:
            step = sub(subst(idx, {t: add(t, ONE)}), idx)
            if isnum(step) and step.args[0] != 0:
                y, mark = _replace_reads(v, h, idx, hname)
                if y is not None:
                    g, w = _split(y, mark)
                    if w is None:
                        return lambda n: init
                    full = subst(y, {mark: read(init, idx)})
                    m = {mark: read(init, idx)}
                    return lambda n: _mkscat(init, "=", n, tname, idx, subst(g, m), subst(w, m), t, full)
            y, mark = _replace_reads(v, h, idx, hname)
            if y is not None and mark.args[0] not in y.lvs:
                return lambda n: _mkscat(init, "=", n, tname, idx, TRUE, y, t)
            if y is not None:
                dd = _delta(y, mark, mark.args[0])
                if dd is not None:
                    g, w = _split(dd, ZERO)
                    if w is None:
                        return lambda n: init
                    return lambda n: _mkscat(init, "+", n, tname, idx, g, w, t)
                # guarded overwrite of an element
                if y.op == "ite" and mark.args[0] not in y.args[0].lvs:
                    c, a, bb = y.args
                    if a is mark:
                        c, a, bb = bnot(c), bb, a
                    if bb is mark and mark.args[0] not in a.lvs:
                        return lambda n: _mkscat(init, "=", n, tname, idx, c, a, t)
    if p.op == "scat" and p.args[0] is h:
        b, kind, trips, guard, idx, val, levs = p.args
        rest = [guard, val] + list(idx) + list(trips)
        if all(hname not in x.lvs for x in rest):
            def f(n):
                k = 1 + max(x.lev for x in rest + [mk("bv", max(levs))])
                m = {t: mk("bv", k)}
                return scat(init, kind, (n,) + tuple(subst(x, m) for x in trips), subst(guard, m),
                            tuple(subst(x, m) for x in idx), subst(val, m), (k,) + levs)
            return f
    if p.op == "obj" or p.op == "ite":
        return None
    return None


def _mkscat(init, kind, n, tname, idx, guard, val, t, full=None):
    # whole-array overwrite -> map
    if kind == "=" and idx is t and length(init) is n:
        if guard is TRUE:
            return mkmap(n, tname, val)
        if full is not None:
            return mkmap(n, tname, full)
    k = 1 + max(idx.lev, guard.lev, val.lev)
    m = {t: mk("bv", k)}
    return scat(init, kind, (n,), subst(guard, m), (subst(idx, m),), subst(val, m), (k,))
