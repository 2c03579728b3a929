"""Data sets as their public constructors make them, followed by any sequence of public calls."""
from fractions import Fraction
from .lib import *

DATA = "snn::Data"
PROBLEMS = ("classification", "multipleClassification", "regression")
NATURES = ("nonTemporal", "sequential", "timeSeries")
V2, V3 = "std::vector<std::vector<float>>", "std::vector<std::vector<std::vector<float>>>"


def constructor(P, rank, both):
    """rank of the inputs (2 or 3); both: training and testing data are given separately"""
    def ok(f):
        t = [p["t"] for p in f["params"]]
        n = sum("vector" in x for x in t)
        return not f.get("copy") and not f.get("move") and n == (4 if both else 2) and (t[1].count("vector") == rank)
    fs = [f for f in P.byq.get(DATA + "::Data", []) if ok(f)]
    if len(fs) != 1:
        raise Skip("constructor of Data not found")
    return fs[0]


class DataSet:
    """a Data object in closed form over the vectors and the number of recurrences (R) it was made of"""

    def __init__(self, ck, rank, both, problem, nature, _state=None):
        self.ck, self.rank, self.both, self.problem, self.nature = ck, rank, both, problem, nature
        P = ck.prog
        self.names = ["ti", "tl", "ei", "el"] if both else ["ti", "tl"]

        def value(q, v, enum):
            return num(enum_value(P, q, v)) if isinstance(v, str) else v
        self.problem_v, self.nature_v = value("snn::problem", problem, 1), value("snn::nature", nature, 1)
        if _state is None:
            S = ck.summary(constructor(P, rank, both), args=[self.problem_v] + [LV(n) for n in self.names] + [self.nature_v, sym("R")], cls=DATA)
            self.made = S
            self.ok = bnot(S.throw_cond)
            o = S.out()
            self.store = dict(o.st.store) if o is not None else None
            self.I = S.I
        else:
            self.made, self.ok, self.store, self.I = _state

    def call(self, name, *args):
        """summary of a public method on this object"""
        f = self.ck.prog.method(DATA, name, lambda f: len(f["params"]) == len(args))
        return self.ck.summary(f, args=[t_(a) for a in args], store=dict(self.store), dyn=dict(self.I.dyn), cls=DATA)

    def after(self, name, *args):
        S = self.call(name, *args)
        st = S.returns.st
        return DataSet(self.ck, self.rank, self.both, self.problem, self.nature, (self.made, self.ok, dict(st.store), S.I))

    def get(self, name, *args):
        """value of a (reference to a) result"""
        r = self.call(name, *args)
        return self.read(r, r)

    @staticmethod
    def read(r, after):
        """the value of what a call returned, once another one is over"""
        def go(v):
            if not isinstance(v, LV):
                if v.op == "ite":
                    return ite(v.args[0], go(v.args[1]), go(v.args[2]))
                if v.op != "addr":
                    return v
                v = lv_of_addr(v)
            return go(after.I.get(after.returns.st.copy(), v))
        return go(r.ret)

    def at(self, name, *more):
        """a public accessor of one position as a function of the position"""
        v = self.get(name, sym("i"), *more)
        return lambda i: subst(v, {sym("i"): t_(i)})

    # the vectors given
    def given(self, which):
        """the inputs of a set as one flat list of data"""
        s = sym("ti" if which == "training" or not self.both else "ei")
        return flat(s) if self.rank == 3 else s

    def labels(self, which):
        return sym("tl" if which == "training" or not self.both else "el")

    @property
    def types(self):
        t = {"R": "int", "i": "int", "b": "int", "k": "int"}
        for n in self.names:
            t[n] = V3 if self.rank == 3 and n in ("ti", "ei") else V2
        return t

    def rules(self, consistent=True, max_n=6, min_n=1):
        """consistent: well formed data only (distinct values); otherwise small defects occur"""
        rank, names = self.rank, self.names

        def size(s):
            def f(e, m):
                r = e.rnd(s + "n")
                if s[0] == "t" or not self.both:
                    n = e.size("n", min_n, max_n)
                else:
                    n = e.size("m", 1, max_n)
                return n
            return f

        def lens(s):
            """lengths of the sequences of a set"""
            def f(e):
                r = e.rnd(s + "seqs")
                k = r.randint(1, 3)
                return [r.randint(1, 3) for _ in range(k)]
            return f

        def defect(e, what, p=.12):
            return not consistent and e.rnd("defect" + what).random() < p
        rs = [distinct(rank)] if consistent else []
        for s in ("ti", "ei"):
            if rank == 3:
                def nseq(e, m, s=s):
                    return 0 if defect(e, s + "none", .06) else len(lens(s)(e))

                def nin(e, m, s=s):
                    return 0 if defect(e, s + "seq0" + m.group(1), .06) else lens(s)(e)[int(m.group(1))]
                rs += [(s, nseq), (s + r"\[(\d+)\]", nin),
                       (s + r"\[\d+\]\[\d+\]", lambda e, m: e.size("dim", 1, 2) + (1 if defect(e, m.group(0), .05) else 0))]
            else:
                def n2(e, m, s=s):
                    return 0 if defect(e, s + "none", .06) else max(0, size(s)(e, m) + (e.rnd(s + "d").choice([-1, 1]) if defect(e, s) else 0))
                rs += [(s, n2), (s + r"\[\d+\]", lambda e, m: e.size("dim", 1, 2) + (1 if defect(e, m.group(0), .05) else 0))]
        for s in ("tl", "el"):
            def nl(e, m, s=s):
                n = sum(lens(s[0] + "i")(e)) if rank == 3 else size(s)(e, m)
                return 0 if defect(e, s + "none", .06) else max(0, n + (e.rnd(s + "d").choice([-1, 1]) if defect(e, s) else 0))
            rs += [(s, nl), (s + r"\[\d+\]", lambda e, m: (e.size("labels", 1, 3) if self.problem != "classification" or not consistent else e.size("labels", 2, 3))
                             + (1 if defect(e, m.group(0), .05) else 0))]
        if self.problem == "classification":
            # the label of a datum is the position of its only one
            def lab(e, m):
                return 1 if int(m.group(3)) == e.rnd("label", m.group(1), m.group(2)).randint(0, e.size("labels", 2, 3) - 1) else 0
            rs.append((r"(tl|el)\[(\d+)\]\[(\d+)\]", lab))
        rs.append((r"R", lambda e, m: e.rnd("R").choice([1, 1, 2, 2, 3]) if consistent else e.rnd("R").choice([-1, 0, 1, 1, 2, 3])))
        return rs


def flat(s):
    return vfold(length(s), [lst()], lambda j, acc: mk("concat", acc, s[j]))


def datasets(ck, f, problems=PROBLEMS, shuffles=(0,)):
    """f(data set, its name, shuffles so far) for every supported way to make a data set, and after some shuffles"""
    for both in (True, False):
        for problem in problems:
            for nature in NATURES:
                nm = "%s %s data (%s)" % (nature, problem, "training and testing given" if both else "one set")

                def one():
                    d = DataSet(ck, 3 if nature == "sequential" else 2, both, problem, nature)
                    for k in range(max(shuffles) + 1):
                        if k in shuffles:
                            f(d, nm + (" after %d shuffles" % k if k else ""), k)
                        if k < max(shuffles):
                            d = d.after("shuffle")
                ck.group(nm, one)


def distinct(rank):
    """rule: every given input datum is different from every other (scrambled, so that order does not show)"""
    def f(e, m):
        ix = [int(x) for x in re.findall(r"\d+", m.group(0))]
        ix = ([0] * (3 - len(ix)) if len(ix) < 3 else []) + ix
        code = ix[0] * 100 + ix[1] * 10 + ix[2] + (500 if m.group(1) == "ei" else 0)
        return Fraction((code * 389 + 77) % 1009 - 400, 8)
    return (r"(ti|ei)" + rank * r"\[\d+\]", f)


def same_vec(a, b):
    return TRUE if a is b else mk("eqv", a, b)
