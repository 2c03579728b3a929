"""Obligations, verdicts, evidence."""
import json, os, re, sys, time, traceback
from .frontend import Program, AnalysisError, VERIF, REPO
from .interp import Interp, LV, State, Event, Unsupported, Dead, lazy, initial_root, lv_of_addr
from .terms import *
from . import terms as tm
from . import pit
from .dsl import *

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


class Skip(Exception):
    """an obligation cannot be stated on this tree: undecided"""


class Summary:
    """what one function does: outcomes, final memory, trace of opaque effects"""

    def __init__(self, ck, fn, this, args, I, outs):
        self.ck, self.fn, self.this_lv, self.args, self.I, self.outs = ck, fn, this, args, I, outs
        self.site = "%s:%s %s" % (fn["file"].replace(REPO + "/", ""), fn.get("line", fn.get("l", "?")), fn["q"])

    @property
    def notes(self):
        return self.I.notes

    def out(self, kind="ret"):
        c = [o for o in self.outs if o.kind == kind]
        if not c:
            return None
        if len(c) > 1:
            raise Skip("several %s outcomes" % kind)
        return c[0]

    @property
    def returns(self):
        o = self.out()
        if o is None:
            raise Skip("no normal return")
        return o

    @property
    def ret(self):
        v = self.returns.val
        return v

    @property
    def ret_cond(self):
        """condition under which the function returns normally"""
        o = self.out()
        return band(*o.st.pc) if o is not None else FALSE

    @property
    def throw_cond(self):
        return bor(*[band(*o.st.pc) for o in self.outs if o.kind == "throw"])

    def final(self, root, kind="ret"):
        o = self.out(kind)
        return o.st.store.get(root, initial_root(root)) if o else None

    @property
    def this(self):
        return self.I.get(self.returns.st.copy(), self.this_lv)

    @property
    def trace(self):
        return self.returns.st.trace

    def roots(self):
        return [r for r in self.returns.st.store if lazy(r)]

    def get(self, lv):
        return self.I.get(self.returns.st.copy(), lv)

    def deref(self, p):
        st = self.returns.st.copy()
        return self.I.get(st, self.I.deref(st, p))


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.prog = program()
        self.n = 24 if tier == "quick" else 160
        self.results = []
        self.functions = {}
        self.assumptions = []
        self.technique = ""
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = {}
        if os.path.exists(kf):
            for k in json.load(open(kf)).get("findings", []):
                if k["property"] == pid:
                    self.known[k["id"]] = k
        self.hit_known = {}
        self.notes = []

    # ------------------------------------------------------------ analysis
    def interp(self, policy=None, dyn=None):
        return Interp(self.prog, policy, dyn)

    def summary(self, fn, this="this", args=(), policy=None, dyn=None, pre=(), store=None, cls=None, trace=(), on_archive=None):
        I = Interp(self.prog, policy, dict(dyn or {}))
        I.on_archive = on_archive
        if isinstance(fn, str):
            fn = self.prog.find(fn)
        thislv = LV(this) if isinstance(this, str) else this
        st = State(dict(store or {}), tuple(pre), tuple(trace))
        if cls and thislv is not None and not thislv.path:
            I.dyn.setdefault(thislv.root, cls)
        outs = I.run(fn, thislv, list(args), st, cls=cls)
        for k, f in I.visited.items():
            self.functions[f.get("q", k)] = "%s:%s" % (str(f.get("file", "?")).replace(REPO + "/", ""), f.get("line", "?"))
        return Summary(self, fn, thislv, args, I, outs)

    def saw(self, keys):
        for k in keys:
            f = self.prog.fns[k]
            self.functions[f.get("q", k)] = "%s:%s" % (str(f.get("file", "?")).replace(REPO + "/", ""), f.get("line", "?"))

    # ------------------------------------------------------------ obligations
    def record(self, name, verdict, detail="", site="", **kw):
        d = dict(obligation=name, verdict=verdict, site=site)
        if detail:
            d["detail"] = detail
        d.update(kw)
        self.results.append(d)

    def group(self, name, f):
        """run f; an obligation that cannot be stated/evaluated is undecided"""
        try:
            f()
        except Skip as e:
            self.record(name, "undecided", str(e))
        except (Unsupported, Dead) as e:
            self.record(name, "undecided", "unsupported construct: %s" % e)
        except AnalysisError as e:
            self.record(name, "undecided", str(e))
        except RecursionError:
            self.record(name, "undecided", "term too deep")
        except Exception as e:
            self.record(name, "undecided", "internal: %s: %s" % (type(e).__name__, e))
            if os.environ.get("SNN_DEBUG"):
                traceback.print_exc()

    def needs(self, cls, *fields):
        """obligations stated on these members of a class: undecided on a tree that represents the class otherwise"""
        have = {f["n"] for f in self.prog.fields(cls)}
        gone = [f for f in fields if f not in have]
        if gone:
            raise Skip("%s has no member %s" % (cls, ", ".join(gone)))

    def rule(self, name, ok, msg="", site="", known=None):
        """a structural rule: ok True / False / None (undecided)"""
        if ok is None:
            self.record(name, "undecided", msg, site)
        elif ok:
            self.record(name, "discharged", "rule", site)
        elif known and known in self.known:
            self.hit_known.setdefault(known, []).append(name)
            self.record(name, "known-finding", msg, site, finding=known)
        else:
            self.record(name, "violation", msg, site)

    def equal(self, name, got, spec, S=None, site="", known=(), types=None, rules=(), calltypes=None, dyn=None, pre=None, n=None):
        site = site or (S.site if S is not None else "")
        ct = dict(S.I.calltypes) if S is not None else {}
        ct.update(calltypes or {})
        verdict, detail = pit.compare(self.prog, got, spec, types=types, rules=rules, calltypes=ct, dyn=dyn,
                                      n=n or self.n, pre=pre, name=name, seed0=self.seed)
        if verdict == "identical" or verdict == "agree":
            self.record(name, "discharged", verdict + ": " + str(detail), site)
            return True
        if verdict == "undecided":
            nts = "; ".join(S.notes[:4]) if S is not None else ""
            self.record(name, "undecided", "%s %s" % (detail, nts), site)
            return None
        for fid, alt in known:
            if fid in self.known:
                v2, d2 = pit.compare(self.prog, got, alt, types=types, rules=rules, calltypes=ct, dyn=dyn,
                                     n=n or self.n, pre=pre, name=name, seed0=self.seed)
                if v2 in ("identical", "agree"):
                    self.hit_known.setdefault(fid, []).append(name)
                    self.record(name, "known-finding", detail, site, finding=fid)
                    return True
        self.record(name, "violation", detail, site, derived=show(got, 12)[:3000], specified=show(spec, 12)[:3000])
        return False

    def trace(self, name, S, spec, view=None, events=None, known=(), types=None, rules=(), calltypes=None, dyn=None, pre=None, n=None, gview=None, order=None):
        """the ordered sequence of (opaque) effects equals the specified one"""
        got = S.trace if events is None else events
        ct = dict(S.I.calltypes)
        ct.update(calltypes or {})

        def cmp(sp):
            return pit.compare_traces(self.prog, list(got), list(sp), types=types, rules=rules, calltypes=ct, dyn=dyn,
                                      n=n or self.n, pre=pre, name=name, seed0=self.seed, view=view, gview=gview, order=order)
        v, d = cmp(spec)
        if v == "agree":
            self.record(name, "discharged", "effect sequence agrees: %s" % d, S.site)
            return True
        if v == "undecided":
            self.record(name, "undecided", "%s %s" % (d, "; ".join(S.notes[:4])), S.site)
            return None
        for fid, alt in known:
            if fid in self.known and cmp(alt)[0] == "agree":
                self.hit_known.setdefault(fid, []).append(name)
                self.record(name, "known-finding", d, S.site, finding=fid)
                return True
        self.record(name, "violation", d, S.site, derived=[repr(e)[:400] for e in got][:20])
        return False

    def frame(self, name, S, spec, transient=None, known=(), canon=None, **kw):
        """the complete effect of a function: every pre-existing object it may have changed.
        spec: {root: term}; transient: {root: [fields]} scratch state left unspecified"""
        o = S.returns
        transient = transient or {}
        roots = [r for r in o.st.store if lazy(r)]
        for r in spec:
            if r not in roots:
                roots.append(r)
        ok = True
        for r in roots:
            got = o.st.store.get(r, initial_root(r))
            want = spec.get(r, initial_root(r))
            if got is want:
                self.record("%s [%s]" % (name, rname(r)), "discharged", "identical: normal forms coincide", S.site)
                continue
            tr = transient.get(r, ())
            if canon:
                got, want = canon(got), canon(want)
            alts = []
            for fid, alt in known:
                alt = alt.get(r, want) if isinstance(alt, dict) else alt
                alts.append((fid, canon(alt) if canon else alt))
            for f in tr:
                base = initial_root(r)
                got = setp(got, f, base)
                want = setp(want, f, base)
                alts = [(i, setp(a, f, base)) for i, a in alts]
            # split per field for precise sites
            gf = set(dict(got.args[1])) if got.op == "obj" else set()
            wf = set(dict(want.args[1])) if want.op == "obj" else set()
            same_base = (got.args[0] if got.op == "obj" else got) is (want.args[0] if want.op == "obj" else want)
            if same_base and (gf or wf):
                for f in sorted(gf | wf):
                    x = self.equal("%s [%s.%s]" % (name, rname(r), f), fld(got, f), fld(want, f), S,
                                   known=[(i, fld(a, f)) for i, a in alts], **kw)
                    ok = ok and x
            else:
                x = self.equal("%s [%s]" % (name, rname(r)), got, want, S, known=alts, **kw)
                ok = ok and x
        return ok

    def no_throw(self, name, S, **kw):
        self.equal(name, S.throw_cond, FALSE, S, **kw)

    # ------------------------------------------------------------ verdict
    def finish(self):
        viol = [r for r in self.results if r["verdict"] == "violation"]
        disc = [r for r in self.results if r["verdict"] == "discharged"]
        und = [r for r in self.results if r["verdict"] == "undecided"]
        kn = [r for r in self.results if r["verdict"] == "known-finding"]
        ident = [r for r in disc if str(r.get("detail", "")).startswith(("identical", "rule"))]
        wall = time.time() - self.t0
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other",
                  coverage=dict(
                      explanation="Static value-flow analysis of the clang AST of the current /repo tree: %d obligations over %d functions; "
                                  "%d discharged (%d by identical normal forms or syntactic rule, %d by random interpretation of the two closed forms), "
                                  "%d undecided, %d known findings, %d violated."
                                  % (len(self.results), len(self.functions), len(disc), len(ident), len(disc) - len(ident), len(und), len(kn), len(viol)),
                      obligations=len(self.results), discharged=len(disc), undecided=len(und), known_findings=len(kn),
                      functions_analysed=dict(sorted(self.functions.items())),
                      translation_units=len(self.prog.units),
                      results=self.results),
                  assumptions=self.assumptions + COMMON_ASSUMPTIONS,
                  wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(p, "w"), indent=1, default=str)
        for fid, names in sorted(self.hit_known.items()):
            k = self.known[fid]
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, fid, k["what"]))
        print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d functions; %.1fs"
              % (self.pid, len(self.results), len(disc), len(und), len(kn), len(viol), len(self.functions), wall))
        for r in und:
            print("  undecided: %s -- %s" % (r["obligation"], str(r.get("detail", ""))[:300]))
        if viol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            json.dump(viol, open(rp, "w"), indent=1, default=str)
            for r in viol:
                print("  violated: %s at %s: %s" % (r["obligation"], r["site"], json.dumps(r.get("detail", ""), default=str)[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not disc and not kn:
            print("%s: no obligation could be decided on this tree" % self.pid)
            return 2
        return 0


COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic (rounding is not modelled); NaN/infinity only where a property names them",
    "the C++ standard library behaves as specified; clang 18 parses the sources with the flags of the project's build (minus optimisation)",
    "distinct library objects do not alias unless one owns the other; no undefined behaviour elsewhere in the process",
]


def rname(r):
    return r if isinstance(r, str) else "*" + show(r[1], 5)


def setp(o, path, base):
    """reset field path of o to its value in base"""
    ps = path.split(".")
    if len(ps) == 1:
        return setf(o, ps[0], fld(base, ps[0]))
    return setf(o, ps[0], setp(fld(o, ps[0]), ".".join(ps[1:]), fld(base, ps[0])))
