"""C41: ownership: every object is destroyed completely and once, nothing is left pointing at a destroyed or moved object."""
import os
import subprocess
import tempfile
from ..data import *
from .. import effects as fx
from .. import frontend as fe

SMART = re.compile(r"^(?:const )?std::(unique_ptr|shared_ptr)<(.+?)(?:, .*)?>$")


def holders(t):
    """pointee types of the owning pointers inside a type"""
    return [(m.group(1), m.group(2).strip()) for m in re.finditer(r"std::(unique_ptr|shared_ptr)<\s*([\w:<> ]+?)\s*(?:,[^<>]*(?:<[^<>]*>)?)?>", t)]


def traits(asserts):
    """which of the compile-time facts (expression, name) are false for /repo's current headers"""
    src = '#include <type_traits>\n#include "neural_network/StraightforwardNeuralNetwork.hpp"\n#include "data/Data.hpp"\n' + \
          "".join('#include "%s"\n' % h for h in HEADERS if os.path.exists(os.path.join(fe.REPO, "include/snn", h))) + \
          "".join('static_assert(%s, "FACT%d");\n' % (e, i) for i, (e, _) in enumerate(asserts))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "facts.cpp")
        open(p, "w").write(src)
        r = subprocess.run(["clang++", "-std=gnu++20", "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-access-control", p] +
                           ["-I" + os.path.join(fe.REPO, i) for i in fe.INCS], capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if " error: " in l]
    false = set()
    for l in errs:
        m = re.search(r"static assertion failed.*\bFACT(\d+)", l)
        if not m:
            raise Skip("facts do not compile: " + l[:300])
        false.add(int(m.group(1)))
    return [asserts[i][0] for i in sorted(false)]


HEADERS = ["neural_network/layer/Convolution1D.hpp", "data/ProblemComposite.hpp", "data/TemporalComposite.hpp", "neural_network/optimizer/StochasticGradientDescent.hpp",
           "neural_network/optimizer/Dropout.hpp"]


def root(n, seen_deref=False):
    """the variable (or temporary) whose storage a returned reference or pointer lies in: ('var', node) / ('temp', node) / None"""
    k = n.get("k")
    if k == "ref":
        return "var", n
    if k in ("this", "deref"):
        return None
    if k == "mem":
        return None if n.get("ar") else root(n["b"])
    if k == "sub":
        b = n["b"]
        return root(b["a"]["e"] if "e" in b.get("a", {}) else b["a"]) if b.get("k") == "decay" and isinstance(b.get("a"), dict) else root(b) if "*" not in b.get("t", "*") else None
    if k in ("cast", "upcast", "paren"):
        return root(n.get("e") or n.get("a"))
    if k == "decay":
        a = n.get("a")
        return root(a.get("e", a) if isinstance(a, dict) else a)
    if k == "un":
        return None if n["op"] == "*" else root(n["e"]) if n["op"] == "&" else None
    if k == "mcall" and not n.get("fn", {}).get("repo"):
        rt = n.get("fn", {}).get("ret", "")
        if rt.rstrip().endswith(("&", "*")) and not SMART.match(n["obj"].get("t", "").replace("const ", "")):
            return root(n["obj"])
        if n.get("fn", {}).get("n") == "get" and "unique_ptr" in n["obj"].get("t", ""):
            return root(n["obj"])
        return None
    if k == "opcall" and n.get("op") == "[]":
        return root(n["a"][0])
    if k in ("ctor", "call") and not n.get("t", "").rstrip().endswith(("&", "*")) and not (n.get("fn", {}).get("ret", "").rstrip().endswith(("&", "*"))):
        return "temp", n
    return None


def run(ck):
    P = ck.prog

    def destructors():
        """types whose objects are destroyed through an owning pointer to a base"""
        owned = {}
        for q, r in P.recs.items():
            for f in r["fields"]:
                for kind, t in holders(f["t"]):
                    owned.setdefault((kind, t), "%s::%s" % (q, f["n"]))
        for fn in fx.functions(P):
            for kind, t in holders(fn.get("ret", "")):
                owned.setdefault((kind, t), fn["q"])
        serialized = lambda t: any("serialize" == f["n"] and f.get("cls") == t for f in P.fns.values())
        facts = []
        for (kind, t), where in sorted(owned.items()):
            if t not in P.recs or P.recs[t].get("dep") or len(P.subclasses(t)) < 2 and not [c for c in P.subclasses(t) if c != t]:
                continue
            if kind == "shared_ptr" and not serialized(t):
                continue  # a shared pointer remembers how to destroy what it was made for
            facts.append((t, where))
        false = traits([("std::has_virtual_destructor_v<%s>" % t, t) for t, _ in facts])
        for t, where in facts:
            ck.rule("what %s owns through %s is destroyed as what it is" % (where, t.split("::")[-1]), "std::has_virtual_destructor_v<%s>" % t not in false,
                    "%s is destroyed through a pointer to it (%s) and has no virtual destructor" % (t, where), "%s:%s" % (P.recs[t]["file"], P.recs[t]["line"]))
        ck.rule("classes owned through a base pointer enumerated", len(facts) > 2 or None, ", ".join(t for t, _ in facts))
    ck.group("destructors", destructors)

    def moves():
        """objects that others point into stay where they are"""
        D = P.recs[DATA]
        parts = set(P.subclasses(NS + "ProblemComposite")) | set(P.subclasses(NS + "TemporalComposite")) | {NS + "ProblemComposite", NS + "TemporalComposite"}
        points_in = any(f["t"].rstrip().endswith(("*", "&")) for q in parts if q in P.recs for f in P.recs[q]["fields"])
        if not points_in:
            ck.rule("nothing points into a data set", True, "no pointer member in the parts of Data")
        else:
            false = traits([("!std::is_copy_constructible_v<snn::Data>", 0), ("!std::is_move_constructible_v<snn::Data>", 0),
                            ("!std::is_copy_assignable_v<snn::Data>", 0), ("!std::is_move_assignable_v<snn::Data>", 0)])
            own = [m for m in D["methods"] if (m["n"] == "Data" and (m.get("copy") or m.get("move")) or m["n"] == "operator=") and not m.get("defaulted") and not m.get("deleted")]
            for w, what in (("copy_constructible", "copied"), ("move_constructible", "moved"), ("copy_assignable", "assigned"), ("move_assignable", "move-assigned")):
                bad = any(w in x for x in false)
                ck.rule("a data set, whose parts point into it, cannot be %s member by member" % what, (None if own else False) if bad else True,
                        "Data can be %s, and the copy's parts still point at the sets of the original" % what, "%s:%s" % (D["file"], D["line"]))
        net = P.recs[SNN]
        bad = [m for m in net["methods"] if (m.get("move") or m["n"] == "operator=") and m.get("defaulted") and not m.get("deleted") and not m.get("implicit")]
        ck.rule("a network, which its training thread points to, is never moved member by member", not bad, "defaulted %s" % [m["key"] for m in bad], "%s:%s" % (net["file"], net["line"]))
        for q in sorted(P.subclasses(NS + "BaseLayer")):
            if q not in P.recs or P.recs[q].get("dep"):
                continue
            bad = [m for m in P.recs[q]["methods"] if m.get("move") and m.get("defaulted") and not m.get("deleted")]
            ck.rule("a %s, which its optimizers point to, is never moved member by member" % q.split("::")[-1], not bad, "defaulted %s" % [m["key"] for m in bad],
                    "%s:%s" % (P.recs[q]["file"], P.recs[q]["line"]))
    ck.group("moves", moves)

    def composites():
        """the parts of a data set look at the data of that data set"""
        for problem in PROBLEMS:
            for nature in NATURES:
                for both in (False, True):
                    d = DataSet(ck, 3 if nature == "sequential" else 2, both, problem, nature)
                    if d.store is None:
                        continue
                    for part in ("problemComposite", "temporalComposite"):
                        p = d.store["this"][part]
                        o = d.made.deref(p)
                        got = o["sets"]
                        ok = None
                        if got.op == "addr":
                            ok = got.args[0] == "this" and len(got.args[1]) > 0 and got.args[1][0][1] == "sets"
                        elif got is NULL:
                            ok = False
                        ck.rule("%s %s %s: the %s of a data set looks at its own sets" % (problem, nature, "two sets" if both else "one set", part),
                                ok, "it looks at %s" % show(got, 6), d.made.site)
    ck.group("composites", composites)

    def gives_away(fn, var):
        """the pointer itself is handed on: to a call, the caller, another variable, or delete"""
        def strip(y):
            while y.get("k") in ("cast", "upcast", "paren"):
                y = y.get("e") or y.get("a")
            return y
        for part in fx.parts(fn):
            for x in fx.nodes(part):
                k = x.get("k")
                ops = x.get("a") if k in ("ctor", "mcall", "call") else [x.get("e")] if k in ("ret", "delete") else [x.get("b")] if k == "asg" else []
                if k == "decl":
                    ops = [v.get("init") for v in x["v"]]
                for y in ops or []:
                    if isinstance(y, dict):
                        y = strip(y)
                        if var in (y.get("n"), y.get("f")) and y.get("k") in ("ref", "mem"):
                            return True
        return False

    def allocations():
        n = 0
        for fn in fx.functions(P):
            for part in fx.parts(fn):
                for x, chain in fx.parents(part):
                    if x.get("k") != "new":
                        continue
                    n += 1
                    nm = "%s: what is allocated here has an owner" % fn["q"]
                    site = fx.site(fn, x)
                    ok, why = False, "a raw pointer to a new %s is never given to an owner" % x.get("at")
                    for a, role, _ in chain:
                        k = a.get("k")
                        if k in ("ctor", "mcall", "call", "opcall"):
                            t = " ".join(str(a.get(z, "")) for z in ("t",)) + str(a.get("fn", {}).get("cls", "")) + str(a.get("obj", {}).get("t", ""))
                            if "_ptr<" in t or k == "ctor" and "thread" in t:
                                ok = True
                            break
                        if k == "ret":
                            ok = None if fn.get("ret", "").rstrip().endswith(("*", "&")) else True
                            break
                        if k == "asg" or k is None and role == "init":
                            # kept in a variable: it must reach an owner, a delete or the caller somewhere
                            var = a.get("a", {}).get("n") or a.get("a", {}).get("f") if k == "asg" else a.get("n")
                            ok = None if gives_away(fn, var) else False
                            break
                    ck.rule(nm, ok, why, site)
        ck.rule("allocations enumerated", True, "%d new expressions" % n)
        for fn in fx.functions(P):
            for part in fx.parts(fn):
                for x, chain in fx.parents(part):
                    if x.get("k") == "mcall" and x.get("fn", {}).get("n") == "release" and "unique_ptr" in str(x.get("fn", {}).get("cls", "")):
                        used = bool(chain) and chain[0][0].get("k") not in ("block", None, "if", "for", "while")
                        ck.rule("%s: a released object gets another owner" % fn["q"], None if used else False, "the released pointer is dropped", fx.site(fn, x))
    ck.group("allocations", allocations)

    def dangling():
        n = 0
        for fn in fx.functions(P):
            rt = fn.get("ret", "").rstrip()
            if not rt.endswith(("&", "*")) or fn.get("body") is None:
                continue
            n += 1
            local = {}
            for part in fx.parts(fn):
                for x in fx.nodes(part):
                    if x.get("k") == "decl":
                        for v in x["v"]:
                            local[v.get("d")] = v
            params = {p.get("d"): p for p in fn["params"]}
            bad = None
            for part in fx.parts(fn):
                for x in fx.nodes(part):
                    if x.get("k") != "ret" or not x.get("e"):
                        continue
                    r = root(x["e"]) if rt.endswith("&") or x["e"].get("k") in ("un", "mcall", "decay", "cast") else None
                    if r is None:
                        continue
                    if r[0] == "temp":
                        bad = bad or (x, "a reference to a temporary")
                        continue
                    d = r[1].get("d")
                    v = local.get(d) or params.get(d)
                    if v is not None and not v.get("static") and not v["t"].rstrip().endswith(("&", "*")):
                        bad = bad or (x, "a reference to the local %s" % v["n"])
            ck.rule("%s returns no reference to something that ends with the call" % fn["q"], not bad, bad[1] if bad else "", fx.site(fn, bad[0]) if bad else "")
        ck.rule("functions that return references or pointers", n > 5, "%d" % n)
    ck.group("returned references", dangling)
