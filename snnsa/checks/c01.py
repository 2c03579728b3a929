"""C01: saving and loading a network loses nothing."""
from ..lib import *
from ..interp import Interp
from . import c23

# members a loaded object need not have from the file, and why
EXEMPT = {
    SNN: {"thread": "a loaded network is idle", "wantToStopTraining": "a loaded network is idle", "isIdle": "a loaded network is idle",
          "index": "position within an epoch or an evaluation"},
    NN: {"outputNan": "the record of a non-finite output belongs to the session"},
    NS + "binaryClassification": {"totalError": "cleared at the start of an evaluation", "totalSquaredError": "cleared at the start of an evaluation"},
    NS + "Neuron": {"outputFunction": "recomputed from the archived kind of activation"},
    NS + "Dropout": {"dist": "stateless distribution"},
    NS + "GatedRecurrentUnit": {"errors": "scratch, overwritten before use"},
    NS + "MaxPooling1D": {}, NS + "MaxPooling2D": {},
}
ROOTS = [SNN, NS + "BaseLayer", NS + "LayerOptimizer", NS + "NeuralNetworkOptimizer", NS + "Neuron", NS + "GatedRecurrentUnit",
         NS + "CircularData", NS + "binaryClassification", NN, NS + "StatisticAnalysis"]


def classes(P):
    out = []
    for r in ROOTS:
        for c in P.subclasses(r):
            for q in [c] + P.bases(c):
                if q in P.recs and not P.recs[q].get("dep") and q.startswith("snn::") and q not in out and not q.startswith("snn::internal::Layer<G") \
                        and "::NoNeuronLayer" not in q:
                    out.append(q)
    return [q for q in out if "<" not in q or "<snn::" in q]


def ar_of(f):
    return (f.get("pt") or [""])[0]


def serializers(P, q):
    fs = P.byq.get(q + "::serialize", [])
    out = [f for f in fs if "text_oarchive" in ar_of(f) or re.search(r"\boarchive|_oarchive", ar_of(f))]
    inn = [f for f in fs if "iarchive" in ar_of(f)]
    return (out[0] if out else None), (inn[0] if inn else None)


def known_fields(P, q):
    """own members, as far as the specification knows the class"""
    k = pit._schema(q)
    return [f["n"] for f in P.fields(q, False) if k is None or f["n"] in k]


def version_of(P, q):
    v = [s["value"] for s in P.specs if s["q"].endswith("serialization::version") and s.get("arg") == q and s.get("value") is not None]
    return int(v[0]) if v else 0


def persistent(P, q):
    return [f for f in known_fields(P, q) if f not in EXEMPT.get(q, {})]


def stateful(P, q):
    return any(persistent(P, b) for b in P.bases(q) if b in P.recs)


class Loaded:
    """loading k-th item"""

    def __init__(self, P):
        self.P, self.k, self.types = P, 0, []

    def __call__(self, I, l, v, st):
        k = self.k
        self.k += 1
        if v.op == "call" and v.args[0] == "base_object":
            base, ad = v.args[1].args[0], v.args[2]
            tgt = LV(ad.args[0], ad.args[1])
            for b in self.P.bases(base):
                for f in (known_fields(self.P, b) if b in self.P.recs else []):
                    I.set(st, tgt.f(f), mk("call", "loaded", num(k), string(f)))
            return
        if l is None:
            raise Skip("archive target is not a variable")
        I.set(st, l, mk("call", "loaded", num(k)))


def items(S):
    evs = [e for e in S.trace if e.name == "archive"]
    if any(e.binders for e in evs):
        raise Skip("archive operation in a loop")
    return evs


def roundtrip(ck, P, q):
    fo, fi = serializers(P, q)
    need = persistent(P, q)
    bases = [b for b in P.recs[q]["bases"] if b in P.recs and stateful(P, b)]
    if fo is None or fi is None:
        if need or len(bases) > 1:
            ck.rule("%s is archived in both directions" % q, False, "%s has persistent members (%s) but no serialize of its own" % (q, ", ".join(need)),
                    "%s:%s" % (P.recs[q].get("file", "?"), P.recs[q].get("line", "?")))
        return
    v = num(version_of(P, q))
    SO = ck.summary(fo, args=[LV("ar"), v])
    hook = Loaded(P)
    SI = ck.summary(fi, this="dst", args=[LV("ar"), v], on_archive=hook, cls=q)
    eo, ei = items(SO), items(SI)
    kinds = lambda es: [(e.args[4].args[1].args[0] + " (base)") if e.args[4].op == "call" and e.args[4].args[0] == "base_object" else e.args[1].args[0] for e in es]
    norm = lambda ks: [k.replace("unsigned long", "size_t") for k in ks]
    ck.rule("%s: both directions archive the same items in the same order" % q, norm(kinds(eo)) == norm(kinds(ei)),
            "saved %s, loaded %s" % (kinds(eo), kinds(ei)), SO.site)
    if len(eo) != len(ei):
        return
    reg = lambda S: [(e.name, e.args[0].args[0], show(e.guard)) for e in S.trace if e.name == "register_type"]
    ck.rule("%s: both directions register the same types in the same order" % q, reg(SO) == reg(SI), "%s vs %s" % (reg(SO), reg(SI)), SO.site)
    # what is loaded is what was saved
    m = {}
    for k, e in enumerate(eo):
        val = e.args[4]
        if val.op == "call" and val.args[0] == "base_object":
            ad = val.args[2]
            src = I_get(SO, ad)
            for b in P.bases(val.args[1].args[0]):
                for f in (known_fields(P, b) if b in P.recs else []):
                    m[mk("call", "loaded", num(k), string(f))] = fld(src, f)
        else:
            m[mk("call", "loaded", num(k))] = val
    kw = dict(types={"this": q, "dst": q, "ar": "boost::archive::text_oarchive"})
    for k, (a, b) in enumerate(zip(eo, ei)):
        g = subst(b.guard, m)
        if a.guard is not g:
            ck.equal("%s: item %d is loaded exactly when it was saved" % (q, k), g, a.guard, SI, **kw)
    dst = SI.this
    for f in need:
        ck.equal("%s: %s survives saving and loading" % (q, f), subst(fld(dst, f), m), THIS[f], SI, **kw)
    for b in bases:
        for c in P.bases(b):
            for f in (persistent(P, c) if c in P.recs else []):
                ck.equal("%s: inherited %s survives saving and loading" % (q, f), subst(fld(dst, f), m), THIS[f], SI, **kw)
    # saving changes nothing
    for f in need:
        ck.equal("%s: saving leaves %s alone" % (q, f), SO.this[f], THIS[f], SO, **kw)
    if q == NS + "Neuron":
        A = NS + "ActivationFunction"
        SA = ck.summary(P.find(A + "::get"), this=None, args=[THIS["activationFunction"]])
        ck.equal("a loaded neuron's activation is the one of its archived kind", subst(dst["outputFunction"], m), SA.ret, SI,
                 **dict(kw, rules=ACT_RULES))
    # polymorphic containers: every kind of element is registered before
    for k, e in enumerate(ei):
        mm = re.search(r"(?:unique_ptr|shared_ptr)<([\w:]+)", e.args[1].args[0])
        if mm:
            base = mm.group(1)
            pos = list(SI.trace).index(e)
            have = {x.args[0].args[0] for x in SI.trace[:pos] if x.name == "register_type" and x.guard is TRUE}
            have |= root_registered(ck, P, q)
            missing = [c for c in P.concrete(base) if c != base and c not in have and not exported(P, c)]
            ck.rule("%s: every kind of %s can be archived" % (q, base), not missing, "not registered before use: %s" % ", ".join(missing), SI.site)


ACT_RULES = [(r"this\.activationFunction", lambda e, m: e.rnd("act").randint(0, 6)),
             (r"G:snn::internal::ActivationFunction::activationFunctions", lambda e, m: 7)]


def exported(P, c):
    return any("guid" in s["q"] and s.get("arg") == c for s in P.specs)


_root = {}


def root_registered(ck, P, q):
    """types registered unconditionally before the layers are archived"""
    if q in (NN, SNN):
        return set()
    if "r" not in _root:
        fo, fi = serializers(P, NN)
        have = set()
        if fi:
            S = ck.summary(fi, args=[LV("ar"), num(version_of(P, NN))])
            for e in S.trace:
                if e.name == "archive" and "layers" in show(e.args[0], 6):
                    break
                if e.name == "register_type" and e.guard is TRUE:
                    have.add(e.args[0].args[0])
        _root["r"] = have
    return _root["r"]


def I_get(S, ad):
    return S.I.get(S.returns.st.copy(), LV(ad.args[0], ad.args[1]))


def stream_of(ar):
    """(stream class, path, mode) an archive was opened on"""
    if ar.op == "call" and ar.args[0].startswith("ctor:boost::archive") and len(ar.args) >= 2:
        s = ar.args[1]
        if s.op == "call" and re.match(r"ctor:std::basic_[io]?fstream", s.args[0]) and len(s.args) >= 3 and s.args[2].op == "num":
            return s.args[0], s.args[1], int(s.args[2].args[0]), ar.args[2] if len(ar.args) > 2 else ZERO
    raise Skip("archive not opened directly on a file")


APP, ATE, IN, OUT, TRUNC = 1, 2, 8, 16, 32


def written(S, path):
    """the file that holds, in the end, what was written to path"""
    for e in S.trace:
        if e.name == "file:rename" and e.args[0] is path:
            path = e.args[1]
    return path


def save_event(ck):
    P = ck.prog
    S = ck.summary(P.method(SNN, "saveSync"), args=[sym("path")])
    evs = [e for e in S.trace if e.name == "archive"]
    return S, evs


def files(ck):
    P = ck.prog
    S, evs = save_event(ck)
    kw = dict(types={"this": SNN, "path": "std::string"})
    ck.rule("saving archives the network exactly once", len(evs) == 1, "%d archive operations" % len(evs), S.site)
    L = ck.summary(P.find(SNN + "::loadFrom"), this=None, args=[sym("path")], on_archive=lambda I, l, v, st: I.set(st, l, sym("fromfile")))
    evl = [e for e in L.trace if e.name == "archive"]
    ck.rule("loading reads exactly one network", len(evl) == 1, "%d archive operations" % len(evl), L.site)
    if len(evs) == 1 and len(evl) == 1:
        e, l = evs[0], evl[0]
        ck.equal("it is saved unconditionally", e.guard, TRUE, S, **kw)
        ck.equal("and loaded unconditionally", l.guard, TRUE, L, **kw)
        ck.rule("what is archived is the network itself", e.args[4].op == "addr" and e.args[4].args[0] == "this" and not e.args[4].args[1], show(e.args[4]), S.site)
        ck.rule("saved and loaded through the same kind of object", e.args[1].args[0].replace("const ", "") == l.args[1].args[0].replace("const ", ""),
                "%s / %s" % (e.args[1], l.args[1]), L.site)
        cs, ps, ms, fs = stream_of(e.args[2])
        cl, pl, ml, fl = stream_of(l.args[2])
        ck.equal("the file written is the one asked for", written(S, ps), sym("path"), S, **kw)
        ck.equal("the file read is the one asked for", pl, sym("path"), L, **kw)
        ck.rule("a save replaces the file", ms & OUT and not ms & (APP | ATE) and (ms & TRUNC or not ms & IN), "open mode %d" % ms, S.site)
        ck.rule("a load reads the file from its beginning", ml & IN and not ml & (ATE | TRUNC), "open mode %d" % ml, L.site)
        ck.equal("same archive format flags", fs, fl, S, **kw)
        obj = L.get(LV(("H", sym("fromfile"))))
        kw = dict(types=dict(kw["types"], fromfile=SNN + " *"))
        for f, v in (("isIdle", TRUE), ("wantToStopTraining", FALSE)):
            ck.equal("the loaded network is idle [%s]" % f, fld(obj, f), v, L, **kw)
        base = deref(sym("fromfile"))
        for f in persistent(P, SNN) + persistent(P, NN):
            ck.equal("loading changes nothing else [%s]" % f, fld(obj, f), base[f], L, **kw)
        r = L.ret
        ck.rule("the loaded network is what is returned", "fromfile" in show(r, 6), show(r, 6), L.site)


def run(ck):
    P = ck.prog
    cs = classes(P)
    for q in cs:
        ck.group("archive of " + q, lambda: roundtrip(ck, P, q))
    ck.group("files", lambda: files(ck))
    ck.group("refusal", lambda: c23.saving(ck))
