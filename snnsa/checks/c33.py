"""C33: a crash while saving never destroys the previous save."""
from ..lib import *
from . import c27
from .c01 import OUT, IN

WRITES = {"file:open"}
DAMAGE = {"file:remove": 0, "file:remove_all": 0, "file:copy_file": 1, "file:copy": 1, "file:resize_file": 0, "file:truncate": 0, "file:unlink": 0}


def writes(e):
    return e.name == "file:open" and len(e.args) > 2 and e.args[2].op == "num" and int(e.args[2].args[0]) & OUT


def run(ck):
    P = ck.prog

    def entry(nm, S, target, **kw):
        tr = list(S.trace)
        saves = [i for i, e in enumerate(tr) if e.name == "archive"]
        if len(saves) != 1:
            raise Skip("%d archive operations" % len(saves))
        a = tr[saves[0]]
        opens = [i for i, e in enumerate(tr) if writes(e)]
        if len(opens) != 1 or a.args[2].op != "call" or len(a.args[2].args) < 2:
            raise Skip("the archive is not written directly to one file")
        o = tr[opens[0]]
        src = o.args[1]
        if tr[opens[0]].name != "file:open" or show(a.args[2].args[1], 8).find(show(src, 6)) < 0:
            raise Skip("the file written could not be told")
        same = eq_
        ck.equal("%s: the previous save is not opened for writing" % nm, and_(o.guard, same(src, target)), FALSE, S, **kw)
        for i, e in enumerate(tr):
            if e.name in DAMAGE and len(e.args) > DAMAGE[e.name]:
                ck.equal("%s: nothing removes, truncates or overwrites the previous save (%s)" % (nm, e.name), and_(e.guard, same(e.args[DAMAGE[e.name]], target)), FALSE, S, **kw)
        rens = [i for i, e in enumerate(tr) if e.name == "file:rename" and len(e.args) >= 2]
        if not rens:
            if src is target:
                return
            ck.rule("%s: the complete new save takes the place of the previous one in one step" % nm, False, "written to %s and never renamed" % show(src, 4), S.site)
            return
        ck.equal("%s: the complete new save takes the place of the previous one in one step" % nm,
                 or_(*[and_(tr[i].guard, same(tr[i].args[0], src), same(tr[i].args[1], target)) for i in rens]), a.guard, S, **kw)
        # every byte has been handed over before: the archive and its stream are complete
        closed = [i for i, e in enumerate(tr) if e.name == "file:close" and e.args[0] is o.args[0]]
        ck.rule("%s: the new save is complete when it takes the place of the previous one" % nm,
                bool(closed) and saves[0] < min(closed) < min(rens), "rename before the stream is closed", S.site)
        arch = [i for i, e in enumerate(tr) if e.name == "file:close" and e.args[0] is not o.args[0]]
        ck.rule("%s: the archive is complete when the new save takes the place of the previous one" % nm,
                None if not arch else saves[0] < min(arch) < min(rens), "the archive is still open", S.site)

    def save_as():
        S = ck.summary(P.method(SNN, "saveAs"), args=[sym("path")])
        entry("saveAs", S, sym("path"), types={"this": SNN, "path": "std::string"})
    ck.group("saveAs", save_as)

    def auto():
        def pol(fn, d, this, args, st, I):
            if fn["q"].endswith("::saveSync"):
                return "inline"
            return c27.OPAQUE(fn, d, this, args, st, I)
        S = ck.summary(P.method(SNN, "evaluate", lambda f: nparams(f) == 2), args=[LV("data"), sym("wait")], policy=pol)
        k = c27.loop_kw()
        k["types"] = dict(k["types"], wait="snn::Wait *")
        k["rules"] = [(r"CALL:snn::internal::NeuralNetwork::hasNan", lambda e, a: e.rnd("n", str(e.freeze(a[0]))).random() < .05)] + k["rules"]
        entry("auto-save", S, THIS["autoSaveFilePath"], **k)
    ck.group("auto-save", auto)
