"""Front end: build snn-extract if needed, extract every TU of the library, load the program."""
import hashlib, json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SNN_REPO", "/repo")
BUILD = os.environ.get("SNN_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18"
INCS = ["include/snn", "include/snn/data", "include/snn/neural_network", "include/snn/neural_network/layer",
        "include/snn/neural_network/layer/neuron", "include/snn/neural_network/layer/neuron/activation_function",
        "include/snn/neural_network/optimizer", "include/snn/tools", "include",
        "src/external_library/boost_1_80_0_minimal", "src/external_library/bitmap", "src/external_library/cpp-static-block"]


WITNESS = "tool/witness.cpp"


class AnalysisError(Exception):
    """the analysis itself could not run (vanished anchor, broken build): exit 2"""


def ensure_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "snn-extract-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    libs = [os.path.join(LLVM, "lib", "libclang-cpp.so.18.1"), os.path.join(LLVM, "lib", "libLLVM-18.so")]
    if not os.path.exists(libs[0]):
        import glob
        libs[0] = sorted(glob.glob(os.path.join(LLVM, "lib", "libclang-cpp.so*")))[0]
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp] + libs +
                       ["-Wl,-rpath," + LLVM + "/lib"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build snn-extract: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        if "external_library" in d:
            continue
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for top in ("src", "include"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            if "boost_1_80" in d:
                continue
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".tpp", ".h")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(open(p, "rb").read())
    for n in ("extract.cpp", "witness.cpp"):
        h.update(open(os.path.join(VERIF, "tool", n), "rb").read())
    h.update(REPO.encode())
    return h.hexdigest()[:20]


def extract_all():
    key = tree_hash()
    out = os.path.join(BUILD, "ast-" + key)
    done = os.path.join(out, "DONE")
    srcs = sources()
    if not srcs:
        raise AnalysisError("no sources under " + REPO)
    if not os.path.exists(done):
        exe = ensure_tool()
        # keep only one cached tree
        os.makedirs(BUILD, exist_ok=True)
        for n in os.listdir(BUILD):
            if n.startswith("ast-") and n != "ast-" + key:
                shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        rd = subprocess.run(["clang", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
        flags = ["-std=gnu++20", "-DNDEBUG", "-w", "-resource-dir", rd] + ["-I" + os.path.join(REPO, i) for i in INCS]

        def one(s):
            o = os.path.join(out, s.replace("/", "_") + ".json")
            path = os.path.join(REPO, s) if s != WITNESS else os.path.join(VERIF, s)
            r = subprocess.run([exe, "--root", REPO.rstrip("/") + "/", path, "-o", o + ".tmp", "--"] + flags,
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(o + ".tmp"):
                return s, r.stderr[-3000:]
            os.replace(o + ".tmp", o)
            return s, None
        # biggest (boost) units first
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, [WITNESS] + sorted(srcs, key=lambda s: "Straightforward" not in s)))
        bad = [(s, e) for s, e in res if e and s != WITNESS]
        if bad:
            raise AnalysisError("front end rejected %s: %s" % bad[0])
        open(done, "w").write("\n".join(srcs))
    files = [os.path.join(out, s.replace("/", "_") + ".json") for s in srcs + [WITNESS]]
    return [f for f in files if os.path.exists(f)], srcs


class Program:
    def __init__(self):
        files, self.units = extract_all()
        self.fns, self.recs, self.enums, self.vars, self.specs = {}, {}, {}, {}, []
        for f in files:
            d = json.load(open(f))
            for fn in d["fns"]:
                k = fn["key"]
                if fn.get("dep"):
                    k = "dep:" + k
                old = self.fns.get(k)
                if old is None or (old["file"].endswith("pp") and not old["file"].endswith(".cpp") and fn["file"].endswith(".cpp")):
                    self.fns[k] = fn
            for r in d["recs"]:
                self.recs.setdefault(r["q"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
            for v in d["vars"]:
                self.vars.setdefault(v["q"], v)
            self.specs += d["specs"]
        self._canon_fields()
        self.index()

    # -- anchors survive the renaming of one private field: map it back by (class, type)
    def _canon_fields(self):
        p = os.path.join(VERIF, "snnsa", "schema.json")
        self.renamed = {}
        if not os.path.exists(p):
            return
        base = json.load(open(p))
        ren = {}
        for q, fs in base.items():
            r = self.recs.get(q)
            if not r:
                continue
            cur = {f["n"]: f["t"] for f in r["fields"]}
            missing = [(n, t) for n, t in fs if n not in cur]
            new = [(n, t) for n, t in cur.items() if n not in dict(fs)]
            for n, t in missing:
                c = [m for m, u in new if u == t]
                if len(c) == 1 and len([1 for m, u in missing if u == t]) == 1:
                    ren[(q, c[0])] = n
        self.renamed = ren
        if not ren:
            return

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "mem" and (x.get("o"), x.get("f")) in ren:
                    x["f"] = ren[(x["o"], x["f"])]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for fn in self.fns.values():
            walk(fn)
            for i in fn.get("inits", []):
                if i.get("f") and (fn.get("cls"), i["f"]) in ren:
                    i["f"] = ren[(fn["cls"], i["f"])]
        for q, r in self.recs.items():
            for f in r["fields"]:
                walk(f.get("init"))
                f["n"] = ren.get((q, f["n"]), f["n"])

    def index(self):
        self.byq = {}
        for k, f in self.fns.items():
            if not f.get("dep"):
                self.byq.setdefault(f["q"], []).append(f)
        self.sub = {}
        for q, r in self.recs.items():
            for b in r["bases"]:
                self.sub.setdefault(b, set()).add(q)
        # overriding: method key -> keys of overriders (transitively)
        self.overriders = {}
        for q, r in self.recs.items():
            for m in r["methods"]:
                for o in m["ov"]:
                    self.overriders.setdefault(o, set()).add(m["key"])
        self.ftypes = {}
        for q, r in self.recs.items():
            for f in r["fields"]:
                self.ftypes.setdefault(q, {})[f["n"]] = f["t"]

    def bases(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            r = self.recs.get(x)
            if r:
                todo += r["bases"]
        return out

    def subclasses(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo += sorted(self.sub.get(x, ()))
        return out

    def concrete(self, q):
        return [c for c in self.subclasses(q) if c in self.recs and not self.recs[c]["abstract"] and not self.recs[c].get("dep")]

    def fields(self, q, inherited=True):
        out = []
        for c in (self.bases(q) if inherited else [q]):
            r = self.recs.get(c)
            if r:
                out += [dict(f, cls=c) for f in r["fields"]]
        return out

    def ftype(self, cls, f):
        for c in self.bases(cls):
            t = self.ftypes.get(c, {}).get(f)
            if t:
                return t
        return None

    def find(self, q, pred=None, must=True):
        """function by qualified name (unique after pred)"""
        c = [f for f in self.byq.get(q, []) if f.get("body") is not None or f.get("defaulted") or f.get("kind") == "ctor"]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            if must:
                raise AnalysisError("anchor vanished: no definition of %s" % q)
            return None
        return c[0]

    def method(self, cls, name, pred=None, must=True):
        """most-derived definition of name seen from cls"""
        for c in self.bases(cls):
            for f in self.byq.get(c + "::" + name, []):
                if f.get("body") is not None and (not pred or pred(f)):
                    return f
        if must:
            raise AnalysisError("anchor vanished: %s::%s" % (cls, name))
        return None

    def resolve(self, fnref, dyncls=None):
        """definition for a (possibly virtual) callee, given the dynamic class when known"""
        key = fnref["key"]
        if fnref.get("virt") and dyncls:
            # walk from dyncls upward looking for the overrider of key
            fam = {key}
            todo = [key]
            while todo:
                k = todo.pop()
                for o in self.overriders.get(k, ()):
                    if o not in fam:
                        fam.add(o)
                        todo.append(o)
            for c in self.bases(dyncls):
                r = self.recs.get(c)
                if not r:
                    continue
                for m in r["methods"]:
                    if m["key"] in fam:
                        return self.fns.get(m["key"])
            return self.fns.get(key)
        return self.fns.get(key)
