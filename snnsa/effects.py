"""Call graph and storage effects over the type-checked program."""
import re

READ_ACCESS = {"operator[]", "at", "begin", "end", "data", "front", "back", "find", "get", "operator*", "operator->", "rbegin", "rend", "value", "top"}


def nodes(x):
    """every node below x, in source order"""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def parts(fn):
    return [fn.get("body")] + [i.get("e") for i in fn.get("inits", [])] + [p.get("def") for p in fn.get("params", [])]


def site(fn, n=None):
    return "%s:%s %s" % (fn["file"], (n or {}).get("l", fn.get("line", "?")), fn["q"])


def functions(P):
    return [f for f in P.fns.values() if not f.get("dep")]


class CallGraph:
    """functions of the repository; virtual calls go to every overrider, constructors and their members' initialisers included"""

    def __init__(self, P):
        self.P = P
        self.out = {}

    def targets(self, fr):
        k = fr["key"]
        ks = {k}
        if fr.get("virt"):
            todo = [k]
            while todo:
                for o in self.P.overriders.get(todo.pop(), ()):
                    if o not in ks:
                        ks.add(o)
                        todo.append(o)
        return ks

    def callees(self, fn):
        k = fn["key"]
        if k not in self.out:
            r = []
            for part in parts(fn):
                for n in nodes(part):
                    fr = n.get("fn") if n.get("k") in ("call", "mcall", "opcall", "ctor", "fnref", "memfn") else None
                    if fr:
                        # a qualified call is not dispatched
                        for t in ({fr["key"]} if n.get("qual") else self.targets(fr)):
                            if t in self.P.fns:
                                r.append((t, n.get("l")))
                        # make_unique<T> and the like construct T
                        for t in self.built(fr, n.get("a") or []):
                            r.append((t, n.get("l")))
            if fn.get("kind") == "ctor":
                for f in self.P.recs.get(fn.get("cls"), {}).get("fields", []):
                    for n in nodes(f.get("init")):
                        fr = n.get("fn")
                        if fr and fr["key"] in self.P.fns:
                            r.append((fr["key"], n.get("l")))
            self.out[k] = list(dict.fromkeys(r))
        return self.out[k]

    def built(self, fr, args):
        if fr["n"] not in ("make_unique", "make_shared", "emplace_back", "emplace", "construct_at"):
            return []
        t = (fr.get("targs") or [""])[0]
        if fr["n"].startswith("emplace"):
            m = re.match(r"std::vector<(.*?)(?:, std::allocator.*)?>$", fr.get("cls", ""))
            t = m.group(1) if m else ""
        # the constructors that take so many arguments, those that name the arguments' classes first
        cs = [f for f in self.P.byq.get(t + "::" + t.split("::")[-1].split("<")[0], []) if f.get("kind") == "ctor"
              and len(f["params"]) >= len(args) and all(p.get("def") for p in f["params"][len(args):])]

        def base(x):
            return re.sub(r"\bconst\b|[&* ]", "", x)

        def score(f):
            return sum(base(p["t"]) == base((a or {}).get("t", "")) for p, a in zip(f["params"], args))
        top = max([score(f) for f in cs], default=0)
        return [f["key"] for f in cs if score(f) == top]

    def reach(self, roots, stop=()):
        """{function key: path of keys from a root}"""
        seen = {}
        todo = [(r["key"], (r["key"],)) for r in roots]
        while todo:
            k, path = todo.pop(0)
            if k in seen or k in stop:
                continue
            seen[k] = path
            for t, _ in self.callees(self.P.fns[k]):
                if t not in seen:
                    todo.append((t, path + (t,)))
        return seen


def parents(x, up=None, acc=None):
    """[(node, chain of (ancestor, role))] innermost ancestor first"""
    acc = [] if acc is None else acc

    def go(y, chain):
        if isinstance(y, dict):
            acc.append((y, chain))
            for r, v in y.items():
                if isinstance(v, dict):
                    go(v, ((y, r, None),) + chain)
                elif isinstance(v, list):
                    for i, w in enumerate(v):
                        go(w, ((y, r, i),) + chain)
        elif isinstance(y, list):
            for w in y:
                go(w, chain)
    go(x, ())
    return acc


def nonconst_ref(t):
    t = t.rstrip()
    return t.endswith(("&", "&&")) and not re.match(r"const\b", t)


def use(chain):
    """what happens to the object a reference denotes: 'read', 'write', 'escape' (with the node)"""
    for i, (n, role, ix) in enumerate(chain):
        k = n.get("k")
        if k in ("asg", "casg"):
            return ("write", n) if role == "a" else ("read", n)
        if k == "un":
            if n["op"] in ("++", "--"):
                return "write", n
            if n["op"] == "&":
                return "escape", n
            if n["op"] == "*":
                return "read", n
            return "read", n
        if k == "mem" and role == "b":
            if n.get("ar"):
                return "read", n
            continue
        if k == "sub":
            if role == "b":
                return "read", n
            continue
        if k in ("decay", "upcast"):
            continue
        if k == "mcall":
            if role == "obj":
                fr = n.get("fn", {})
                if fr.get("const") or fr.get("static"):
                    return "read", n
                if fr.get("n") in READ_ACCESS and not fr.get("repo"):
                    if fr["n"] in ("begin", "end", "data", "find", "rbegin", "rend"):
                        return "read", n
                    if n.get("ar") or fr["n"] in ("get", "operator->"):
                        return "read", n
                    continue
                return "write", n
            if role == "a":
                pt = n.get("fn", {}).get("pt", [])
                return ("write" if ix is not None and ix < len(pt) and nonconst_ref(pt[ix]) and not moved(pt[ix]) else "read"), n
            return "read", n
        if k == "opcall":
            fr = n.get("fn", {})
            op = n.get("op")
            if role == "a" and ix == 0 and fr.get("cls"):
                if fr.get("const"):
                    return "read", n
                if op in ("[]", "*"):
                    continue
                if op == "->":
                    return "read", n
                return "write", n
            pt = fr.get("pt", [])
            j = (ix or 0) - (1 if fr.get("cls") else 0)
            return ("write" if role == "a" and 0 <= j < len(pt) and nonconst_ref(pt[j]) else "read"), n
        if k in ("call", "ctor"):
            if role != "a":
                return "read", n
            fr = n.get("fn", {})
            if fr.get("n") in ("as_const", "cref", "size", "begin", "end", "ssize", "empty", "data"):
                return "read", n
            if fr.get("n") in ("move", "forward", "ref"):
                return ("write" if fr["n"] != "forward" else "escape"), n
            pt = fr.get("pt", [])
            return ("write" if ix is not None and ix < len(pt) and nonconst_ref(pt[ix]) else "read"), n
        if k == "rfor" and role == "r":
            t = n["v"]["t"]
            return ("escape" if nonconst_ref(t) else "read"), n
        if k is None and role == "init":  # a variable
            return ("escape" if nonconst_ref(n.get("t", "")) else "read"), n
        if k in ("cond",):
            if role == "c":
                return "read", n
            continue
        if k == "ret":
            return "escape", n
        return "read", n
    return "read", None


def moved(t):
    return t.rstrip().endswith("&&")


def storage(P):
    """every variable with static storage: (name, declaration, function or None)"""
    out = [(q, v, None) for q, v in P.vars.items()]
    for f in functions(P):
        for part in parts(f):
            for n in nodes(part):
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if v.get("static"):
                            out.append(("%s (in %s)" % (v["n"], f["q"]), v, f))
    return out


def immutable(v):
    t = v["t"].strip()
    return bool(v.get("const") or v.get("tls") or re.match(r"const\b[^*]*&?$", t) or re.search(r"\*\s*const$", t)
                or re.match(r"std::(atomic|mutex|shared_mutex|recursive_mutex|once_flag|timed_mutex)\b", t))


def accesses(P, q, v, fn):
    """uses of a variable with static storage in the functions of the program"""
    for f in ([fn] if fn else functions(P)):
        for part in parts(f):
            for n, chain in parents(part):
                if n.get("k") == "ref" and (n.get("d") == v.get("d") and n.get("sl") if fn else n.get("g") == q):
                    u, at = use(chain)
                    yield u, f, n
    if not fn:
        # what is private to a thread is initialised in every thread
        for w in P.vars.values():
            if w.get("tls"):
                for n, chain in parents(w.get("init")):
                    if n.get("k") == "ref" and n.get("g") == q:
                        u, at = use(chain)
                        yield u, dict(w, q=w["q"]), n
