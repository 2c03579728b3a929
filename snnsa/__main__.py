import importlib, os, sys
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from .frontend import AnalysisError
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a and a[0] == "setup":
        from .check import program
        program()
        return 0
    rc = 0
    from .check import Check
    ids = a
    if a == ["all"]:
        d = os.path.join(os.path.dirname(__file__), "checks")
        ids = sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("c") and f[1:-3].isdigit())
    for pid in ids:
        try:
            m = importlib.import_module("snnsa.checks." + pid.lower())
            ck = Check(pid, tier, seed)
            m.run(ck)
            r = ck.finish()
        except AnalysisError as e:
            print("%s: analysis error: %s" % (pid, e))
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc


box = []
t = threading.Thread(target=lambda: box.append(main()))
t.start()
t.join()
sys.stdout.flush()
os._exit(box[0] if box else 2)
