"""Members of every class the specifications are written against (run after a deliberate change of /repo)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "snnsa", "schema.json")
if os.path.exists(p):
    os.remove(p)
from snnsa.frontend import Program
P = Program()
json.dump({q: [[f["n"], f["t"]] for f in r["fields"]] for q, r in sorted(P.recs.items()) if q.startswith("snn::") and not r.get("dep")},
          open(p, "w"), indent=0)
