"""writes MANIFEST.json from the list of properties and of the check functions"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "TLA+ specification of the language's abstract machine; TLC enumerates programs which are replayed in the real code; traces recorded from the real code are validated by TLC"
NOTE = ("Exhaustive over all programs of the bounded alphabets, plus seeded programs validated as traces; invariants and action properties of the machine hold in all states visited. "
        "Trusts the unparser from program terms to scripts, the projection of observations (harness/probes.py) and TLC; outside of the bounds nothing is shown.")
notes = getattr(props, "NOTES", {})
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. Checks use public interfaces only: no hooks in /repo."}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if hasattr(props, p):
        q = notes.get(p, {})
        out["checks"].append({"property": p, "quick_cmd": "python3 harness/run_check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 harness/run_check.py " + p,
                              "technique": q.get("technique", CORE), "level": "model_checking", "level_note": q.get("note", NOTE)})
    else: out["not_applicable"].append({"property": p, "reason": "no check built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
