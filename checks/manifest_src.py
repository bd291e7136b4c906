# python3 checks/manifest_src.py : rewrites MANIFEST.json from config.PROPS and properties.jsonl
import json, os, config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "symbolic execution of the real C++ sources (SAT-decided forking, symbolic specifications), oracle queries discharged by a SAT solver, counterexamples replayed on the real program"
NOTE = "Bounded: within the shapes listed in the evidence file every specification is covered; nothing is claimed beyond them. Trusts the model of libcudd's interface (sampled paths are replayed on the real program), the oracle's reference game semantics and MiniSat (assertion queries are cross-checked with a second solver)."
checks, na = [], []
for p in props:
    c = config.PROPS.get(p["id"])
    if not c: na.append({"property": p["id"], "reason": config.NA.get(p["id"], "not decided yet")}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s --tier thorough" % p["id"],
      "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", TECH), "level": c.get("level", "model_checking"), "level_note": c.get("note", NOTE)})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "notes": "No hooks: the checks compile transformed copies of /repo's sources (see DESIGN.md). Each check builds what it needs from /repo in a temporary folder."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
