"""Write MANIFEST.json from checks/registry.json and the not-applicable list."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(f"{ROOT}/checks/registry.json"))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
NA = {}
PENDING = "check not built yet"
NOTES = json.load(open(f"{ROOT}/checks/notes.json")) if os.path.exists(f"{ROOT}/checks/notes.json") else {}
T = "bounded symbolic execution of the real Python code with z3 (path-exhaustive, counterexamples replayed)"
L = ("Every path explored is decided for all symbolic values (angles, domains, outcomes, amplitudes) within the bounds printed "
     "in the evidence; nothing is claimed beyond them. Trusts z3, the reference semantics in symx/sem.py and exact-real angles.")
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo. Known findings: known_findings.txt. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in reg:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./run_check.py {i} --tier quick",
            "thorough_cmd": f"./run_check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": NOTES.get(i, {}).get("technique", T),
            "level": "other",
            "level_note": NOTES.get(i, {}).get("level_note", L),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
