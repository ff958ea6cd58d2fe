"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py and the check modules."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))

props = []
for f in sorted(glob.glob(os.path.join(V, "tools", "props_*.py"))):
    props += importlib.import_module(os.path.basename(f)[:-3]).P
props.sort(key=lambda d: d["id"])
assert len({d["id"] for d in props}) == len(props)
checks, na = [], []
for d in props:
    assert len(d["title"]) <= 80, d["title"]
    mod = os.path.join(V, "checks", d["id"].lower() + ".py")
    assert os.path.exists(mod), mod
    src = open(mod).read()
    ns = {}
    # NOTE / TECHNIQUE are literal assignments
    import ast

    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("NOTE", "TECHNIQUE"):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(
        {
            "property": d["id"],
            "quick_cmd": "./run.sh %s quick" % d["id"],
            "thorough_cmd": "./run.sh %s thorough" % d["id"],
            "technique": ns.get("TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
            "level": "exploration",
            "level_note": ns.get(
                "NOTE",
                "Seeded random search with shrinking; no exhaustiveness. Trusts pytket, the reference simulator in lib/refsim.py and the bounded generators (1-4 qubits).",
            ),
        }
    )
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in props:
        f.write(json.dumps(d) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./run.sh --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks drive /repo's working tree (imported as source) from outside. run.sh CXX quick|thorough; run.sh CXX --replay FILE replays a counterexample.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties")
