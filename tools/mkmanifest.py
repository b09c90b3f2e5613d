"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness/props/%s.py" % i.lower())):
        m = importlib.import_module("harness.props." + i.lower())
        s = m.spec("quick")
        mods = sorted({x["module"] for x in s.get("models", [])} | {x["module"] for x in s["gens"]})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "TLA+/TLC: model checking of %s; TLC-generated behaviours replayed into the real code; traces validated by TLC against %s" % (", ".join(mods), m.MONITOR),
            "level": "model_checking",
            "level_note": getattr(m, "NOTE", "exhaustive within the model constants; conformance of the code on every generated behaviour"),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "One entry point: check.py. See DESIGN.md. No hooks in /repo are needed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
