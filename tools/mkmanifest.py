#!/opt/venv/bin/python
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, "/repo"]
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists(V + "/vp/%s.py" % p.lower()):
        m = importlib.import_module("vp." + p.lower())
        checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification %s checked with TLC%s; observations recorded from the real code judged by TLC against it" % (
                           m.TRACE + ".tla", (" (bounded exhaustive model %s)" % ", ".join(sorted({x[0] for x in m.MODELS}))) if m.MODELS else "")),
                       "level": getattr(m, "LEVEL", "model_checking"), "level_note": getattr(m, "NOTE", "")})
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
 "notes": "No hooks: everything is observed through public entry points of the package."}, open(V + "/MANIFEST.json", "w"), indent=1)
