"""writes MANIFEST.json from properties.jsonl and checks/*.py"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i)) and i not in NA:
        m = importlib.import_module(i)
        checks.append(dict(property=i, quick_cmd="python3-vt check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
                           technique=getattr(m, "TECHNIQUE", "SAT-based bounded model checking of the RTL elaborated from the nMigen sources"),
                           level="model_checking",
                           level_note=getattr(m, "NOTE", "Solver verdict over all values within: " + m.META["bounds"] + ". Nothing is claimed beyond those cycle counts and configurations. Trusted: nMigen's RTLIL back end and yosys proc/flatten/memory_map, cross-checked against nMigen's simulator on every run; kissat.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks are used: the checks elaborate the modules in /repo as they are."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
