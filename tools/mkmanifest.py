"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.dont_write_bytecode = True
V = os.path.dirname(here)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"python3 tools/check.py {p} --thorough",
                           technique=m.TECHNIQUE, level=getattr(m, "LEVEL", "model_checking"), level_note=m.NOTE))
    else:
        na.append(dict(property=p, reason="check not built yet"))
d = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: the harnesses use the public API of the headers in /repo/include and are built in /verif/work.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(d, f, indent=1); f.write("\n")
try:
    import jsonschema
    jsonschema.validate(d, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: print("(not validated: run with python3-vt)")
print(len(checks), "checks,", len(na), "not applicable")
