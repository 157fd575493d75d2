"""writes MANIFEST.json from the checks that exist (claimed) and the properties that do not have one yet."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NOTE = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module(f"checks.{i.lower()}")
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=TECH[m.LEVEL], level=m.LEVEL, level_note=NOTE.get(i, "") + " " + "Assumes/trusts: " + "; ".join(m.ASSUMPTIONS) + "."))
    else:
        na.append(dict(property=i, reason=REASON.get(i, "check not built yet")))
M = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="python checks; each imports the code of /repo/src directly (pure python, nothing to compile). No hooks in /repo.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
