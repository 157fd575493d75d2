"""DESIGN.md = design_head.md + the table of planted bugs (meta.json + tools/caught.json written by run_seed.py)."""
import json, os
root = "/verif/seeded"
caught = json.load(open("/verif/tools/caught.json")) if os.path.exists("/verif/tools/caught.json") else {}
out = open("/verif/tools/design_head.md").read()
out += "\n## Planted bugs\n\nEach compiles, passes the 82 tests and fails its own demonstration; `tools/plant.py` makes them, `tools/run_seed.py` reruns the checks.\n\n"
out += "| id | property | what it breaks | needs | check |\n|---|---|---|---|---|\n"
for i in sorted(os.listdir(root), key=lambda i: (json.load(open(f"{root}/{i}/meta.json"))["property"], i)):
    m = json.load(open(f"{root}/{i}/meta.json"))
    out += f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |\n"
open("/verif/DESIGN.md", "w").write(out)
