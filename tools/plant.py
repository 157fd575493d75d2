"""Plant bugs: python tools/plant.py SPECS.py [id ...]

SPECS.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], demo=python source, needs, what)].
For each: a scratch copy of /repo gets the edits; the demonstration must pass on /repo and fail on
the copy; the repository's tests must still pass on the copy; the property's check is then run on the
copy (its verdict is printed, not required).  Kept in /verif/seeded/<id>.
"""
import json, os, re, runpy, shutil, subprocess, sys
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"}
SH = '''#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD/src" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import sys, jax
jax.config.update("jax_enable_x64", True)
import numpy as np, jax.numpy as jnp
def check(ok, what):
    if not ok:
        print("FAILED:", what); sys.exit(1)
'''


def plant(b, root="/verif/seeded", check=True):
    i = b["id"]
    out, cp = f"{root}/{i}", f"/tmp/plant.{i}"
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", cp], check=True)
    try:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=cp, check=True)
        if "edits" in b:
            base = {}
            for f, old, new in b["edits"]:
                p = f"{cp}/src/microjax/{f}"
                s = open(p).read()
                pat = r"[ \t]*\n(?:[ \t]*\n)*".join(re.escape(x.rstrip()) for x in old.split("\n"))      # blank lines do not count
                if len(re.findall(pat, s)) != 1:
                    return f"{i}: text occurs {len(re.findall(pat, s))} times in {f}: {old!r}"
                open(p, "w").write(re.sub(pat, lambda _: new, s))
        diff = subprocess.run(["git", "diff"], cwd=cp, capture_output=True, text=True).stdout
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(SH); os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(PRE + b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(f"{out}/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", f"{out}/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        c = subprocess.run(["bash", f"{out}/demo.sh"], cwd=cp, env=ENV, capture_output=True, text=True)
        if a.returncode or not c.returncode:
            shutil.rmtree(out)
            return f"{i}: demo exits {a.returncode} on the tree, {c.returncode} with the change\n{(a.stdout + a.stderr)[-1200:]}\n--\n{(c.stdout + c.stderr)[-300:]}"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "xdist", "-n", "8", "--dist", "loadfile", "--randomly-seed=12345",
                            "--randomly-dont-reorganize", "tests/unittests"], cwd=cp, env={**ENV, "PYTHONPATH": f"{cp}/src"}, capture_output=True, text=True)
        if t.returncode:
            shutil.rmtree(out)
            return f"{i}: caught by the tests\n" + "\n".join(x for x in t.stdout.splitlines() if "FAILED" in x or "passed" in x)[-600:]
        msg = f"{i}: kept ({c.stdout.strip()[-150:]})"
        if check:
            k = subprocess.run(["/verif/check", b["property"]], env={**ENV, "MC_REPO_SRC": f"{cp}/src"}, capture_output=True, text=True)
            v = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION")]
            msg += f"\n    {b['property']} exit {k.returncode}: " + ("CAUGHT " + v[0][:150] if k.returncode == 1 and v else "MISSED " + (k.stdout + k.stderr)[-300:])
        return msg
    finally:
        shutil.rmtree(cp, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for b in bugs:
        if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
            print(plant(b), flush=True)
