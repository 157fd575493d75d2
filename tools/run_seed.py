"""python tools/run_seed.py [id ...]: the property's check against each planted bug (on a scratch copy)."""
import json, os, shutil, subprocess, sys
root = "/verif/seeded"
for i in sys.argv[1:] or sorted(os.listdir(root)):
    cp = f"/tmp/seed.{i}"
    shutil.rmtree(cp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", cp], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=cp, check=True)
    r = subprocess.run(["git", "apply", f"{root}/{i}/patch.diff"], cwd=cp)
    p = json.load(open(f"{root}/{i}/meta.json"))["property"]
    if r.returncode:
        print(i, "patch does not apply"); continue
    k = subprocess.run(["/verif/check", p], env={**os.environ, "MC_REPO_SRC": f"{cp}/src"}, capture_output=True, text=True)
    v = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION")]
    print(f"{i}: {p} exit {k.returncode}", "CAUGHT" if k.returncode == 1 and v else "MISSED " + (k.stdout + k.stderr)[-300:], flush=True)
    shutil.rmtree(cp, ignore_errors=True)
    c = json.load(open("/verif/tools/caught.json"))
    c[i] = "caught" if k.returncode == 1 and v else "missed"
    json.dump(c, open("/verif/tools/caught.json", "w"), indent=0, sort_keys=True)
