"""tools/seed.py ID PROPERTY FILE <<JSON {edits:[[file,old,new]..], needs, breaks, demo} : make, test and store a planted bug."""
import json, os, subprocess, sys, shutil
d = json.load(sys.stdin)
sid = d["id"]
root = f"/tmp/seed_{sid}"
shutil.rmtree(root, ignore_errors=True)
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(["git", "clone", "-q", "/repo", root])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid)
os.makedirs(out, exist_ok=True)
for f, old, new in d["edits"]:
    p = f"{root}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", root, "diff"], text=True)
open(f"{out}/patch.diff", "w").write(diff)
open(f"{out}/demo.py", "w").write(d["demo"].strip() + "\n")
open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(f"{out}/demo.sh", 0o755)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
ok = subprocess.run([f"{out}/demo.sh"], cwd="/repo", capture_output=True, text=True)
bad = subprocess.run([f"{out}/demo.sh"], cwd=root, capture_output=True, text=True)
print(sid, "demo unchanged:", ok.returncode, "patched:", bad.returncode, (bad.stderr or bad.stdout).strip().splitlines()[-1:])
if ok.returncode:
    print(ok.stderr[-600:])
r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), d["property"]], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env={**os.environ, "MODEPY_REPO": root, "SA_NOEVIDENCE": "1"}, capture_output=True, text=True)
print("check:", r.returncode, [l[:250] for l in r.stdout.splitlines() if "VIOL" in l or "diff" in l or "[spec" in l][:3])
if d.get("tests", True) and not os.environ.get("NOTESTS"):
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "-n", os.environ.get("SEED_J", "8")] , cwd=root, env={**os.environ, "PYTHONPATH": root}, capture_output=True, text=True)
    print("tests:", t.returncode, t.stdout.strip().splitlines()[-1:])
shutil.rmtree(root)
