"""Runs each planted bug's check against a scratch copy with the bug (development aid; not a check)."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(root + "/seeded"))


def one(i):
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        shutil.copytree("/repo/modepy", d + "/modepy", ignore=shutil.ignore_patterns("__pycache__"))
        r = subprocess.run(["patch", "-p1", "-s", "-i", f"{root}/seeded/{i}/patch.diff"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return f"{i}: patch does not apply {r.stdout[-200:]}"
        prop = json.load(open(f"{root}/seeded/{i}/meta.json"))["property"]
        e = dict(os.environ, MODEPY_REPO=d, SA_EVIDENCE=d)
        r = subprocess.run([sys.executable, "check.py", prop], cwd=root, env=e, capture_output=True, text=True)
        return f"{i}: {prop} {'caught' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED ' + r.stdout[-300:]}"
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
