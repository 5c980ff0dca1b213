"""Runs the check of each planted bug's property against a scratch copy of /repo with the bug applied.

usage: tryseeds.py [ids...]      (env TIER, VERIF_SEED, JOBS; all planted bugs when no id is given)
"""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(ROOT, "seeded", sid)
    pid = json.load(open(d + "/meta.json"))["property"]
    copy, me = "/tmp/try_%s.repo" % sid, "/tmp/try_%s.verif" % sid
    for x in (copy, me):
        shutil.rmtree(x, ignore_errors=True)
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=copy, check=True)
        os.makedirs(me)
        for n in ("pbt", "harness", "known_findings.txt"):
            subprocess.run(["cp", "-a", os.path.join(ROOT, n), me], check=True)
        t = time.time()
        p = subprocess.run(["python3", "-m", "pbt.run", pid, os.environ.get("TIER", "quick")], cwd=me,
                           env=dict(os.environ, MDB_REPO=copy), capture_output=True, text=True, errors="replace")
        hit = "VIOLATION property=%s " % pid in p.stdout and p.returncode == 1
        return "%-28s %s %s %.0fs %s" % (sid, pid, "caught" if hit else "MISSED rc=%d" % p.returncode, time.time() - t,
                                         p.stdout.strip().splitlines()[0][:90] if hit else p.stdout[-300:])
    finally:
        for x in (copy, me):
            shutil.rmtree(x, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
