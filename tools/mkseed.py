"""Makes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms each in a scratch copy of /repo.

usage: mkseed.py [ids...]     (only those that have no folder yet when no id is given)
A definition: id, property, edits [(file, old, new)], needs, breaks, demo (C source after '#include "demo.h"').
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "72016e3"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def tests(copy):
    """runs /opt/vp's build and tests against a copy (the scripts name /repo, so edited copies of them are used)"""
    d = copy + ".vp"
    os.makedirs(d, exist_ok=True)
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("bash /opt/vp/build.sh", "bash %s/build.sh" % d)
        s = s.replace("/repo", copy)
        open(os.path.join(d, n), "w").write(s)
    out = d + "/out.json"
    p = sh(["bash", d + "/test.sh", out])
    r = json.load(open(out)) if os.path.exists(out) else {"passed": []}
    shutil.rmtree(d)
    return set(map(str, r["passed"])), p.stdout[-500:] + p.stderr[-1500:]


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "stable", "tests", "pass"):
        if k in b:
            return set(map(str, b[k]))


def defs():
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            yield s


def make(s):
    sid = s["id"]
    copy = "/tmp/seedcopy_" + sid
    shutil.rmtree(copy, ignore_errors=True)
    sh(["cp", "-a", "/repo", copy])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f)
            t = open(p, encoding="latin-1").read()
            if t.count(old) != 1:
                return "pattern occurs %d times in %s: %r" % (t.count(old), f, old[:50])
            # at least one line that goes away has to be of the original repository
            open(p, "w", encoding="latin-1").write(t.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        own = 0
        for f in {e[0] for e in s["edits"]}:
            bl = sh("git blame -s -l HEAD -- " + f, cwd=copy).stdout.splitlines()
            new = set(sh("git rev-list %s..HEAD" % BASE, cwd=copy).stdout.split())
            for h in sh("git diff -U0 -- " + f, cwd=copy).stdout.splitlines():
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st - 1, st - 1 + n):
                        if bl[k].split()[0].lstrip("^") not in new:
                            own += 1
        if own == 0:
            return "no original line is changed"
        ok, log = tests(copy)
        miss = baseline() - ok
        if miss:
            return "tests fail: %s %s" % (sorted(miss)[:3], log if not ok else "")
        d = os.path.join(SEEDED, sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w", encoding="latin-1").write(diff)
        shutil.copy(os.path.join(HERE, "seeds", "demo.h"), d)
        open(d + "/demo.c", "w").write('#include "demo.h"\n' + s["demo"])
        sc = s.get("sh") or open(os.path.join(HERE, "seeds", "demo.sh")).read()
        open(d + "/demo.sh", "w").write(sc)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        res = []
        for where in ("/repo", copy):
            rcs = []
            for _ in range(3):
                p = sh(["bash", d + "/demo.sh"], cwd=where)
                rcs.append(p.returncode)
            res.append((rcs, p.stderr[-300:]))
        if any(res[0][0]) or not all(res[1][0]):
            shutil.rmtree(d)
            return "demo: clean %s, planted %s" % (res[0], res[1])
        return "ok (%d original lines), clean %s, planted %s: %s" % (own, res[0][0], res[1][0], res[1][1].strip()[:160])
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    want = sys.argv[1:]
    if not os.path.exists("/repo/build/lib/libmidoridb.so"):
        sh(["bash", "/opt/vp/build.sh"])
    for s in defs():
        if (want and s["id"] not in want) or (not want and os.path.isdir(os.path.join(SEEDED, s["id"]))):
            continue
        print(s["id"], make(s), flush=True)


if __name__ == "__main__":
    main()
