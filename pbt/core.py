"""Runs one property's check: generates cases, judges them in 8 worker processes, shrinks, replays, writes evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback
from collections import Counter

from . import build
from .hist import Invalid
from .server import Server

VERIF = build.VERIF
WORKERS = 8
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Res:
    """verdict of one case"""
    __slots__ = ("fail", "nontrivial", "tags", "skip")

    def __init__(self, fail=None, nontrivial=True, tags=(), skip=False):
        self.fail, self.nontrivial, self.tags, self.skip = fail, nontrivial, tags, skip


class Prop:
    """one property. Subclasses define id, rule, n (cases per tier), gen(rng, tier, i), check(case, env)"""
    id = None
    flavours = ("asan",)
    rule = ""
    n = {"quick": 2000, "thorough": 40000}
    cap = {"quick": 360, "thorough": 3000}  # seconds of generation; reaching it only means fewer cases
    zones = False  # whether some of the cases run in another time zone
    replays = (3, 3)  # a failure has to show up in at least a of b replays

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def check(self, case, env):
        raise NotImplementedError

    def shrink(self, case):
        return iter(())

    def text(self, case):
        return case

    def seeds(self):
        """hand-written cases that always run first"""
        return []

    extra = ()

    def prepare(self, tier, seed, scale):
        """another source of cases (judged as all others), and what the evidence says about it"""
        return [], None


FAR, FAR_OFF = "AAA5:03:07BBB4:03:07,M3.2.0,M11.1.0", 18187  # a time zone with daylight saving
DATE = re.compile(r"(?<= )t(-?[0-9]+)(?= |$)")


class Env:
    """what a case can use to run the code"""

    def __init__(self, bins, reuse=False, far=False):
        self.bins, self.servers, self.reuse, self.far, self.patience = bins, {}, reuse, far, 1

    def run(self, lines, cpu=10, flavour="asan"):
        k = (flavour, self.far, self.reuse)
        if k not in self.servers:
            self.servers[k] = Server(self.bins[flavour], FAR if self.far else "UTC", self.reuse)
        o = self.servers[k].run(lines, max(cpu, min(cpu * self.patience, 90)))
        if self.far:  # dates are stored as local standard time: as they would be in UTC
            o.lines = [DATE.sub(lambda m: "t%d" % (int(m.group(1)) - FAR_OFF), x) if x.startswith("r ") else x for x in o.lines]
        return o

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}


def case_rng(seed, pid, i):
    return random.Random("%s:%s:%d" % (seed, pid, i))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


def evaluate(prop, case, env):
    try:
        return prop.check(case, env)
    except Invalid:
        return Res(skip=True, nontrivial=False)


def worker(prop, bins, seed, tier, n, wid, q, stop, deadline):
    # every other worker reuses freed memory at once: stale pointers then meet live objects
    env = Env(bins, wid % 2 == 1, prop.zones and wid in (2, 5))
    ev, skipped, keys, tags, samples = 0, 0, set(), Counter(), []
    done = 0
    try:
        fixed = prop.seeds() + list(prop.extra)
        for i in range(wid, n + len(fixed), WORKERS):
            if stop.is_set() or time.time() > deadline:
                break
            case = fixed[i] if i < len(fixed) else prop.gen(case_rng(seed, prop.id, i - len(fixed)), tier, i - len(fixed))
            if case is None:
                skipped += 1
                done += 1
                continue
            r = evaluate(prop, case, env)
            if r.fail and "hang(cpu)" in r.fail:  # much to do, or endless?
                env.patience = 6
                r = evaluate(prop, case, env)
                env.patience = 1
            done += 1
            if r.skip:
                skipped += 1
                continue
            ev += 1
            tags.update(r.tags)
            if r.nontrivial:
                keys.add(digest(case))
                if len(samples) < 1 and i >= len(fixed):
                    samples.append(prop.text(case))
            if r.fail:
                q.put(("fail", i, case, r.fail, env.reuse, env.far))
                break
        q.put(("done", wid, ev, skipped, keys, tags, samples, done))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))
    finally:
        env.close()


def signature(fail):
    """coarse class of a failure, used to keep the shrinker on the same failure"""
    import re
    s = re.sub(r"'[^']*'", "S", fail.split(":")[0])
    return re.sub(r"[0-9]+", "N", s)[:60]


def shrink(prop, case, fail, env, budget):
    t0 = time.time()
    sig = signature(fail)
    slow = "hang" in fail
    limit = t0 + (budget if not slow else budget * 2)
    progress = True
    tries = 0
    while progress and time.time() < limit:
        progress = False
        for cand in prop.shrink(case):
            if time.time() > limit:
                break
            tries += 1
            try:
                r = evaluate(prop, cand, env)
            except Exception:
                continue
            if r.fail and signature(r.fail) == sig:
                case, fail, progress = cand, r.fail, True
                break
    return case, fail, tries


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln.startswith("{"):
                continue
            e = json.loads(ln)
            if e.get("property") == pid and e.get("status") == "known":
                out.append(e)
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def run_check(prop, tier, seed, scale=1.0):
    t0 = time.time()
    bins = {f: build.build(f) for f in prop.flavours}
    known = known_findings(prop.id)
    env = Env(bins)
    # known findings are shown again from their stored case; they are excluded from generation by construction
    for e in known:
        r = evaluate(prop, e["case"], env)
        if r.fail:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, e["what"]))
        else:
            print("note: the known finding '%s' did not show up" % e["what"])
    n = int(prop.n[tier] * scale)
    prop.extra, about = prop.prepare(tier, seed, scale)
    q, stop = mp.Queue(), mp.Event()
    deadline = time.time() + prop.cap[tier]
    ps = [mp.Process(target=worker, args=(prop, bins, seed, tier, n, w, q, stop, deadline)) for w in range(WORKERS)]
    for p in ps:
        p.start()
    left, ev, skipped, keys, tags, samples, fails, errors, done = WORKERS, 0, 0, set(), Counter(), [], [], [], 0
    while left:
        m = q.get()
        if m[0] == "fail":
            fails.append(m[1:])
            stop.set()
        elif m[0] == "error":
            errors.append(m[2])
            left -= 1
            stop.set()
        else:
            left -= 1
            ev += m[2]
            skipped += m[3]
            keys |= m[4]
            tags.update(m[5])
            samples += m[6]
            done += m[7]
    for p in ps:
        p.join()
    violation, unrepro = None, []
    for i, case, fail, env.reuse, env.far in sorted(fails, key=lambda f: len(json.dumps(f[1])))[:8]:
        if not confirm(prop, case, fail, env):
            unrepro.append(fail)
            continue
        small, sfail, tries = shrink(prop, case, fail, env, 45)
        if not confirm(prop, small, sfail, env):
            small, sfail = case, fail
        violation = (i, small, sfail, tries, env.reuse, env.far)
        break
    env.close()
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(keys),
        "rule": prop.rule,
        "samples": samples[:4],
        "cases_planned": n + len(prop.seeds()) + len(prop.extra),
        "cases_done": done,
        "outside_domain": skipped,
        "classes": dict(sorted(tags.items())),
    }
    if about:
        cov["fuzzing"] = about
    if unrepro:
        cov["not_reproducible"] = unrepro[:5]
    if done < cov["cases_planned"] and not fails:
        cov["stopped_by_time_cap"] = True
    evidence = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                "assumptions": getattr(prop, "assumptions", []), "wall_s": round(time.time() - t0, 2)}
    rc = 0
    if violation:
        i, case, fail, tries, reuse, far = violation
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s-%d.json" % (prop.id, seed, i))
        write_json(path, {"property": prop.id, "seed": seed, "case_index": i, "what": fail, "shrink_attempts": tries,
                          "text": prop.text(case), "case": case, "reuse": reuse, "far": far,
                          "replay": "cd /verif && python3 -m pbt.run %s replay %s" % (prop.id, path)})
        evidence["violations"] = [{"what": fail, "replay": path}]
        rc = 1
    evidence["wall_s"] = round(time.time() - t0, 2)
    write_json(os.path.join(VERIF, "evidence", prop.id + ".json"), evidence)
    if violation:
        print(violation[2][:1500])
        for ln in (violation and prop.text(violation[1]) if isinstance(prop.text(violation[1]), list) else [])[:40]:
            print("   " + str(ln)[:300])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
    elif errors:
        print("error of the check itself:\n" + errors[0])
        rc = 2
    else:
        print("%s %s: %d cases, %d distinct non-trivial, %d outside the domain, %.1fs%s" % (
            prop.id, tier, ev, len(keys), skipped, time.time() - t0,
            ", %d failures that could not be reproduced" % len(unrepro) if unrepro else ""))
        for k, v in sorted(tags.items()):
            print("   %-28s %d" % (k, v))
    sys.stdout.flush()
    return rc


def confirm(prop, case, fail, env):
    need, of = prop.replays
    hits = 0
    if "hang(cpu)" in fail:
        env.patience = 4
        r = evaluate(prop, case, env)
        env.patience = 1
        return bool(r.fail)
    for k in range(of):
        r = evaluate(prop, case, env)
        hits += bool(r.fail)
        if hits >= need:
            return True
        if of - k - 1 + hits < need:
            return False
    return False
