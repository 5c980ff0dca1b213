"""Threads: several databases, readers of one database, writers of different tables."""
import re

from ..core import Prop, Res
from ..gen import G
from ..hist import Invalid, brief, cmp_table, expectation, judge_q, snap
from .. import hist
from ..model import World, render
from ..server import Q, T, decode, hx
from .meta import history
from .robust import Wild
from .sql import fill


class Threads(Prop):
    """{"db": [[ops...] per database], "threads": [[database, [ops...]], ...]}"""
    id = "P21"
    flavours = ("tsan", "asan")
    replays = (3, 20)
    n = {"quick": 2000, "thorough": 40000}
    rule = ("2-6 threads released together, either each on a database of its own (whole histories, CREATE included), or on one "
            "database where every thread reads tables nobody writes and reads and writes tables of its own; SELECTs of the whole "
            "grammar and texts that do not parse mixed in; judged per thread "
            "against the model, then all tables and locks; one half of the runs under ThreadSanitizer, the other under "
            "AddressSanitizer. Non-trivial: two threads or more that executed statements, a SELECT among them")

    def gen(self, rng, tier, i):
        g = G(rng)
        k = g.pick([2, 2, 3, 4, 6])
        mode = g.pick(["own db", "own db", "readers", "own tables"])
        case = {"mode": mode, "flavour": "asan" if i % 2 else "tsan", "db": [], "threads": []}
        per = g.pick([3, 6, 10, 20])
        if mode == "own db":
            k = min(k, 4)
            for d in range(k):
                gg = G(rng)
                ops = []
                history(gg, ops, g.pick([0, 4, 8]), vac=0)
                th = []
                for part in (per // 2, per - per // 2):
                    history(gg, th, part, vac=0)
                    if g.chance(0.5) and gg.w.tables:
                        th += self.odd(g, list(gg.w.tables.values()))
                case["db"].append([o for o in ops if o[0] != "vacuum"])
                case["threads"].append([d, [o for o in th if o[0] != "vacuum"]])
            return case
        ops = []
        own = k if mode == "own tables" else 0
        nt = own + g.pick([1, 2])
        for _ in range(nt):
            ops.append(g.create(ncols=g.r.randrange(1, 6)))
        ts = list(g.w.tables.values())
        for t in ts:
            fill(g, ops, t, g.pick([0, 2, 6, 15, 40]))
        case["db"].append(ops)
        shared = ts[own:]
        for j in range(k):
            th = []
            for _ in range(per):
                mine = shared + (ts[j:j + 1] if own else [])
                t = g.pick(mine)
                r = g.r.random()
                if own and r < 0.6:
                    t = ts[j]
                    if r < 0.3:
                        g.put(th, g.insert(t, n=g.pick([1, 2, 5])))
                    elif r < 0.42:
                        g.put(th, g.delete(t, wherep=0.95))
                    elif r < 0.55:
                        g.put(th, g.update(t))
                    else:
                        b = g.bad(t)[1]
                        if b is not None and b[0] in ("insert", "update", "delete", "select"):
                            g.put(th, b)
                elif r < 0.8 or len(mine) < 2:
                    g.put(th, g.select(t) if g.chance(0.7) else g.group(t))
                else:
                    sub = g.r.sample(mine, 2)
                    if len(sub[0].rows) * len(sub[1].rows) < 400:
                        g.put(th, g.join(sub))
                if g.chance(0.08):
                    th += self.odd(g, mine, [t.name for t in ts[:own] if t not in mine])
            case["threads"].append([0, th])
        return case

    def odd(self, g, ts, foreign=()):
        """a few SELECTs that are accepted or refused, and statements that are not SQL"""
        w = Wild(g, [(t.name, [(c.name, c.type) for c in t.cols]) for t in ts])
        out = []
        for _ in range(g.pick([1, 1, 2, 3])):
            k = g.r.random()
            x = w.near() if k < 0.6 else w.select() + ";" if k < 0.8 else None
            if x is not None and set(re.findall(r"\w+", x)) & set(foreign):
                continue  # a table that another thread may be writing
            if x is not None and x.lstrip()[:6].upper() == "SELECT":
                out.append(["maybe", x])
            else:
                out.append(["rawbad", g.pick(["SELECT FROM;", "INSERT INTO ,;", "DELETE FROM t WHERE a LIKE 1;", "nonsense", "", "SELECT 'x"])])
        return out

    def check(self, case, env):
        lines, exp = [], []
        worlds = []
        for d, ops in enumerate(case["db"]):
            w = World()
            worlds.append(w)
            lines += ["DB %d" % d, "OPEN"]
            for op in ops:
                e = expectation(w, op)
                lines.append("Q " + hx(render(op)))
                exp.append(("q", e, op, render(op)))
        live = 0
        sel = False
        # tables written by one thread must not be used by another one
        wr, rd = {}, {}
        for j, (d, ops) in enumerate(case["threads"]):
            exp.append(("line", "T %d" % j))
            live += bool(ops)
            for op in ops:
                if op[0] == "create":
                    wr.setdefault((d, "*"), set()).add(j)
                for n in self.names(op):
                    (rd if op[0] == "select" else wr).setdefault((d, n), set()).add(j)
                sel |= op[0] == "select"
                e = expectation(worlds[d], op)
                lines.append("T %d %d %s" % (j, d, hx(render(op))))
                exp.append(("q", e, op, "thread %d: %s" % (j, render(op))))
        for key, js in wr.items():
            others = set(js) | rd.get(key, set())
            if len(others) > 1:
                raise Invalid
            if key[1] == "*" and sum(x[0] == key[0] for x in case["threads"]) > 1:
                raise Invalid
        if not case["threads"]:
            raise Invalid
        lines.append("TGO %d" % len(case["threads"]))
        for d, w in enumerate(worlds):
            names = sorted(w.tables)
            lines += ["DB %d" % d, "OPEN", "LS", "LOCK " + " ".join(hx(n) for n in names)]
            exp.append(("ls", names, d))
            exp.append(("line", "LOCK 0 0"))
            for n in names:
                lines.append("D " + hx(n))
                exp.append(("dump", snap(w.tables[n]), "database %d" % d))
        o = env.run(lines, 60, case["flavour"])
        recs = decode(o.lines)
        c = o.crash()
        bad = None
        for i, e in enumerate(exp):
            if i >= len(recs) or (i == len(recs) - 1 and c):
                break
            r = recs[i]
            if e[0] == "q":
                bad = judge_q(r, e[1], e[2], e[3])
            elif e[0] == "line":
                bad = None if r == e[1] else "%r instead of %r" % (r, e[1])
            elif e[0] == "ls":
                got = sorted(bytes.fromhex(x).decode("latin-1") for x in str(r).split()[1:])
                bad = None if got == e[1] else "tables %r instead of %r in database %d" % (got, e[1], e[2])
            else:
                bad = cmp_table(r, e[1], e[2]) if isinstance(r, T) else "no dump"
            if bad:
                return Res("with threads (%s): %s" % (case["mode"], bad))
        if c:
            return Res("abnormal end: %s with threads (%s)" % (c, case["mode"]))
        if len(recs) < len(exp):
            return Res("output ends early")
        return Res(None, live > 1 and sel, [case["mode"], case["flavour"], "%d threads" % len(case["threads"])])

    def names(self, op):
        if op[0] == "select":
            out = []
            f = op[1].get("from") or []
            return [x[0] for x in self.tabs(f)]
        if op[0] in ("insert", "delete", "update", "create"):
            return [op[1]]
        return []

    def tabs(self, f):
        """every name in a FROM clause (a few strings that are no table do no harm)"""
        for x in f:
            if isinstance(x, str):
                yield [x]
            elif isinstance(x, list):
                yield from self.tabs(x)

    def shrink(self, case):
        th = case["threads"]
        for j in range(len(th)):
            if len(th) > 2:
                yield dict(case, threads=th[:j] + th[j + 1:])
        for j, (d, ops) in enumerate(th):
            k = len(ops) // 2
            while k >= 1:
                for i in range(0, len(ops) - k + 1, k):
                    yield dict(case, threads=th[:j] + [[d, ops[:i] + ops[i + k:]]] + th[j + 1:])
                k //= 2
        for d, ops in enumerate(case["db"]):
            k = len(ops) // 2
            while k >= 1:
                for i in range(0, len(ops) - k + 1, k):
                    yield dict(case, db=case["db"][:d] + [ops[:i] + ops[i + k:]] + case["db"][d + 1:])
                k //= 2

    def text(self, case):
        out = ["-- %s, %s" % (case["mode"], case["flavour"])]
        for d, ops in enumerate(case["db"]):
            out += ["database %d: %s" % (d, render(o)) for o in ops]
        for j, (d, ops) in enumerate(case["threads"]):
            out += ["thread %d on database %d: %s" % (j, d, render(o)) for o in ops]
        return out


PROPS = [Threads()]
