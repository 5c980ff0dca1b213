"""Model-based checks of the SQL statements."""
from ..core import Prop, Res
from ..gen import G
from .. import hist
from ..model import Reject, Unclear, World, render


def tally(case):
    """classes of a history, from the model alone"""
    w = {0: World()}
    cur = 0
    t = set()
    c = {"rowsmax": 0, "del": 0, "upd": 0, "sel": 0, "partial": 0, "rej": 0, "ins": 0}
    for op in case["ops"]:
        k = op[0]
        if k == "db":
            cur = op[1]
            w.setdefault(cur, World())
            continue
        if k == "close":
            w[op[1]] = World()
            continue
        if k == "as":
            op = op[2]
            k = op[0]
            t.add("respelled")
        if k == "hold":
            t.add("held result set")
            op = op[2]
            k = op[0]
        if k == "oom":
            t.add("allocations fail in " + op[5][0])
            op = op[5]
            k = op[0]
        if k in ("vacuum", "dumpall", "mem", "read"):
            if k == "vacuum":
                t.add("vacuum")
            continue
        x = w[cur]
        before = None
        if k in ("delete", "update") and op[1] in x.tables:
            before = len(x.tables[op[1]].rows)
        try:
            r = x.apply(op)
        except Reject:
            c["rej"] += 1
            t.add("refused " + k)
            continue
        except Unclear:
            continue
        if k == "maybe":
            t.add("SELECT of the whole grammar")
        if k == "insert":
            c["ins"] += r[1]
            n = len(x.tables[op[1]].rows)
            c["rowsmax"] = max(c["rowsmax"], n)
            if op[2] is not None:
                t.add("insert with column list")
            if len(op[3]) > 1:
                t.add("multi-row insert")
        elif k in ("delete", "update"):
            c["del" if k == "delete" else "upd"] += r[1]
            if 0 < r[1] < before:
                c["partial"] += 1
                t.add("partial " + k)
            elif r[1] == 0:
                t.add("no-match " + k)
            else:
                t.add("all-match " + k)
        elif k == "select":
            c["sel"] += 1
            n = len(r[2])
            s = op[1]
            kind = "join" if len(s["from"]) > 1 or s["from"][0][0] == "j" else "select"
            if s.get("group"):
                kind = "group"
            elif "COUNT(*)" in s["sel"]:
                kind = "count"
            t.add("%s %s" % (kind, "empty" if n == 0 else "with rows"))
            if s.get("where"):
                t.add("where in %s" % kind)
            for q in s.get("tail") or {}:
                t.add("%s with %s" % (kind, q.upper()))
    if c["rowsmax"] > 90:
        t.add("table over several pages")
    return c, t


class Hist(Prop):
    zones = True
    assumptions = ["time zones: UTC, and one with daylight saving for a quarter of the cases", "row order and the order of result columns are not claimed",
                   "statements outside of the documented/observed dialect (DESIGN.md) are not generated"]

    def check(self, case, env):
        f = hist.judge(case, env.run)
        c, t = tally(case)
        return Res(f, self.nontriv(c, t, case), t)

    def nontriv(self, c, t, case):
        return c["rowsmax"] > 0

    def shrink(self, case):
        return hist.shrink(case)

    def text(self, case):
        return hist.text_of(case)


class Insert(Hist):
    id = "P01"
    n = {"quick": 5500, "thorough": 300000}
    rule = ("history of CREATE TABLE and INSERT statements over random schemas (1-128 columns, all types), literals from edge "
            "pools and uniform draws, with and without column lists, 1-700 rows per statement; non-trivial: at least one "
            "row with a non-NULL value was stored and compared with the model")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        for _ in range(g.pick([1, 1, 2, 3])):
            ops.append(g.create())
        ts = list(g.w.tables.values())
        for _ in range(g.pick([1, 2, 3, 5, 8])):
            g.put(ops, g.insert(g.pick(ts), arith=0.0))
        if g.chance(0.02):
            t = g.pick(ts)
            if len(t.cols) <= 8:
                g.put(ops, g.insert(t, n=g.pick([255, 256, 257, 300, 513, 700]), arith=0.0))
        ops.append(["dumpall"])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["ins"] > 0


class Arith(Hist):
    id = "P02"
    n = {"quick": 10000, "thorough": 400000}
    rule = ("INSERT with expression trees (depth up to 5, + - * / % and negation, parentheses only where needed or at "
            "random) over 64-bit integers or doubles; non-trivial: the statement contains an operator and the model "
            "either stores a value or refuses it for overflow")

    def gen(self, rng, tier, i):
        g = G(rng)
        cols = [["id", "INTEGER", None, []]]
        for k in range(g.pick([1, 1, 2, 3])):
            cols.append(["v%d" % k, g.pick(["INTEGER", "INTEGER", "DOUBLE"]), None,
                         ["NOT NULL"] if g.chance(0.15) else []])
        op = ["create", "t", cols, False, []]
        g.w.apply(op)
        ops = [op]
        t = g.w.tables["t"]
        for n in range(g.pick([2, 4, 6])):
            rows = []
            for _ in range(g.pick([1, 1, 2, 4])):
                row = [["l", ["i", n]]]
                for c in t.cols[1:]:
                    kind = "i" if c.type == "INTEGER" else "d"
                    row.append(g.expr(kind, g.pick([1, 2, 2, 3, 4, 5])))
                rows.append(row)
            g.put(ops, ["insert", "t", None, rows])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return any(op[0] == "insert" and any(e[0] != "l" for r in op[3] for e in r) for op in case["ops"])


def fill(g, ops, t, n=None, arith=0.0):
    """loads a table, in one or several statements, sometimes after deletions"""
    if n is None:
        n = g.pick([0, 1, 2, 3, 5, 8, 12, 20, 30, 120 if g.chance(0.25) else 10])
        if len(t.cols) <= 6 and g.chance(0.015):
            # more rows than fit a byte
            n = g.pick([250, 255, 256, 257, 300, 520])
    while n > 0:
        k = min(n, g.pick([n, n, 1, 5]) if n <= 200 else g.pick([n, 100, 256]))
        if g.put(ops, g.insert(t, n=k, arith=arith)):
            n -= k


class Delete(Hist):
    id = "P03"
    n = {"quick": 8000, "thorough": 300000}
    rule = ("one table filled with 0-120 rows (several storage pages in a part of the cases), then DELETEs with random "
            "conditions (all comparison operators, either side, IN, IS NULL, AND/OR/XOR, nesting to depth 3) mixed with "
            "re-inserts; non-trivial: a DELETE that removed some but not all rows")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = [g.create()]
        t = list(g.w.tables.values())[0]
        fill(g, ops, t)
        for _ in range(g.pick([1, 2, 3, 4])):
            g.put(ops, g.delete(t))
            if g.chance(0.35):
                fill(g, ops, t, g.pick([1, 3, 8]))
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["partial"] > 0


class Update(Hist):
    id = "P04"
    n = {"quick": 7000, "thorough": 300000}
    rule = ("one table filled with 0-120 rows, then UPDATEs assigning 1-4 columns (values, NULLs, strings of every length "
            "that fits) with random conditions, mixed with inserts and deletes; non-trivial: an UPDATE that changed some "
            "but not all rows")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = [g.create()]
        t = list(g.w.tables.values())[0]
        fill(g, ops, t)
        for _ in range(g.pick([1, 2, 3, 4])):
            g.put(ops, g.update(t))
            k = g.r.random()
            if k < 0.15:
                fill(g, ops, t, g.pick([1, 3, 8]))
            elif k < 0.25:
                g.put(ops, g.delete(t))
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["partial"] > 0


class Select(Hist):
    id = "P05"
    n = {"quick": 7000, "thorough": 260000}
    rule = ("one table with 0-120 rows (holes from deletions in part of the cases), then SELECTs: *, column subsets, COUNT(*), "
            "qualified/unqualified/aliased names, conditions to depth 3; rows compared as multisets with types; "
            "non-trivial: a SELECT with a condition on a non-empty table")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = [g.create()]
        if g.chance(0.2):
            ops.append(g.create())
        t = list(g.w.tables.values())[0]
        fill(g, ops, t)
        if g.chance(0.3):
            g.put(ops, g.delete(t))
            fill(g, ops, t, g.pick([0, 2, 6]))
        for _ in range(g.pick([2, 4, 6])):
            g.put(ops, g.select(t))
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["rowsmax"] > 0 and "where in select" in t or "where in count" in t


class Join(Hist):
    id = "P06"
    n = {"quick": 8500, "thorough": 200000}
    rule = ("2-7 tables with 0-12 rows each (one with several pages in part of the cases), joined with commas, JOIN ... ON "
            "(1-4 comparisons combined by AND/OR) and mixtures, aliases, projections, WHERE, GROUP BY/COUNT; result "
            "compared with the filtered cross product; non-trivial: all joined tables have rows")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        k = g.pick([2, 2, 2, 3, 3, 4]) if g.chance(0.96) else g.pick([5, 6, 7])
        types = g.pick([None, ["INTEGER", "VARCHAR"], ["INTEGER", "DOUBLE", "DATE"], ["VARCHAR", "TINYINT"]])
        wide = k <= 3 and g.chance(0.04)
        for _ in range(k):
            ops.append(g.create(ncols=g.pick([3, 15, 30, 33, 40, 60]) if wide else g.r.randrange(1, 5), types=types))
        ts = list(g.w.tables.values())
        cap = {2: [0, 1, 2, 4, 8, 12], 3: [0, 1, 2, 4, 7], 4: [0, 1, 2, 3, 4]}.get(k, [1, 1, 2])
        for t in ts:
            fill(g, ops, t, g.pick(cap[1:]) if g.chance(0.9) else cap[0])
        if k == 2 and g.chance(0.1):
            fill(g, ops, ts[0], g.pick([60, 120]))
        # make values meet: copy values between columns of the same type
        for _ in range(3):
            a, b = g.pick(ts), g.pick(ts)
            prs = [(c, d) for c in a.cols for d in b.cols if c.type == d.type and c.type != "VARCHAR" and b.rows]
            if prs:
                c, d = g.pick(prs)
                v = g.stored(d, b)
                if v:
                    if v[1][0] == "t":
                        v = ["l", v[1], c.type]
                    g.put(ops, ["update", a.name, [[c.name, v]], g.cond([(a, None)], "UPDATE", 0)])
        if g.chance(0.15):
            g.put(ops, g.delete(g.pick(ts)))
        for _ in range(g.pick([1, 2, 3])):
            sub = ts if g.chance(0.7) else g.r.sample(ts, g.r.randrange(2, k + 1))
            g.r.shuffle(sub)
            g.put(ops, g.join(sub))
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return "join with rows" in t or "where in join" in t or "group with rows" in t


class Group(Hist):
    id = "P07"
    n = {"quick": 7000, "thorough": 220000}
    rule = ("one table with 0-120 rows over small value domains, GROUP BY of 1-3 columns of every type with and without "
            "COUNT(*), WHERE, and COUNT(*) over the whole table; groups and counts compared with the model; non-trivial: "
            "a group with more than one row")

    def gen(self, rng, tier, i):
        g = G(rng)
        op = g.create()
        ops = [op]
        t = list(g.w.tables.values())[0]
        # few distinct values per column: rows drawn from a small palette
        n = g.pick([0, 1, 3, 6, 12, 25, 25, g.pick([90, 150]) if g.chance(0.4) else 15])
        if len(t.cols) <= 6 and g.chance(0.01):
            n = g.pick([257, 300, 520])
        big = n >= 90
        pal = [[g.value(c) for _ in range(g.pick([1, 2, 3, 5]))] for c in t.cols]
        for c, q in zip(t.cols, pal):
            # values that are nearly the same, so that groups are told apart by a detail
            if g.chance(0.4):
                for _ in range(g.pick([1, 2])):
                    q.append(g.near(g.pick(q), c))
        late = [[g.value(c) for _ in range(g.pick([1, 2, 3]))] for c in t.cols]
        while n > 0:
            k = min(n, g.pick([n, n, 3]))
            if big:
                # the last pages hold other values than the first ones
                k = min(k, 30)
                use = late if n <= 30 else pal
            else:
                use = pal
            g.put(ops, ["insert", t.name, None, [[g.pick(p) for p in use] for _ in range(k)]])
            n -= k
        if g.chance(0.2):
            g.put(ops, g.delete(t))
        for _ in range(g.pick([2, 3, 4])):
            g.put(ops, g.group(t) if g.chance(0.5 if big else 0.8) else g.select(t, kinds=("count",)))
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return "group with rows" in t and c["rowsmax"] > 1


class Refuse(Hist):
    id = "P08"
    n = {"quick": 10000, "thorough": 300000}
    rule = ("tables with data, then statements in which exactly one thing is wrong (31 kinds: unknown table/column, value "
            "count, type, VARCHAR length, NOT NULL, date, overflow, duplicate names, comparison of different types, "
            "syntax, ...), the faulty row at any position of a multi-row INSERT; must be refused with a message and leave "
            "every table as it was; non-trivial: a statement was refused while some table held rows")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        for _ in range(g.pick([1, 1, 2])):
            ops.append(g.create(ncols=g.r.randrange(1, 9), notnull=0.3))
        ts = list(g.w.tables.values())
        for t in ts:
            fill(g, ops, t, g.pick([0, 1, 3, 5, 60 if g.chance(0.1) else 4]))
        for _ in range(g.pick([2, 3, 5])):
            t = g.pick(ts)
            w, op = g.bad(t)
            if op is not None:
                n = len(ops)
                g.put(ops, op)
                if g.chance(0.3):
                    ops.append(["dumpall"])
            if g.chance(0.3):
                fill(g, ops, t, 1)
        ops.append(["dumpall"])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["rej"] > 0 and c["rowsmax"] > 0


PROPS = [Insert(), Arith(), Delete(), Update(), Select(), Join(), Group(), Refuse()]
