"""Schema, metamorphic, history, memory, cursor and spelling checks."""
import copy

from ..core import Prop, Res
from ..gen import G, KIND, NAMES
from .. import hist
from ..hist import Invalid, rkey
from ..model import Reject, Unclear, World, r_cond, render, keyval
from ..server import Q, T, decode, hx, ERROR, OK_EXEC, OK_ROWS
from .sql import Hist, fill, tally
from .robust import Wild


def full_create(g, name, ncols):
    """a CREATE TABLE with everything it may have; rarely with one thing wrong"""
    cols = []
    for _ in range(ncols):
        c = g.column([c[0] for c in cols])
        if g.chance(0.04):
            c[0] = (c[0] + "_z" * 70)[:g.pick([100, 126, 127])]
        if c[0].lower() in [x[0].lower() for x in cols]:
            continue
        at = []
        for a, p in (("NOT NULL", 0.2), ("UNIQUE", 0.15), ("PRIMARY KEY", 0.1), ("AUTO_INCREMENT", 0.1), ("NULL", 0.05)):
            if g.chance(p) and not (a == "NULL" and ("NOT NULL" in at or "PRIMARY KEY" in at)):
                at.append(a)
        # a table has one primary key
        if "PRIMARY KEY" in at and any("PRIMARY KEY" in x[3] for x in cols):
            at.remove("PRIMARY KEY")
        if "AUTO_INCREMENT" in at and c[1] not in ("INT", "INTEGER"):
            at.remove("AUTO_INCREMENT")
        g.r.shuffle(at)
        c[3] = at
        cols.append(c)
    tail = []
    if g.chance(0.25) and not any("PRIMARY KEY" in x[3] for x in cols):
        tail.append(["pk", [c[0] for c in g.r.sample(cols, g.r.randrange(1, min(3, len(cols)) + 1))]])
    if g.chance(0.25):
        tail.append(["idx", [c[0] for c in g.r.sample(cols, g.r.randrange(1, min(3, len(cols)) + 1))]])
    g.r.shuffle(tail)
    if g.chance(0.06) and len(cols) > 1:
        cols[-1][0] = cols[0][0]
    if g.chance(0.04):
        tail.append(["idx", ["no_such_col"]])
    return ["create", name, cols, g.chance(0.25), tail]


class Create(Hist):
    id = "P09"
    n = {"quick": 10000, "thorough": 300000}
    rule = ("1-6 CREATE TABLE statements (1-128 columns, all types and attributes in every order, table-level PRIMARY KEY and "
            "INDEX lists, IF NOT EXISTS on new and existing names, duplicate/unknown columns) over two databases; the "
            "stored schema (names, order, types, sizes, flags) and the set of tables are compared with the model; "
            "non-trivial: a table was created")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        for _ in range(g.pick([1, 2, 3, 4, 6])):
            if g.w.tables and g.chance(0.3):
                name = g.pick(list(g.w.tables))
            else:
                name = g.table_name()
                if g.chance(0.05):
                    name = (name + "_" * 130)[:g.pick([100, 126, 127])]
            g.put(ops, full_create(g, name, g.ncols()))
        ops.append(["dumpall"])
        return {"ops": ops}

    def check(self, case, env):
        r = super().check(case, env)
        if not r.fail:
            r.fail = self.flags(case, env)
        return r

    def flags(self, case, env):
        w = World()
        lines = []
        for op in case["ops"]:
            if op[0] != "create":
                continue
            try:
                w.apply(op)
            except Reject:
                pass
            except Unclear:
                return None
            lines.append("Q " + hx(render(op)))
        names = sorted(w.tables)
        lines += ["D " + hx(n) for n in names]
        o = env.run(lines)
        ts = [r for r in decode(o.lines) if isinstance(r, T)]
        if len(ts) != len(names):
            return "dump missing: %s" % o.crash()
        for n, t in zip(names, ts):
            if len(t.cols) != len(w.tables[n].cols):
                return "number of columns of %s" % n
            for c, m in zip(t.cols, w.tables[n].cols):
                exp = dict(nullable=int(not m.notnull), unique=int(m.unique), auto_inc=int(m.autoinc), pk=int(m.pk),
                           indexed=int(m.indexed))
                got = {k: c[k] for k in exp}
                if exp != got:
                    return "attributes of column %s: %r instead of %r" % (m.name, got, exp)
                if m.type == "VARCHAR" and c["prec"] != m.size:
                    return "size of VARCHAR column %s is %d instead of %d" % (m.name, c["prec"], m.size)
        return None

    def nontriv(self, c, t, case):
        return True


# ---------------------------------------------------------------------------------------------- metamorphic
def mirror(op):
    return {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)


class Meta(Prop):
    id = "P10"
    n = {"quick": 3600, "thorough": 140000}
    rule = ("one data set loaded into several tables; one condition c (depth 0-3) evaluated by SELECT *, SELECT COUNT(*), "
            "GROUP BY counts, DELETE and UPDATE, compared with each other; c rewritten into equivalent conditions (operands "
            "swapped, comparison mirrored, IN as OR, NOT IN as AND, <= as < OR =, XOR as two conjunctions, duplicated, "
            "distributed); partitions (IS NULL/IS NOT NULL, =/<>/IS NULL, </=/>) add up. No model of SQL is involved. "
            "Non-trivial: c selects some but not all rows")
    zones = True
    assumptions = ["time zones: UTC, and one with daylight saving for a quarter of the cases"]

    def gen(self, rng, tier, i):
        g = G(rng)
        while True:
            cr = g.create(name="base", ncols=g.r.randrange(1, 6))
            if max(len(c[0]) for c in cr[2]) + len("base.") <= 127:  # a documented limit of SELECT
                break
            del g.w.tables["base"]
        cr[3] = False
        t = g.w.tables["base"]
        ops = []
        fill(g, ops, t, g.pick([3, 5, 8, 12, 20, 100 if g.chance(0.2) else 6]))
        c = g.cond([(t, None)], "ANY")
        for _ in range(20):
            # prefer conditions that split the table
            try:
                from ..model import Scope, compile_cond
                p = compile_cond(c, Scope([(t, None)]), "SELECT")
                n = sum(1 for r in t.rows if p(r))
                if 0 < n < len(t.rows):
                    break
            except (Reject, Unclear):
                pass
            c = g.cond([(t, None)], "ANY")
        variants = []
        for _ in range(3):
            v = self.rewrite(c, g, t)
            if v != c:
                variants.append(v)
        col = g.pick(t.cols)
        return {"create": cr, "load": ops, "cond": c, "variants": variants, "col": col.name,
                "lit": g.cmp_value(col, t), "set": [col.name, g.value(col)]}

    def rewrite(self, c, g, t, p=0.5):
        k = c[0]
        if k == "par":
            x = self.rewrite(c[1], g, t, p)
            return x if g.chance(0.5) else ["par", x]
        if k in ("and", "or", "xor"):
            a, b = self.rewrite(c[1], g, t, p), self.rewrite(c[2], g, t, p)
            if g.chance(p):
                a, b = b, a
            if k == "xor" and b[0] not in ("xor", "and", "or") and a[0] not in ("xor", "and", "or") and g.chance(0.3):
                return [k, ["par", a], ["par", b]]
            if k == "and" and b[0] == "or" and g.chance(0.5):
                return ["or", ["and", a, b[1]], ["and", a, b[2]]]
            if k == "or" and b[0] == "and" and g.chance(0.5):
                return ["and", ["or", a, b[1]], ["or", a, b[2]]]
            return [k, a, b]
        out = c
        if k == "cmp":
            op, a, b = c[1], c[2], c[3]
            if g.chance(p):
                out = ["cmp", mirror(op), b, a]
            elif g.chance(0.4) and op in ("<=", ">=") and self.ordered(a, b, t):
                out = ["or", ["cmp", op[0], a, b], ["cmp", "=", a, b]]
            elif g.chance(0.3) and op in ("<>", "!=") and self.ordered(a, b, t):
                out = ["or", ["cmp", "<", a, b], ["cmp", ">", a, b]]
            elif g.chance(0.3) and op == "=" and self.ordered(a, b, t):
                out = ["and", ["cmp", "<=", a, b], ["cmp", ">=", a, b]]
            elif g.chance(0.3) and op == "=" and a[0] == "f" and b[0] == "l" and b[1] is not None:
                out = ["in", a, [b], 0]
        elif k == "in" and all(x[1] is not None for x in c[2]):
            if g.chance(p):
                ls = list(c[2])
                g.r.shuffle(ls)
                leafs = [["cmp", "<>" if c[3] else "=", c[1], x] for x in ls]
                out = leafs[0]
                for l in leafs[1:]:
                    out = ["and" if c[3] else "or", out, l]
            elif g.chance(0.5):
                ls = c[2] + [g.pick(c[2])]
                g.r.shuffle(ls)
                out = ["in", c[1], ls, c[3]]
        if g.chance(0.15):
            out = [g.pick(["and", "or"]), out, out]
        return out

    def ordered(self, a, b, t):
        for x in (a, b):
            if x[0] == "f" and t.cols[t.idx(x[2])].type in ("VARCHAR", "TINYINT"):
                return False
            if x[0] == "l" and (x[1] is None or x[1][0] in "sb"):
                return False
        return True

    def check(self, case, env):
        cr, load = case["create"], case["load"]
        lines, want = [], []

        def q(sql, tag):
            lines.append("Q " + hx(sql))
            want.append((tag, sql))

        def d(n, tag):
            lines.append("D " + hx(n))
            want.append((tag, n))
        conds = [case["cond"]] + case["variants"]
        tabs = ["base"] + ["del%d" % i for i in range(len(conds))] + ["upd"]
        for n in tabs:
            q(render(["create", n] + cr[2:]), "setup")
            for op in load:
                q(render(["insert", n] + op[2:]), "setup")
        d("base", "all")
        for i, c in enumerate(conds):
            q("SELECT * FROM base WHERE %s;" % r_cond(c), "sel%d" % i)
            q("SELECT COUNT(*) FROM base WHERE %s;" % r_cond(c), "cnt%d" % i)
            q("DELETE FROM del%d WHERE %s;" % (i, r_cond(c)), "del%d" % i)
            d("del%d" % i, "left%d" % i)
        c0 = r_cond(case["cond"])
        col = case["col"]
        names = [c[0] for c in cr[2]]
        typ = [c[1] for c in cr[2] if c[0] == col][0]
        q("SELECT %s, COUNT(*) FROM base WHERE %s GROUP BY %s;" % (col, c0, col), "grp")
        s = case["set"]
        q(render(["update", "upd", [[s[0], s[1]]], case["cond"]]), "upd")
        d("upd", "updated")
        f = ["f", None, col]
        lit = case["lit"]
        par = lambda c: ["and", case["cond"] if case["cond"][0] not in ("or", "xor") else ["par", case["cond"]], c]
        parts = {"null": [["null", f, 0], ["null", f, 1]],
                 "eq": [["cmp", "=", f, lit], ["cmp", "<>", f, lit], ["null", f, 0]],
                 "in": [["in", f, [lit], 0], ["in", f, [lit], 1], ["null", f, 0]]}
        if typ not in ("VARCHAR", "TINYINT"):
            parts["ord"] = [["cmp", "<", f, lit], ["cmp", "=", f, lit], ["cmp", ">", f, lit], ["null", f, 0]]
            parts["ord2"] = [["cmp", "<=", f, lit], ["cmp", ">", f, lit], ["null", f, 0]]
        for k, ps in parts.items():
            for j, p in enumerate(ps):
                q("SELECT COUNT(*) FROM base WHERE %s;" % r_cond(par(p)), "part-%s-%d" % (k, j))
        d("base", "again")
        o = env.run(lines)
        cr_ = o.crash()
        if cr_:
            n = len(decode(o.lines))
            return Res("abnormal end: %s near: %s" % (cr_, want[min(n, len(want)) - 1][1][:300]), True)
        recs = dict()
        for r, (tag, sql) in zip(decode(o.lines), want):
            if isinstance(r, Q) and (r.status is None or r.status == ERROR):
                if tag == "setup":
                    return Res("refused: %s (%s)" % (sql[:300], r.msg), True)
                return Res("refused: %s (%s)" % (sql[:400], r.msg), True)
            recs[tag] = (r, sql)

        from collections import Counter

        def rows(q_):
            got = [c["name"] for c in q_.cols]
            perm = [got.index("base." + n) for n in names if "base." + n in got]
            return Counter(rkey([r[i] for i in perm]) for r in q_.rows)

        def count(q_):
            if len(q_.rows) != 1 or len(q_.rows[0]) != 1 or q_.rows[0][0] is None:
                return None
            return q_.rows[0][0][1]

        allr = Counter(rkey(r) for r in recs["all"][0].rows)
        total = sum(allr.values())
        if Counter(rkey(r) for r in recs["again"][0].rows) != allr:
            return Res("SELECT statements changed the table", True)
        sel0 = rows(recs["sel0"][0])
        k = sum(sel0.values())
        nontriv = 0 < k < total
        tags = ["splits" if nontriv else "selects all" if k else "selects none", "%d variants" % len(case["variants"])]
        for i in range(len(conds)):
            sq = recs["sel%d" % i]
            s_ = rows(sq[0])
            if s_ - allr:
                return Res("rows that are not in the table: %s" % sq[1], True, tags)
            if s_ != sel0:
                return Res("equivalent conditions select different rows (%d and %d): %s | %s" % (
                    k, sum(s_.values()), recs["sel0"][1], sq[1]), True, tags)
            if count(recs["cnt%d" % i][0]) != k:
                return Res("COUNT(*) is %r for %d selected rows: %s" % (count(recs["cnt%d" % i][0]), k, recs["cnt%d" % i][1]), True, tags)
            dq = recs["del%d" % i]
            if dq[0].naff != k:
                return Res("DELETE affected %d rows, SELECT finds %d: %s" % (dq[0].naff, k, dq[1]), True, tags)
            left = Counter(rkey(r) for r in recs["left%d" % i][0].rows)
            if left + s_ != allr:
                return Res("DELETE did not remove exactly what SELECT finds: %s" % dq[1], True, tags)
        uq = recs["upd"]
        if uq[0].naff != k:
            return Res("UPDATE affected %d rows, SELECT finds %d: %s" % (uq[0].naff, k, uq[1]), True, tags)
        ci = names.index(col)
        from ..model import Col, Table, check_lit
        v = check_lit(Col([x for x in cr[2] if x[0] == col][0]), s[1], "store")
        exp = (allr - sel0) + Counter()
        for r, n in sel0.items():
            exp[r[:ci] + (keyval(v),) + r[ci + 1:]] += n
        if Counter(rkey(r) for r in recs["updated"][0].rows) != exp:
            return Res("UPDATE did not change exactly what SELECT finds: %s" % uq[1], True, tags)
        gq = recs["grp"]
        gn = [c["name"] for c in gq[0].cols]
        if "COUNT(*)" not in gn or "base." + col not in gn:
            return Res("columns of %s" % gq[1], True, tags)
        a, b = gn.index("base." + col), gn.index("COUNT(*)")
        got = Counter()
        for r in gq[0].rows:
            got[hist.gkey(rkey([r[a]]))] += r[b][1] if r[b] is not None else 0
        ex = Counter()
        for r, n in sel0.items():
            ex[hist.gkey((r[ci],))] += n
        if got != ex or len(gq[0].rows) != len(ex):
            return Res("GROUP BY counts disagree with the selected rows: %s" % gq[1], True, tags)
        for kk, ps in parts.items():
            ns = [count(recs["part-%s-%d" % (kk, j)][0]) for j in range(len(ps))]
            if None in ns or sum(ns) != k:
                return Res("parts %r do not add up to %d: %s ..." % (ns, k, recs["part-%s-0" % kk][1]), True, tags)
        return Res(None, nontriv, tags)

    def shrink(self, case):
        for x in hist.shrink({"ops": case["load"]}):
            if all(op[0] == "insert" for op in x["ops"]):
                yield dict(case, load=x["ops"])
        for i in range(len(case["variants"])):
            yield dict(case, variants=case["variants"][:i] + case["variants"][i + 1:])
        if not case["variants"]:
            for c in hist.shrink_cond(case["cond"]):
                if c is not None:
                    yield dict(case, cond=c)
        else:
            for c in hist.shrink_cond(case["cond"]):
                if c is not None:
                    yield dict(case, cond=c, variants=[])
        used = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "f":
                    used.add(x[2])
                for y in x:
                    walk(y)
        walk(case["cond"])
        walk(case["variants"])
        used |= {case["col"]}
        for c in case["create"][2]:
            if c[0] not in used:
                o = hist.drop_column([["create", "base"] + case["create"][2:]] + case["load"], "base", c[0])
                if o:
                    yield dict(case, create=o[0], load=o[1:])

    def text(self, case):
        return [render(case["create"])] + [render(o)[:1500] for o in case["load"]] + \
            ["-- condition: " + r_cond(case["cond"])] + ["-- rewritten: " + r_cond(v) for v in case["variants"]]


# ---------------------------------------------------------------------------------------------- histories
def history(g, ops, n, tabs_max=3, vac=0.06, bad=0.12, close=0.0, dbs=1, hold=0.0, joins=True):
    """n random steps over g.w (several databases are switched by the caller)"""
    slots = []
    for _ in range(n):
        w = g.w
        ts = list(w.tables.values())
        k = g.r.random()
        if not ts or (len(ts) < tabs_max and k < 0.08):
            ops.append(g.create(ncols=g.r.randrange(1, 7)))
            continue
        t = g.pick(ts)
        small = len(t.rows) < 150
        if k < 0.38 and small:
            g.put(ops, g.insert(t, n=g.pick([1, 1, 2, 3, 6, 40 if g.chance(0.15) else 4]), arith=0.1))
        elif k < 0.52:
            g.put(ops, g.delete(t, wherep=0.9))
        elif k < 0.68:
            g.put(ops, g.update(t))
        elif k < 0.68 + vac:
            ops.append(["vacuum", t.name])
        elif k < 0.74 + bad:
            b = g.bad(t)[1]
            if b is not None:
                g.put(ops, b)
        elif k < 0.93 or len(ts) < 2 or not joins:
            op = g.select(t) if g.chance(0.7) else g.group(t)
            g.put(ops, op)
        else:
            sub = g.r.sample(ts, 2)
            if len(sub[0].rows) * len(sub[1].rows) < 1500:
                g.put(ops, g.join(sub))


class Long(Hist):
    id = "P24"
    n = {"quick": 2200, "thorough": 70000}
    rule = ("histories of 20-90 statements of every kind (CREATE, INSERT with arithmetic, DELETE, UPDATE, SELECT, GROUP BY, "
            "joins, vacuum, statements that are refused) over 1-4 tables, judged step by step against the model; "
            "non-trivial: rows were inserted, updated and deleted and a SELECT returned rows")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        history(g, ops, g.pick([20, 40, 60, 90]), tabs_max=4)
        ops.append(["dumpall"])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["ins"] > 0 and c["partial"] > 0 and c["sel"] > 0


class Isolation(Hist):
    id = "P25"
    n = {"quick": 4500, "thorough": 110000}
    rule = ("interleaved statement histories over 2-3 databases of one process that share table names, closing and reopening "
            "some of them; after every few steps all tables of all databases are compared with the model, so that a "
            "statement that touches anything but its target is seen; non-trivial: two databases hold rows in equally "
            "named tables or two tables of a database hold rows")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        worlds = {}
        nd = g.pick([1, 2, 2, 3])
        names = [g.table_name() for _ in range(3)]
        cur = 0
        worlds[0] = g.w
        for step in range(g.pick([12, 20, 30])):
            if nd > 1 and g.chance(0.35):
                cur = g.r.randrange(nd)
                g.w = worlds.setdefault(cur, World())
                ops.append(["db", cur])
            if g.chance(0.03) and worlds:
                k = g.pick(list(worlds))
                ops.append(["close", k])
                worlds[k] = World()
                if k == cur:
                    g.w = worlds[k]
            free = [n for n in names if n not in g.w.tables]
            if free and (not g.w.tables or g.chance(0.3)):
                ops.append(g.create(name=g.pick(free), ncols=g.r.randrange(1, 5)))
                t = list(g.w.tables.values())[-1]
                g.put(ops, g.insert(t, n=3))
            else:
                history(g, ops, 1, tabs_max=0, joins=True)
            if g.chance(0.2):
                ops.append(["dumpall"])
        ops.append(["dumpall"])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["ins"] > 0 and (c["partial"] > 0 or c["del"] or c["upd"])


class Catalogue(Hist):
    id = "P28"
    n = {"quick": 1800, "thorough": 60000}
    rule = ("databases of 8-300 small tables with names that are numbered, share long prefixes, differ in case only, or collide "
            "under the built-in hash; CREATE of new and existing names with and without IF NOT EXISTS, and statements on "
            "random tables in between (all kinds, also joins of two tables); from time to time all tables of the database are "
            "compared with the model, and the set of tables with that of the model. Non-trivial: 17 or more tables, the "
            "table of tables has grown twice")

    def names(self, g, n):
        k = g.r.randrange(5)
        if k == 0:
            pre = g.pick(["t", "tab", "T_", "x" * 60])
            out = ["%s%d" % (pre, j) for j in range(n)]
        elif k == 1:
            pre = g.pick(["T", "q_"])
            out = [pre + "".join("ab" if j >> b & 1 else "bA" for b in range(9)) for j in range(n)]
        elif k == 2:
            pre = "".join(g.pick("abcXYZ_19") for _ in range(g.pick([20, 60, 110])))
            out = ["p" + pre + "".join(g.pick("abcdefgh") for _ in range(6)) for _ in range(n)]
        elif k == 3:
            out = ["".join(c.upper() if j >> b & 1 else c for b, c in enumerate("tablename")) for j in range(n)]
        else:
            out = [g.pick("ghijkmpqrw") + "".join(g.pick("abxyz_01") for _ in range(g.pick([1, 2, 3, 12]))) + "_q" for _ in range(n)]
        out = list(dict.fromkeys(x for x in out if x.lower() not in ("tablename",) or k == 3))
        g.r.shuffle(out)
        return out

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        n = g.pick([8, 9, 16, 17, 33, 60]) if g.chance(0.85) else g.pick([120, 200, 300])
        rows = g.pick([0.1, 0.4, 0.9])
        for x in self.names(g, n):
            k = g.r.random()
            if k < 0.08 and g.w.tables:
                y = g.pick(list(g.w.tables))
                g.put(ops, ["create", y, [g.column([])], g.chance(0.5), []])
            ops.append(g.create(name=x, ncols=g.pick([1, 1, 2, 3]), notnull=0.05))
            t = g.w.tables[x]
            if g.chance(rows):
                g.put(ops, g.insert(t, n=g.pick([1, 2])))
            if g.chance(0.15):
                t = g.pick(list(g.w.tables.values()))
                m = g.r.randrange(6)
                g.put(ops, g.insert(t, n=1) if m < 2 else g.select(t) if m < 4 else g.update(t) if m == 4 else g.delete(t))
            if g.chance(0.03) and len(g.w.tables) > 1:
                g.put(ops, g.join(g.r.sample(list(g.w.tables.values()), 2)))
            if g.chance(0.03):
                ops.append(["dumpall"])
        ts = list(g.w.tables.values())
        for t in g.r.sample(ts, min(len(ts), 12)):
            g.put(ops, g.select(t))
        ops.append(["dumpall"])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return sum(o[0] == "create" for o in case["ops"]) >= 17


class Vacuum(Hist):
    id = "P16"
    n = {"quick": 5500, "thorough": 150000}
    rule = ("tables of 0-600 rows and 1-60 columns over several storage pages, deletions of every shape, vacuum at random points (also of "
            "empty, untouched and fully deleted tables, and twice in a row) followed by further inserts, updates, deletes "
            "and reads; contents compared after every step, no deleted row may remain after a vacuum; non-trivial: a vacuum "
            "after a deletion")

    def gen(self, rng, tier, i):
        g = G(rng)
        wide = g.chance(0.04)
        ops = [g.create(ncols=g.r.randrange(12, 61) if wide else g.r.randrange(1, 6))]
        t = list(g.w.tables.values())[0]
        if g.chance(0.1):
            ops.append(["vacuum", t.name])
        fill(g, ops, t, g.pick([0, 1, 3, 10, 25, 40]) if wide else
             g.pick([0, 1, 3, 10, 40, 80, (600 if g.chance(0.1) else 200) if g.chance(0.3) else 20]))
        for _ in range(g.pick([2, 4, 7])):
            k = g.r.random()
            if k < 0.35:
                g.put(ops, g.delete(t, wherep=0.85))
            elif k < 0.5:
                fill(g, ops, t, g.pick([1, 3, 10, 40]))
            elif k < 0.6:
                g.put(ops, g.update(t))
            elif k < 0.7:
                g.put(ops, g.select(t))
            else:
                ops.append(["vacuum", t.name])
                if g.chance(0.2):
                    ops.append(["vacuum", t.name])
        ops.append(["vacuum", t.name])
        g.put(ops, g.insert(t, n=2))
        g.put(ops, g.select(t, kinds=("star",), wherep=0.0))
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return c["del"] > 0


class Memory(Hist):
    id = "P12"
    n = {"quick": 3200, "thorough": 90000}
    rule = ("random statement histories (all statement kinds, refused statements, syntax errors, held result sets) run three "
            "times in one process on a fresh database each; heap in use after closing the database must be the same after "
            "the 2nd and 3rd run; SELECTs repeated on a loaded table must leave the heap as it was; non-trivial: rows were "
            "stored and a SELECT or a refusal happened")
    assumptions = ["heap use as counted by AddressSanitizer's allocator; the first run absorbs what libc allocates lazily"]

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        history(g, ops, g.pick([4, 8, 14, 22]), tabs_max=2, bad=0.2)
        ts = [t for t in g.w.tables.values()]
        if ts and g.chance(0.5):
            t = g.pick(ts)
            h = g.select(t)
            g.put(ops, h)
        reads = []
        for _ in range(g.pick([1, 2, 4])):
            t = g.pick(ts) if ts else None
            if t is None:
                break
            k = g.r.random()
            op = g.select(t) if k < 0.45 else g.group(t) if k < 0.7 else g.bad(t)[1]
            if k >= 0.9 and len(ts) > 1 and len(ts[0].rows) * len(ts[1].rows) < 1500:
                op = g.join(ts[:2])
            if op is None or op[0] == "create":
                continue
            g.put(reads, op)
        if ts and g.chance(0.5):
            # SELECTs of the whole grammar, right, nearly right or damaged: accepted or refused, they keep nothing
            w = Wild(g, [(t.name, [(c.name, c.type) for c in t.cols]) for t in ts])
            for _ in range(g.pick([1, 2, 3])):
                q = g.r.random()
                x = w.near() if q < 0.5 else w.select() + ";" if q < 0.7 else w.damage(w.near())
                if x.startswith("SELECT ") and "\0" not in x:
                    g.put(reads, ["maybe", x])
        body = ops + reads + [["mem", "reads 1"]] + reads + [["mem", "reads 2", "reads 1"]]
        return {"body": body}

    def check(self, case, env):
        ops = list(case["body"]) + [["close", 0]] + list(case["body"]) + [["close", 0], ["mem", "second end"]] + \
            list(case["body"]) + [["close", 0], ["mem", "third end", "second end"]]
        c = {"ops": ops, "sparse": True}
        f = hist.judge(c, env.run)
        cc, t = tally(c)
        return Res(f, cc["ins"] > 0 and (cc["sel"] > 0 or cc["rej"] > 0), t)

    def shrink(self, case):
        for x in hist.shrink({"ops": case["body"]}):
            yield {"body": x["ops"]}

    def text(self, case):
        return hist.text_of({"ops": case["body"]}) + ["-- (three times, closing the database each time)"]


class Snapshot(Hist):
    id = "P14"
    n = {"quick": 7000, "thorough": 150000}
    rule = ("SELECT/GROUP BY/join result sets kept open while later statements insert, update, delete, vacuum and close the "
            "database; every kept result set is read later and must show the rows as of its execution, and running it must "
            "leave the tables unchanged; non-trivial: a result set with rows was read after a table changed")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        for _ in range(g.pick([1, 1, 2])):
            ops.append(g.create(ncols=g.r.randrange(1, 6)))
        ts = list(g.w.tables.values())
        for t in ts:
            fill(g, ops, t, g.pick([2, 5, 10, 80 if g.chance(0.2) else 6]))
        live, nxt = [], 0
        for _ in range(g.pick([5, 8, 12])):
            k = g.r.random()
            t = g.pick(ts)
            if k < 0.35 and nxt < 12:
                op = g.select(t) if g.chance(0.6) else g.group(t)
                if len(ts) > 1 and g.chance(0.3) and len(ts[0].rows) * len(ts[1].rows) < 1500:
                    op = g.join(ts)
                try:
                    g.w.apply(op)
                except (Reject, Unclear):
                    continue
                ops.append(["hold", nxt, op])
                ops.append(["dumpall"])
                live.append(nxt)
                nxt += 1
            elif k < 0.5 and live:
                s = live.pop(g.r.randrange(len(live)))
                ops.append(["read", s])
            elif k < 0.65:
                g.put(ops, g.update(t))
            elif k < 0.8:
                g.put(ops, g.delete(t))
            elif k < 0.9:
                g.put(ops, g.insert(t, n=g.pick([1, 3])))
            else:
                ops.append(["vacuum", t.name])
        if g.chance(0.3):
            ops.append(["close", 0])
        g.r.shuffle(live)
        for s in live:
            ops.append(["read", s])
        return {"ops": ops}

    def nontriv(self, c, t, case):
        return "held result set" in t and (c["upd"] or c["del"] or c["ins"])


# ---------------------------------------------------------------------------------------------- cursor
class Cursor(Prop):
    id = "P13"
    n = {"quick": 6000, "thorough": 100000}
    rule = ("a result set of 0-600 rows over 1-40 pages (after deletions and filters too) stepped through in random portions "
            "with query_cur_step, reading integer columns with query_column_int64; every row comes exactly once, then the "
            "end is reported, also on every further step - also when a second result set is opened, stepped in turn with it, "
            "given back and opened again; non-trivial: more than one row or an empty result stepped twice")
    assumptions = ["row order is not claimed"]

    def gen(self, rng, tier, i):
        g = G(rng)
        case = self.one(g, g.pick([0, 1, 2, 5, 20, 60, 150, 600 if g.chance(0.15) else 40]))
        if g.chance(0.4):
            # a second result set (of a table with other columns) is stepped in turn with the first one
            b = self.one(g, g.pick([0, 1, 3, 20, 90, 150]))
            b["again"] = int(g.chance(0.4))
            case["other"] = b
        return case

    def one(self, g, n):
        wide = g.chance(0.3)
        cols = [[g.pick(["id", "k", "Aa"]), "INTEGER", None, []], [g.pick(["v", "zz", "b1"]), g.pick(["INTEGER", "INTEGER", "VARCHAR"]), None, []]]
        if cols[1][1] == "VARCHAR":
            cols[1][2] = g.pick([3, 4, 7, 8, 9, 20])
        for k in range(g.pick([5, 20, 60]) if wide else g.pick([0, 0, 1, 2, 3])):
            # further columns: integers (filled in), others stay NULL
            ty = g.pick(["INTEGER", "INTEGER", "VARCHAR", "TINYINT", "DOUBLE", "DATE"])
            cols.append([g.pick("wabcxy") + "_%d" % k, ty, g.pick([2, 3, 5, 8, 60]) if ty == "VARCHAR" else None, []])
        rows = []
        for k in range(n):
            rows.append([k * 7919 - 5000 if g.chance(0.9) else (1 << 40) + k, g.r.randrange(0, 4)])
        dele = g.pick([None, None, 0, 1, 2])
        where = g.pick([None, None, 0, 3, 9])
        steps = []
        for _ in range(g.pick([1, 2, 3, 5])):
            steps.append(g.pick([0, 1, 2, 3, 10, 60, 700]))
        return {"cols": cols, "rows": rows, "del": dele, "where": where, "steps": steps + [n + 2, 2],
                "mode": g.pick(["*", "id", "count", "group"])}

    def plan(self, case, tn):
        """-> statements that set the table up, the query, the number of rows and the values of each"""
        cols = case["cols"]
        vch = cols[1][1] == "VARCHAR"
        lit = (lambda v: "'s%d'" % v) if vch else str
        lines = ["Q " + hx(render(["create", tn, cols, False, []]))]
        idc, vc = cols[0][0], cols[1][0]
        more = [j for j in range(2, len(cols)) if cols[j][1] == "INTEGER" and j % 3]
        names = "(" + ", ".join([idc, vc] + [cols[j][0] for j in more]) + ")"
        extra = lambda r: [r[0] * 3 + j for j in more]
        rows = case["rows"]
        for i in range(0, len(rows), 50):
            lines.append("Q " + hx("INSERT INTO %s %s VALUES %s;" % (tn, names, ", ".join(
                "(%s)" % ", ".join(["%d" % r[0], lit(r[1])] + ["%d" % x for x in extra(r)]) for r in rows[i:i + 50]))))
        if case["del"] is not None:
            lines.append("Q " + hx("DELETE FROM %s WHERE %s = %s;" % (tn, vc, lit(case["del"]))))
            rows = [r for r in rows if r[1] != case["del"]]
        wh = ""
        if case["where"] is not None:
            wh = " WHERE %s <> %s" % (vc, lit(case["where"]))
            rows = [r for r in rows if r[1] != case["where"]]
        m = case["mode"]
        sel = {"*": "SELECT * FROM %s%s;", "id": "SELECT " + idc + " FROM %s%s;",
               "count": "SELECT COUNT(*) FROM %s%s;",
               "group": "SELECT " + idc + ", COUNT(*) FROM %s%s GROUP BY " + idc + ";"}[m] % (tn, wh)
        if m == "*":
            exp = [[r[0]] + ([] if vch else [r[1]]) + extra(r) for r in rows]  # columns that are NULL are left out
        elif m == "id":
            exp = [[r[0]] for r in rows]
        elif m == "group":
            exp = [[r[0], 1] for r in rows]
        else:
            exp = [[len(rows)]]
        return lines, sel, exp

    def check(self, case, env):
        parts = [case] + ([case["other"]] if case.get("other") else [])
        plans = [self.plan(c, tn) for c, tn in zip(parts, ("t", "u"))]
        lines = sum((p[0] for p in plans), [])
        for k, p in enumerate(plans):
            lines.append("QH %d %s" % (k, hx(p[1])))
        runs = [[k] for k in range(len(parts))]  # steps per opened result set
        todo = [list(c["steps"]) for c in parts]
        if len(parts) > 1 and parts[1].get("again"):
            # given back after some steps and run once more
            cut = todo[1][:len(todo[1]) // 2]
            todo[1] = [("n", x) for x in cut] + ["again"] + todo[1]
        while any(todo):
            for k, td in enumerate(todo):
                if td:
                    x = td.pop(0)
                    if x == "again":
                        lines += ["QR 1", "QH 1 " + hx(plans[1][1])]
                    else:
                        lines.append("QN %d %d" % (k, x[1] if isinstance(x, tuple) else x))
        lines += ["QR %d" % k for k in range(len(parts))]
        o = env.run(lines)
        c = o.crash()
        if c:
            return Res("abnormal end: %s: %s" % (c, " | ".join(p[1] for p in plans)))
        out = decode(o.lines)
        seqs = []  # (part, steps)
        cur = {}
        evs = [ln for ln in lines if ln.startswith(("QN", "QH"))]
        outs = [ln for ln in out if isinstance(ln, str) and (ln.startswith("QN") or ln.startswith("H "))]
        if len(outs) != len(evs):
            return Res("%d answers to %d commands: %s" % (len(outs), len(evs), plans[0][1]))
        for ev, ln in zip(evs, outs):
            k = int(ev.split()[1])
            if ev.startswith("QH"):
                if ln != "H 0":
                    return Res("refused: %s" % plans[k][1])
                cur[k] = []
                seqs.append((k, cur[k]))
            else:
                cur[k] += ln.split()[1:]
        key = lambda vals: tuple(sorted(vals))
        for k, seq in seqs:
            _, sel, exp = plans[k]
            n = len(exp)
            got = []
            for i, x in enumerate(seq):
                f = x.split(":")
                if i < n:
                    if f[0] != "100" and (f[0] == "0" or len(f) < 2):
                        return Res("step %d of %d rows returned %s: %s" % (i + 1, n, x, sel))
                    got.append([int(v) for v in f[1:]])
                elif f[0] != "0" or len(f) > 1:
                    return Res("step %d past the %d rows returned %s: %s" % (i + 1, n, x, sel))
            a, b = sorted(key(x) for x in exp), sorted(key(x) for x in got)
            if len(got) < n:
                # given back early: what came has to be among the rows, each once
                rest = list(a)
                for x in b:
                    if x not in rest:
                        return Res("row %r is not a row (or came twice): %s" % (x, sel))
                    rest.remove(x)
            elif a != b:
                bad = [x for x in zip(a, b) if x[0] != x[1]][:2]
                return Res("rows delivered by the cursor differ, e.g. %r: %s" % (bad, sel))
        n = len(plans[0][2])
        tags = ["rows " + ("0" if n == 0 else "1" if n == 1 else "2-49" if n < 50 else "50+"), "mode " + case["mode"]]
        if len(parts) > 1:
            tags.append("two result sets in turn")
        return Res(None, n != 1 or case["mode"] == "count", tags)

    def shrink(self, case):
        r = case["rows"]
        size = len(r) // 2
        while size >= 1:
            for i in range(0, len(r), size):
                yield dict(case, rows=r[:i] + r[i + size:])
            size //= 2
        if case["del"] is not None:
            yield dict(case, **{"del": None})
        if case["where"] is not None:
            yield dict(case, where=None)
        if len(case["cols"]) > 2:
            yield dict(case, cols=case["cols"][:2])
        if case.get("other"):
            yield {k: v for k, v in case.items() if k != "other"}
            for x in self.shrink(case["other"]):
                yield dict(case, other=x)
        if case["mode"] != "id":
            yield dict(case, mode="id")
        for i in range(len(case["steps"]) - 1):
            yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1:])

    def text(self, case):
        t = dict(case, rows="%d rows: %r..." % (len(case["rows"]), case["rows"][:5]))
        if case.get("other"):
            t["other"] = self.text(case["other"])
        return t


PROPS = [Catalogue(), Create(), Meta(), Memory(), Cursor(), Snapshot(), Vacuum(), Long(), Isolation()]
