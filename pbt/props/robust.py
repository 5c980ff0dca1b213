"""Checks about the text of statements: anything may be sent, spelling does not matter, expressions are grouped by precedence."""
from collections import Counter

from ..core import Prop, Res
from ..gen import G, KIND, NAMES, TNAMES
from .. import hist
from ..hist import Invalid, rkey
from ..model import Reject, Unclear, World, render
from ..server import ERROR, OK_EXEC, OK_ROWS, Q, T, decode, hx
from .sql import Hist, fill

KEYWORDS = ("AND AS ASC AUTO_INCREMENT BETWEEN BY CASE CHAR CHARACTER COLUMN COMMENT CREATE CROSS CURRENT_DATE DATE DATETIME "
            "DELETE DESC DISTINCT DOUBLE ELSE END EXISTS EXPLAIN FROM GROUP HAVING IF IN INDEX INNER INSERT INT INT4 INTEGER "
            "INTO IS JOIN KEY LEFT LIKE LIMIT MOD NOT NULL ON OR ORDER OUTER PRIMARY RIGHT SELECT SET TABLE TINYINT THEN "
            "UNIQUE UPDATE VALUES VALUE VARCHAR VARCHARACTER WHEN WHERE XOR TRUE FALSE UNKNOWN COUNT CURRENT_TIMESTAMP").split()
OPS = ["=", "<", ">", "<=", ">=", "<>", "!=", "+", "-", "*", "/", "%", "(", ")", ",", ";", ".", "&&", "||", "<<", ">>", "!",
       "&", "|", "^", "~", "#", "--", "/*", "*/", "'", '"', "`", "@", "\\"]


class Wild:
    """statements of the whole grammar, supported or not, and damaged ones"""

    def __init__(self, g, tables):
        self.g, self.r, self.tabs = g, g.r, tables  # [(name, [(col, type)])]

    def c(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def tname(self):
        return self.pick(self.tabs)[0] if self.c(0.9) else self.pick(TNAMES)

    def cname(self):
        return self.pick(self.pick(self.tabs)[1])[0] if self.c(0.92) else self.pick(NAMES)

    def lit(self):
        return self.pick([
            lambda: str(self.r.randrange(0, 9)), lambda: str(self.r.randrange(0, 9)), lambda: "1.5", lambda: ".5", lambda: "1e3", lambda: "-7",
            lambda: "'%s'" % self.pick(["", "a", "ab", "2020-01-02", "2020-01-02 03:04:05", "it''s", "x\\'y", "%", "NULL"]),
            lambda: '"dq"', lambda: "NULL", lambda: self.pick(["TRUE", "FALSE", "UNKNOWN"]), lambda: "9223372036854775807",
            lambda: "-9223372036854775808", lambda: "99999999999999999999", lambda: "1e999", lambda: "X'1F'", lambda: "0B11",
            lambda: "1e-400", lambda: "0x1G"])()

    def name(self):
        k = self.r.random()
        if k < 0.6:
            return self.cname()
        if k < 0.8:
            return self.tname() + "." + self.cname()
        if k < 0.9:
            return self.pick(["al", "zz"]) + "." + self.cname()
        return "`" + self.cname() + "`"

    def expr(self, d):
        if d <= 0 or self.c(0.25):
            return self.name() if self.c(0.5) else self.lit()
        k = self.r.randrange(16)
        e = lambda: self.expr(d - 1)
        if k < 4:
            return "%s %s %s" % (e(), self.pick(["AND", "OR", "XOR", "&&", "||"]), e())
        if k < 8:
            return "%s %s %s" % (e(), self.pick(["=", "<>", "<", ">", "<=", ">=", "!="]), e())
        if k == 8:
            return "%s IS %sNULL" % (e(), self.pick(["", "NOT "]))
        if k == 9:
            return "%s %sIN (%s)" % (e(), self.pick(["", "NOT "]), ", ".join(e() for _ in range(self.r.randrange(1, 4))))
        if k == 10:
            return "(%s)" % e()
        if k == 11:
            return "%s %s %s" % (e(), self.pick(["+", "-", "*", "/", "%", "MOD"]), e())
        if k == 12:
            return "%s %sLIKE %s" % (e(), self.pick(["", "NOT "]), e())
        if k == 13:
            return "- %s" % e()
        if k == 14:
            return self.pick(["COUNT(*)", "COUNT(%s)" % e(), "CURRENT_DATE", "CURRENT_TIMESTAMP", "COUNT(DISTINCT a)"])
        return "CASE %sWHEN %s THEN %s %sEND" % (e() + " " if self.c(0.3) else "", e(), e(), "ELSE %s " % e() if self.c(0.5) else "")

    def tref(self):
        s = self.tname()
        if self.c(0.3):
            s += self.pick([" ", " AS "]) + self.pick(["al", "zz", "t"])
        return s

    def select(self):
        s = "SELECT "
        if self.c(0.08):
            s += "DISTINCT "
        if self.c(0.4):
            s += "*"
            if self.c(0.1):
                s += ", " + self.name()
        else:
            xs = []
            for _ in range(self.r.randrange(1, 4)):
                x = self.name() if self.c(0.7) else self.pick(["COUNT(*)", self.expr(2)])
                if self.c(0.1):
                    x += self.pick([" AS ", " "]) + "c1"
                xs.append(x)
            s += ", ".join(xs)
        if self.c(0.04):
            return s
        s += " FROM " + self.tref()
        for _ in range(self.pick([0, 0, 0, 1, 1, 2, 3])):
            if self.c(0.4):
                s += ", " + self.tref()
            else:
                s += " %sJOIN %s ON %s" % (self.pick(["", "", "INNER ", "LEFT ", "RIGHT OUTER ", "CROSS "]), self.tref(),
                                            self.expr(self.pick([1, 1, 2])) if self.c(0.4) else "%s.%s %s %s.%s" % (
                                                self.tname(), self.cname(), self.pick(["=", "<", "<>"]), self.tname(), self.cname()))
        if self.c(0.5):
            s += " WHERE " + self.expr(self.pick([1, 1, 2, 3]))
        if self.c(0.2):
            s += " GROUP BY " + ", ".join(self.name() if self.c(0.85) else self.expr(1) for _ in range(self.r.randrange(1, 3)))
        if self.c(0.06):
            s += " HAVING " + self.expr(self.pick([1, 1, 2]))
        if self.c(0.08):
            s += " ORDER BY " + ", ".join((self.name() if self.c(0.8) else self.expr(1)) + self.pick(["", " DESC", " ASC"])
                                          for _ in range(self.pick([1, 1, 2, 3])))
        if self.c(0.06):
            s += " LIMIT " + (self.pick(["1", "0", "5, 2", "'x'"]) if self.c(0.5) else
                              ", ".join(self.expr(1) for _ in range(self.pick([1, 2]))))
        return s

    ODD = ["nope", "T9", "al.a", "COUNT(*)", "NULL", "'z'", "-1", "1.5", "TRUE", "*", "1", "()", "NOT", "IN (1)", "IS NULL", "+", "LIKE 'a'",
           "= 1", "AND", "CURRENT_TIMESTAMP", "CURRENT_DATE", "(1)", "AS x", "DESC", ","]

    def near(self):
        """a SELECT that is right in every part, of which (mostly) one term is then replaced: such texts get through all the
        checks in front of the one that has to notice"""
        k = min(len(self.tabs), self.pick([1, 1, 1, 2, 2, 3]))
        froms = self.r.sample(self.tabs, k)
        alias = {n: "q%d" % i for i, (n, _) in enumerate(froms)} if self.c(0.25) else {n: n for n, _ in froms}
        lits = {"i": ["0", "1", "3", "-7"], "d": ["1.5", "0.0"], "s": ["'a'", "''"], "t": ["'2020-01-02'"], "b": ["TRUE", "FALSE"],
                "m": ["'2020-01-02 03:04:05'"]}
        kinds = {"INTEGER": "i", "INT": "i", "DOUBLE": "d", "DATE": "t", "DATETIME": "m", "TINYINT": "b"}
        cols = []
        for n, cs in froms:
            for c, t in cs:
                full = "%s.%s" % (alias[n], c)
                short = k == 1 and alias[n] == n and self.c(0.6)
                cols.append((c if short else full, kinds.get(t, "s")))
        cmp_ = lambda: (lambda c: [c[0], self.pick(["=", "<>", "<", ">=", "!="]), self.pick(lits[c[1]])])(self.pick(cols))

        def cond(d):
            if d and self.c(0.4):
                return cond(d - 1) + [self.pick(["AND", "OR", "XOR"])] + cond(d - 1)
            q = self.r.randrange(8)
            if q == 0:
                return [self.pick(cols)[0], "IS", self.pick(["NULL", "NOT NULL"])]
            if q == 1:
                c = self.pick(cols)
                return [c[0], self.pick(["IN", "NOT IN"]), "("] + [self.pick(lits[c[1]])] + [")"]
            if q == 2:
                same = self.pick(cols)
                return [same[0], "=", self.pick([c for c in cols if c[1] == same[1]])[0]]
            if q == 3:
                return ["("] + cond(0) + [")"]
            return cmp_()

        sel = [c[0] for c in self.r.sample(cols, self.r.randrange(1, min(4, len(cols)) + 1))]
        group = self.c(0.45)
        items = list(sel)
        if group and self.c(0.5) or not group and self.c(0.08):
            items.insert(self.r.randrange(len(items) + 1), self.pick(["COUNT(*)", "COUNT(%s)" % self.pick(cols)[0]]))
        star = not group and self.c(0.3)
        out = ["SELECT"]
        if self.c(0.08):
            out.append("DISTINCT")
        if star:
            out.append("*")
        else:
            for i, it in enumerate(items):
                out += ([","] if i else []) + [it]
        out += ["FROM"]
        for i, (n, _) in enumerate(froms):
            ref = [n] if alias[n] == n else [n, "AS", alias[n]]
            if i == 0:
                out += ref
            elif self.c(0.4):
                out += [","] + ref
            else:
                out += ["JOIN"] + ref + ["ON"] + (["%s.%s" % (alias[froms[0][0]], froms[0][1][0][0]), "=", "%s.%s" % (alias[n], self.pick(froms[i][1])[0])]
                                                  if self.c(0.6) else cond(1))
        if self.c(0.5):
            out += ["WHERE"] + cond(2)
        if group:
            out += ["GROUP", "BY"]
            for i, it in enumerate(sel):
                out += ([","] if i else []) + [it]
                if self.c(0.05):
                    out.append(self.pick(["ASC", "DESC"]))
        if self.c(0.15):
            c = self.pick(sel)
            kind = [x[1] for x in cols if x[0] == c][0]
            out += ["HAVING", c, self.pick(["=", ">", "<>"]), self.pick(lits[kind])]
            if self.c(0.3):
                out += [self.pick(["AND", "OR"])] + [c, "IS", "NULL"]
        if self.c(0.25) and not star:
            out += ["ORDER", "BY"]
            for i, it in enumerate(self.r.sample(sel, self.r.randrange(1, len(sel) + 1))):
                out += ([","] if i else []) + [it] + ([self.pick(["ASC", "DESC"])] if self.c(0.4) else [])
        if self.c(0.2):
            out += ["LIMIT"] + (["1"] if self.c(0.6) else ["0", ",", "2"])
        for _ in range(self.pick([0, 1, 1, 1, 2])):
            i = self.r.randrange(1, len(out))
            q = self.r.random()
            other = self.pick([c[0] for c in cols] + [n + "." + c for n, cs in self.tabs for c, _ in cs[:2]] + [c for n, cs in self.tabs for c, _ in cs[:2]])
            new = self.pick(self.ODD) if q < 0.5 else other if q < 0.8 else self.expr(1)
            h = self.r.randrange(10)
            if h < 7:
                out[i] = new
            elif h < 9:
                out.insert(i, new)
            else:
                out.pop(i)
        return " ".join(out) + ";"

    def near_dml(self):
        n, cs = self.pick(self.tabs)
        lits = {"INTEGER": ["1", "0"], "INT": ["1"], "DOUBLE": ["1.5"], "DATE": ["'2020-01-02'"], "DATETIME": ["'2020-01-02 03:04:05'"],
                "TINYINT": ["TRUE"]}
        lit = lambda t: self.pick(lits.get(t, ["'a'"])) if self.c(0.9) else "NULL"
        part = lambda: (lambda c: [self.pick([c[0], c[0], n + "." + c[0]]), self.pick(["=", "<>", ">"]), lit(c[1])])(self.pick(cs)) if self.c(0.7) else \
            [self.pick(cs)[0], "IS", "NULL"] if self.c(0.5) else (lambda c: [c[0], "IN", "(", lit(c[1]), ")"])(self.pick(cs))
        k = self.r.randrange(3)
        if k == 0:
            out = ["INSERT", "INTO", n, "("]
            mine = self.r.sample(cs, self.r.randrange(1, len(cs) + 1)) if self.c(0.5) else list(cs)
            for i, (c, _) in enumerate(mine):
                out += ([","] if i else []) + [c]
            out += [")", "VALUES"]
            for j in range(self.pick([1, 1, 2, 3])):
                out += ([","] if j else []) + ["("]
                for i, (_, t) in enumerate(mine):
                    out += ([","] if i else []) + [lit(t)]
                out.append(")")
        elif k == 1:
            out = ["UPDATE", n, "SET"]
            for i, (c, t) in enumerate(self.r.sample(cs, self.r.randrange(1, min(3, len(cs)) + 1))):
                out += ([","] if i else []) + [c, "=", lit(t)]
        else:
            out = ["DELETE", "FROM", n]
        if k and self.c(0.8):
            out += ["WHERE"] + part()
            for _ in range(self.pick([0, 0, 1, 2])):
                out += [self.pick(["AND", "OR", "XOR"])] + part()
        for _ in range(self.pick([0, 1, 1, 2])):
            i = self.r.randrange(1, len(out))
            q = self.r.random()
            new = self.pick(self.ODD) if q < 0.5 else self.name() if q < 0.75 else self.lit() if q < 0.9 else self.expr(1)
            h = self.r.randrange(10)
            if h < 7:
                out[i] = new
            elif h < 9:
                out.insert(i, new)
            else:
                out.pop(i)
        return " ".join(out) + ";"

    def insert(self):
        n, cols = self.pick(self.tabs)
        s = "INSERT %s%s " % (self.pick(["INTO ", "INTO ", ""]), n if self.c(0.93) else self.tname())
        k = len(cols)
        if self.c(0.4):
            k = self.r.randrange(1, len(cols) + 1)
            s += "(" + ", ".join(x[0] for x in self.r.sample(cols, k)) + ") "
        if self.c(0.05):
            return s + self.select()
        rows = []
        for _ in range(self.pick([1, 1, 2, 3])):
            if self.c(0.06):
                k = max(1, k + self.pick([-1, 1]))
            rows.append("(" + ", ".join(self.ival(2) for _ in range(k)) + ")")
        return s + self.pick(["VALUES ", "VALUE "]) + ", ".join(rows)

    def ival(self, d):
        k = self.r.random()
        if d == 0 or k < 0.7:
            return self.lit()
        if k < 0.8:
            return "(%s)" % self.ival(d - 1)
        if k < 0.85:
            return "- " + self.ival(d - 1)
        return "%s %s %s" % (self.ival(d - 1), self.pick(["+", "-", "*", "/", "%", "MOD", "AND"]), self.ival(d - 1))

    def create(self):
        cs = []
        for _ in range(self.pick([1, 1, 2, 3, 4])):
            c = self.cname() + " " + self.pick(["INTEGER", "INT", "DOUBLE", "DATE", "DATETIME", "TINYINT", "VARCHAR(10)", "VARCHAR(0)",
                                               "VARCHAR(65535)", "VARCHAR(65536)", "VARCHAR", "VARCHAR(-1)", "CHAR(3)", "FLOAT", "INT4"])
            for _ in range(self.pick([0, 0, 1, 2])):
                c += " " + self.pick(["NOT NULL", "NULL", "UNIQUE", "PRIMARY KEY", "AUTO_INCREMENT", "DEFAULT 1"])
            cs.append(c)
        if self.c(0.2):
            cs.insert(self.r.randrange(len(cs) + 1), self.pick(["PRIMARY KEY (%s)", "INDEX (%s)", "INDEX (%s, zz)", "UNIQUE (%s)"]) % self.cname())
        return "CREATE TABLE %s%s (%s)" % (self.pick(["", "", "IF NOT EXISTS ", "IF EXISTS "]),
                                           self.pick(TNAMES) if self.c(0.8) else self.tname(), ", ".join(cs))

    def statement(self):
        k = self.r.random()
        if k < 0.45:
            s = self.select()
        elif k < 0.6:
            s = self.insert()
        elif k < 0.72:
            s = "DELETE FROM " + self.tname() + (" WHERE " + self.expr(self.pick([1, 2, 3])) if self.c(0.9) else "")
        elif k < 0.86:
            s = "UPDATE %s SET " % self.tname() + ", ".join(
                "%s = %s" % (self.cname(), self.lit() if self.c(0.8) else self.expr(1)) for _ in range(self.pick([1, 1, 2])))
            if self.c(0.8):
                s += " WHERE " + self.expr(self.pick([1, 2, 3]))
        elif k < 0.95:
            s = self.create()
        else:
            s = self.pick(["DROP TABLE %s", "ALTER TABLE %s", "EXPLAIN SELECT * FROM %s", "TRUNCATE %s", "BEGIN", "SHOW TABLES", ""])
            s = s % self.tname() if "%s" in s else s
        return s + ";"

    def damage(self, s):
        for _ in range(self.pick([1, 1, 2, 3, 6])):
            k = self.r.randrange(9)
            toks = s.split(" ")
            if k == 0:
                i = self.r.randrange(len(toks))
                toks.pop(i)
            elif k == 1:
                i = self.r.randrange(len(toks))
                toks.insert(i, self.pick(KEYWORDS + OPS))
            elif k == 2:
                i, j = self.r.randrange(len(toks)), self.r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            elif k == 3:
                i = self.r.randrange(len(toks))
                toks[i] = self.pick([self.name(), self.lit(), self.pick(KEYWORDS), self.pick(OPS)])
            elif k == 4:
                i = self.r.randrange(len(toks))
                toks.insert(i, toks[self.r.randrange(len(toks))])
            s = " ".join(toks)
            if k == 5 and s:
                i = self.r.randrange(len(s))
                s = s[:i] + chr(self.r.randrange(1, 256)) + s[i + self.r.randrange(2):]
            elif k == 6 and s:
                s = s[:self.r.randrange(len(s))] + (";" if self.c(0.5) else "")
            elif k == 7:
                i, j = sorted((self.r.randrange(len(s) + 1), self.r.randrange(len(s) + 1)))
                s = s[:i] + s[i:j] * self.pick([0, 2, 3]) + s[j:]
            elif k == 8:
                s = s + " " + self.statement()
        return s

    def soup(self):
        n = self.pick([1, 2, 3, 5, 8, 13, 30])
        return " ".join(self.pick([self.pick(KEYWORDS), self.pick(OPS), self.name(), self.lit(), self.tname()])
                        for _ in range(n)) + (";" if self.c(0.8) else "")

    def bytes_(self):
        n = self.pick([0, 1, 2, 5, 20, 100])
        return "".join(chr(self.r.randrange(1, 256)) for _ in range(n))

    def big(self):
        k = self.r.randrange(6)
        n = self.pick([50, 200, 500])
        t, cols = self.pick(self.tabs)
        c = cols[0][0]
        if k == 0:
            return "DELETE FROM %s WHERE %s%s = 1%s;" % (t, "(" * n, c, ")" * n)
        if k == 1:
            return "SELECT * FROM %s WHERE %s;" % (t, self.pick([" AND ", " OR "]).join("%s = %d" % (c, i) for i in range(n)))
        if k == 2:
            return "INSERT INTO %s VALUES (%s);" % (t, "+".join("1" for _ in range(n)))
        if k == 3:
            return "SELECT * FROM %s WHERE %s IN (%s);" % (t, c, ", ".join(str(i) for i in range(n)))
        if k == 4:
            return "SELECT * FROM %s WHERE %s = '%s';" % (t, c, "x" * n * 20)
        return "INSERT INTO %s VALUES (%s);" % (t, "-" * n + "1")

    def text(self):
        k = self.r.random()
        if k < 0.3:
            return "grammar", self.statement()
        if k < 0.45:
            return "near", self.near()
        if k < 0.55:
            return "near", self.near_dml()
        if k < 0.8:
            return "damaged", self.damage(self.statement())
        if k < 0.9:
            return "tokens", self.soup()
        if k < 0.95:
            return "bytes", self.bytes_()
        return "large", self.big()


class Robust(Prop):
    id = "P11"
    n = {"quick": 5000, "thorough": 160000}
    rule = ("8-14 texts per case sent to a database with 2-3 tables with rows: statements of the whole grammar incl. unsupported "
            "parts, damaged statements (tokens removed, inserted, swapped; bytes changed; cut off), token soup, random bytes, "
            "deeply nested or very long statements. Every text must yield an outcome; a refusal has a message and changes "
            "nothing; a row result changes nothing; an execution changes one table at most, by the reported number of rows; "
            "locks are free; the text handed over is left alone; an INSERT and a SELECT still work. Non-trivial: at least one text was accepted and one refused")

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        for _ in range(g.pick([2, 3])):
            cr = g.create(ncols=g.r.randrange(1, 5), notnull=0.05)
            cr[3] = False
            ops.append(cr)
        tabs = []
        for t in g.w.tables.values():
            fill(g, ops, t, g.pick([0, 1, 2, 3, 5]))
            tabs.append((t.name, [(c.name, c.type) for c in t.cols]))
        w = Wild(g, tabs)
        return {"ops": ops, "texts": [list(w.text()) for _ in range(g.pick([8, 14]))]}

    def seeds(self):
        base = [["create", "A", [["id", "INTEGER", None, []], ["v", "VARCHAR", 10, []]], False, []],
                ["create", "B", [["id", "INTEGER", None, []], ["d", "DATE", None, []]], False, []],
                ["insert", "A", None, [[["l", ["i", 1]], ["l", ["s", "x"]]], [["l", ["i", 2]], ["l", None]]]],
                ["insert", "B", None, [[["l", ["i", 1]], ["l", None]]]]]
        texts = ["SELECT * FROM A WHERE id LIKE 'x';", "SELECT id + 1 FROM A;", "SELECT A.id FROM A AS z;", "SELECT 1;",
                 "SELECT * FROM A WHERE id IN (id);", "SELECT * FROM A, A;", "SELECT * FROM A LEFT JOIN B ON A.id = B.id;",
                 "SELECT id FROM A AS A, B AS A;", "DELETE FROM A WHERE NULL;", "UPDATE A SET id = id WHERE v;", "INSERT INTO A SELECT * FROM A;",
                 "SELECT COUNT(id), v FROM A GROUP BY v;", "SELECT * FROM A WHERE 'x", "SELECT * FROM A /* ", "SELECT * FROM `A`;",
                 "CREATE TABLE c (a VARCHAR(99999999999));", "INSERT INTO A VALUES (99999999999999999999, 'x');",
                 "SELECT CASE WHEN 1 THEN 2 END FROM A;", "SELECT * FROM A WHERE id = 1; SELECT * FROM B;", ";", "", " ",
                 "DELETE FROM A WHERE id = 1 = 1;", "SELECT * FROM A WHERE (id = 1) = TRUE;", "SELECT * FROM A GROUP BY id;"]
        return [{"ops": base, "texts": [["seed", t] for t in texts[i:i + 5]]} for i in range(0, len(texts), 5)]

    # the tables harness/fuzz_sql.c sets up
    FUZZ_OPS = [["create", "A", [["id", "INTEGER", None, []], ["v", "VARCHAR", 10, []], ["f", "DOUBLE", None, []]], False, []],
                ["create", "B", [["id", "INTEGER", None, ["NOT NULL"]], ["d", "DATE", None, []], ["t", "DATETIME", None, []]], False, []],
                ["insert", "A", None, [[["l", ["i", 1]], ["l", ["s", "x"]], ["l", ["d", "3ff8000000000000"]]],
                                       [["l", ["i", 2]], ["l", None], ["l", ["d", "bfe0000000000000"]]], [["l", None], ["l", ["s", ""]], ["l", None]]]],
                ["insert", "B", None, [[["l", ["i", 1]], ["l", ["s", "2020-01-02"]], ["l", None]],
                                       [["l", ["i", 2]], ["l", None], ["l", ["s", "2020-01-02 03:04:05"]]]]]]

    def prepare(self, tier, seed, scale):
        """thorough tier: coverage-guided fuzzing; every input it kept, and every one it failed on, becomes a case"""
        if tier != "thorough":
            return [], None
        import os, re, shutil, subprocess, tempfile
        from .. import build, core
        binary = build.build("fuzz")
        runs = max(200, int(120000 * scale))
        top = tempfile.mkdtemp(prefix="fuzzwork-", dir=build.BUILD)
        try:
            ps = []
            tabs = [("A", [("id", "INTEGER"), ("v", "VARCHAR"), ("f", "DOUBLE")]), ("B", [("id", "INTEGER"), ("d", "DATE"), ("t", "DATETIME")])]
            for k in range(core.WORKERS):
                d = os.path.join(top, str(k))
                os.makedirs(d + "/corpus")
                os.makedirs(d + "/bad")
                g = G(core.case_rng(seed, "fuzz", k))
                w = Wild(g, tabs)
                for j in range(150):
                    with open(d + "/corpus/seed%d" % j, "wb") as f:
                        f.write("\n".join(w.statement().replace("\n", " ") for _ in range(g.pick([1, 1, 2, 3]))).encode("latin-1"))
                log = open(d + "/log", "wb")
                ps.append((d, log, subprocess.Popen(
                    [binary, "-seed=%d" % (seed * 100 + k + 1), "-runs=%d" % runs, "-max_total_time=900", "-max_len=1500", "-len_control=0",
                     "-timeout=20", "-rss_limit_mb=3000", "-close_fd_mask=1", "-artifact_prefix=%s/bad/" % d, d + "/corpus"],
                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log)))
            cases, bad, cov, done = [], 0, 0, 0
            for d, log, p in ps:
                p.wait()
                log.close()
                with open(d + "/log", "rb") as f:
                    t = f.read()
                m = re.findall(rb"cov: (\d+)", t)
                cov = max([cov] + [int(x) for x in m])
                m = re.findall(rb"#(\d+)\t", t)
                done += max([0] + [int(x) for x in m])
                for sub in ("bad", "corpus"):
                    for n in sorted(os.listdir(os.path.join(d, sub))):
                        if n.startswith("seed") or n.startswith("slow-unit"):
                            continue
                        with open(os.path.join(d, sub, n), "rb") as f:
                            x = f.read()
                        if b"\0" in x:
                            continue
                        cases.append({"ops": self.FUZZ_OPS, "texts": [["fuzz", y] for y in x.decode("latin-1").split("\n")[:4]]})
                        bad += sub == "bad"
            seen, uniq = set(), []
            for c in cases:
                h = core.digest(c)
                if h not in seen:
                    seen.add(h)
                    uniq.append(c)
            return uniq, {"engine": "libFuzzer, 8 processes with their own corpora", "inputs_executed": done,
                          "edges_covered_by_best_process": cov, "inputs_kept_and_judged_by_the_full_oracle": len(uniq), "failing_inputs": bad}
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def check(self, case, env):
        w = World()
        lines = []
        for op in case["ops"]:
            try:
                w.apply(op)
            except Reject:
                pass
            except Unclear:
                raise Invalid
            lines.append("Q " + hx(render(op)))
        names = sorted(w.tables)
        if not names:
            raise Invalid
        nset = len(lines)

        def snap_(n_extra=()):
            lines.append("LS")
            for n in names:
                lines.append("D " + hx(n))
        snap_()
        lock = "LOCK " + " ".join(hx(n) for n in names)
        lines.append("TEXT")
        for kind, t in case["texts"]:
            lines.append("Q " + hx(t))
            lines.append(lock)
            snap_()
        lines += ["Q " + hx("CREATE TABLE canary_tbl (a INT, b VARCHAR(9));"), "Q " + hx("INSERT INTO canary_tbl VALUES (5, 'five');"),
                  "Q " + hx("SELECT a, b FROM canary_tbl WHERE a = 5;")]
        o = env.run(lines, cpu=20)
        recs = decode(o.lines)
        i = nset
        for q in recs[:nset]:
            if not isinstance(q, Q) or q.status in (None, ERROR):
                raise Invalid

        def get():
            nonlocal i
            if i >= len(recs):
                return None
            i += 1
            return recs[i - 1]

        def state():
            ls = get()
            if ls is None:
                return None
            d = {}
            for n in names:
                t = get()
                if not isinstance(t, T):
                    return None
                d[n] = Counter(rkey(r) for r in t.rows)
            return set(str(ls).split()[1:]), d
        tags = set()
        prev = state()
        acc = ref = 0
        text = ""
        for kind, text in case["texts"]:
            q = get()
            if q is None:
                break
            lk = get()
            if lk == "TEXT changed":
                return Res("the text handed over was changed: %r" % text, True)
            st = state()
            if lk is None or st is None:
                break
            if not isinstance(q, Q):
                return Res("no outcome for %r" % text, True)
            if q.status is None or q.status not in (OK_ROWS, OK_EXEC, ERROR):
                return Res("no outcome (%r) for: %r" % (q.status, text), True)
            if lk != "LOCK 0 0":
                return Res("a lock is still held after: %r" % text, True)
            if q.status == ERROR:
                ref += 1
                if not q.msg:
                    return Res("refused without a message: %r" % text, True)
                if st != prev:
                    return Res("refused (%s), but the database changed: %r" % (q.msg[:80], text), True)
            else:
                acc += 1
                tags.add("accepted " + kind)
                changed = [n for n in names if st[1][n] != prev[1][n]]
                if q.status == OK_ROWS and (changed or st[0] != prev[0]):
                    return Res("a statement that returns rows changed the database: %r" % text, True)
                if q.status == OK_ROWS and q.end[1] != q.end[2]:
                    return Res("cursor delivered %d of %d rows: %r" % (q.end[1], q.end[2], text), True)
                if len(changed) > 1 or (changed and st[0] != prev[0]):
                    return Res("several tables changed: %r" % text, True)
                if changed:
                    a, b = prev[1][changed[0]], st[1][changed[0]]
                    plus, minus = sum((b - a).values()), sum((a - b).values())
                    if q.naff < max(plus, minus) or (plus != minus and q.naff != abs(plus - minus)) or (plus and minus and plus != minus):
                        return Res("%d rows reported, but %d added and %d removed: %r" % (q.naff, plus, minus, text), True)
            prev = st
        c = o.crash()
        if c:
            return Res("abnormal end: %s, text: %r" % (c, text[:600]), True)
        for k, want in ((OK_EXEC, "CREATE"), (OK_EXEC, "INSERT"), (OK_ROWS, "SELECT")):
            q = get()
            if not isinstance(q, Q) or q.status != k:
                if isinstance(q, Q) and b"canary_tbl" in b"".join(t.encode("latin-1") for _, t in case["texts"]):
                    raise Invalid
                return Res("the database does not work any more: %s gives %r" % (want, q.msg if isinstance(q, Q) else q), True)
        if sorted(q.rows[0], key=repr) != sorted([("i", 5), ("s", b"five")], key=repr) or len(q.rows) != 1:
            return Res("the database does not work any more: wrong row %r" % (q.rows,), True)
        tags.add("accepted and refused" if acc and ref else "only one kind")
        return Res(None, acc > 0 and ref > 0, tags)

    def shrink(self, case):
        ts = case["texts"]
        for k in (len(ts) // 2, 1):
            if k:
                for i in range(0, len(ts), k):
                    yield dict(case, texts=ts[:i] + ts[i + k:])
        for x in hist.shrink({"ops": case["ops"]}):
            yield dict(case, ops=x["ops"])
        if len(ts) <= 2:
            for j, (kind, t) in enumerate(ts):
                toks = t.split(" ")
                for k in (len(toks) // 2, len(toks) // 4, 3, 2, 1):
                    if k:
                        for i in range(0, len(toks), k):
                            yield dict(case, texts=ts[:j] + [[kind, " ".join(toks[:i] + toks[i + k:])]] + ts[j + 1:])
                if len(t) < 120:
                    for i in range(len(t)):
                        yield dict(case, texts=ts[:j] + [[kind, t[:i] + t[i + 1:]]] + ts[j + 1:])

    def text(self, case):
        return hist.text_of(case) + ["-- then: %r" % t[1][:400] for t in case["texts"]]


# ---------------------------------------------------------------------------------------------- spelling
import re
from decimal import Decimal

TOK = re.compile(r"'[^']*'|[A-Za-z_][A-Za-z0-9_]*|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\.\d+(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+|-?\d+"
                 r"|<=|>=|<>|!=|&&|\|\||\s+|.", re.S)
SYN = {"AND": ["AND", "&&"], "OR": ["OR", "||"], "INTEGER": ["INTEGER", "INT", "INT4"], "INT": ["INT", "INTEGER", "INT4"],
       "VALUES": ["VALUES", "VALUE"], "VARCHAR": ["VARCHAR", "VARCHARACTER"]}
KW = set(KEYWORDS) - {"COMMENT", "COLUMN", "CHAR"}


class Speller:
    def __init__(self, rng):
        self.r = rng

    def c(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def case(self, w):
        k = self.r.randrange(4)
        return w.lower() if k == 0 else w.upper() if k == 1 else w.capitalize() if k == 2 else \
            "".join(ch.upper() if self.c(0.5) else ch.lower() for ch in w)

    def comment(self):
        body = "".join(self.pick(["a", " ", "'", ";", "*", '"', "SELECT", "1", "-", "(", "\t", "#", "`", "/", "\n"])
                       for _ in range(self.r.randrange(0, 8)))
        k = self.r.randrange(3)
        line = body.replace("\n", " ")
        if k == 0:
            return "#" + line + "\n"
        if k == 1:
            return "--" + self.pick([" ", "\t"]) + line + "\n"
        body = body.replace("*/", "* /")
        return "/*" + body + (" " if body.endswith("*") else "") + "*/"

    def space(self, must, plain=False):
        s = ""
        for _ in range(self.pick([1, 1, 1, 2, 3])):
            s += self.pick([" ", " ", "\t", "\n"]) if plain or self.c(0.8) else " " + self.comment() + " "
        if not must and self.c(0.5):
            return ""
        return s

    def respell(self, sql):
        toks = [t for t in TOK.findall(sql)]
        words = [t for t in toks if not t.isspace()]
        out = []
        n = len(words)
        # positions that were adjacent in the original text
        for i, w in enumerate(words):
            prev = words[i - 1] if i else None
            new = self.token(w, prev, words[i + 1] if i + 1 < n else None)
            if new is None:
                continue
            if out:
                a, b = out[-1], new
                if a.upper() == "COUNT" and b == "(":
                    pass
                elif a.upper() == "NOT" and b.upper() == "EXISTS":
                    out.append(self.space(True, plain=True))
                else:
                    punct = set("(),;")
                    cmp_ = {"=", "<", ">", "<=", ">=", "<>", "!="}
                    free = a in punct or b in punct or ((a in cmp_) != (b in cmp_)) or a == "." or b == "."
                    if a[-1] in "'\"" and b[0] in "'\"":
                        free = False
                    if a in ("*", "/", "%", "+", "-", "&&", "||") or b in ("*", "/", "%", "+", "-", "&&", "||"):
                        free = (a in "()," or b in "(),;") and a not in ("/", "*") and b not in ("*", "/")
                    if a == "." or b == ".":
                        # names around the dot of a qualified column
                        pass
                    out.append(self.space(not free))
            out.append(new)
        s = "".join(out)
        if self.c(0.2):
            s = self.space(True) + s
        if self.c(0.2):
            s = s + self.space(True)
        return s

    def token(self, w, prev, nxt):
        u = w.upper()
        if w[0] == "'":
            body = w[1:-1]
            if '"' not in body and "\\" not in body and self.c(0.3):
                return '"' + body + '"'
            return w
        if w in ("<>", "!="):
            return self.pick(["<>", "!="])
        if w[0].isdigit() or (w[0] == "-" and len(w) > 1):
            if re.fullmatch(r"-?\d+", w):
                if self.c(0.15):
                    return w.replace("-", "-00") if w[0] == "-" else "00" + w
                return w
            return self.double(w)
        if u == "INTO" and self.c(0.3):
            return None
        if (u == "AS" or u == "INNER") and self.c(0.4):
            return None
        if u in SYN and self.is_kw(u, prev, nxt):
            u2 = self.pick(SYN[u])
            return u2 if u2 in ("&&", "||") else self.case(u2)
        if u in KW:
            return self.case(u)
        if re.match(r"[A-Za-z]", w) and self.c(0.15):
            return "`" + w + "`"
        return w

    def is_kw(self, u, prev, nxt):
        return True

    def double(self, w):
        d = Decimal(w)
        k = self.r.randrange(5)
        if k == 0 and "e" not in w.lower():
            return w + "00"
        if k == 1:
            m, e = ("%e" % 0, 0), 0
            t = d.as_tuple()
            digits = "".join(map(str, t.digits))
            x = ("-" if t.sign else "") + digits + self.pick(["e", "E"]) + self.pick(["", "+"] if t.exponent >= 0 else [""]) + str(t.exponent)
            return x
        if k == 2 and "e" in w.lower():
            return w.replace("e", "E") if "e" in w else w.replace("E", "e")
        if k == 3 and w.startswith("0.") and "e" not in w.lower():
            return w[1:]
        return w


class Spelling(Hist):
    id = "P22"
    n = {"quick": 9000, "thorough": 220000}
    rule = ("statement histories (CREATE, INSERT with arithmetic, UPDATE, DELETE, SELECT, GROUP BY, joins, refused ones) in which "
            "every statement is respelled at random: letter case of keywords, blanks/tabs/newlines added or removed, three "
            "kinds of comments with arbitrary content, synonyms (!= <>, && AND, INT INT4 INTEGER, VALUE VALUES, optional "
            "INTO/AS/INNER), quotes of strings and names, other notations of the same number; outcomes and data must be those "
            "of the model. Non-trivial: rows were stored and a SELECT returned rows or rows were changed")

    def gen(self, rng, tier, i):
        from .meta import history
        g = G(rng)
        ops = []
        history(g, ops, g.pick([4, 8, 12]), tabs_max=2, bad=0.06)
        sp = Speller(rng)
        out = []
        for op in ops:
            if op[0] in ("create", "insert", "delete", "update", "select"):
                out.append(["as", sp.respell(render(op)), op])
            else:
                out.append(op)
        out.append(["dumpall"])
        return {"ops": out}

    def nontriv(self, c, t, case):
        return c["ins"] > 0 and (c["sel"] > 0 or c["upd"] > 0 or c["del"] > 0)

    def shrink(self, case):
        yield from hist.shrink(case)
        ops = case["ops"]
        if len(ops) <= 4:
            for i, op in enumerate(ops):
                if op[0] == "as":
                    t = op[1]
                    plain = render(op[2])
                    if len(t) > len(plain):
                        for a in range(0, len(t)):
                            if t[a] in " \t\n" and a + 1 < len(t) and t[a + 1] in " \t\n":
                                yield dict(case, ops=ops[:i] + [["as", t[:a] + t[a + 1:], op[2]]] + ops[i + 1:])


# ---------------------------------------------------------------------------------------------- grammar
def full_par(e, cond):
    """the same tree with every operator in parentheses"""
    k = e[0]
    if k == "par":
        return full_par(e[1], cond)
    if k in ("and", "or", "xor") or (not cond and k in "+-*/%"):
        return ["par", [k, full_par(e[1], cond), full_par(e[2], cond)]]
    if k == "neg":
        return ["par", ["neg", full_par(e[1], cond)]]
    return ["par", e] if cond else e


class Grammar(Prop):
    id = "P23"
    n = {"quick": 30000, "thorough": 700000}
    rule = ("statements generated as trees with the token stream the parser has to produce (postfix order of the tree, one entry "
            "per clause; CASE, COUNT, CURRENT_DATE, INSERT ... SELECT and SELECT without FROM included) and rendered with only the parentheses the documented precedence makes necessary, with random extra "
            "ones, and fully parenthesised; all must give exactly that stream. Integers over 64 bits and doubles of every "
            "magnitude have to arrive with their exact value. One case in six is executed: nested expressions are inserted, and nested "
            "conditions over a table with all combinations of values and NULL select, delete, update and join, each written "
            "with the needed and with all parentheses, against the model. Non-trivial: at least three operators")

    PRE = {"OR": 1, "XOR": 2, "AND": 3, "IS": 4, "CMP": 7, "+": 11, "-": 11, "*": 12, "/": 12, "%": 12, "NEG": 14}
    CMPS = {"<": 1, ">": 2, "<>": 3, "!=": 3, "=": 4, "<=": 5, ">=": 6}

    def lit(self, g, kinds):
        k = g.pick(kinds)
        if k == "n":
            return ["n", g.pick(NAMES)]
        if k == "q":
            return ["q", g.pick(TNAMES), g.pick(NAMES)]
        if k == "i":
            return ["i", g.clampi(g.int_())]
        if k == "d":
            return ["d", g.dbl()]
        if k == "s":
            return ["s", g.text(30)]
        if k == "b":
            return ["b", g.pick([0, 1, 0, 1, -1])]
        if k == "w":
            return ["now"]
        return ["N"]

    def tree(self, g, d, kind):
        """kind: sel, del, ins"""
        leafs = {"sel": "nnqidsbNnnqidsbNw", "del": "nnidsbN", "ins": "iidsbN"}[kind]
        if d <= 0 or g.chance(0.15):
            return self.lit(g, leafs)
        arith = ["+", "-", "*", "/", "%", "neg"]
        logic = ["and", "or", "xor", "cmp", "cmp", "null", "in"]
        k = g.pick(arith if kind == "ins" else arith + logic + ["like", "mod"] + g.pick([[], ["case", "cnt"]]) if kind == "sel" else logic)
        t = lambda: self.tree(g, d - 1, kind)
        if k == "neg":
            return ["neg", t()]
        if k == "cmp":
            return ["cmp", g.pick(list(self.CMPS)), t(), t()]
        if k == "null":
            return ["null", t(), g.r.randrange(2)]
        if k == "in":
            return ["in", t(), [t() for _ in range(g.pick([1, 2, 3]))], g.r.randrange(2)]
        if k == "like":
            return ["like", t(), t(), g.r.randrange(2)]
        if k == "case":
            return ["case", t() if g.chance(0.4) else None, [[t(), t()] for _ in range(g.pick([1, 1, 2, 3]))], t() if g.chance(0.5) else None]
        if k == "cnt":
            return ["cnt", t()] if g.chance(0.6) else ["cntall"]
        return [k, t(), t()]

    def post(self, e):
        k = e[0]
        if k == "n":
            return ["NAME " + e[1]]
        if k == "q":
            return ["FIELDNAME %s.%s" % (e[1], e[2])]
        if k == "i":
            return ["NUMBER %d" % e[1]]
        if k == "d":
            return [["FLOAT", e[1]]]
        if k == "s":
            return ["STRING '%s'" % e[1]]
        if k == "b":
            return ["BOOL %d" % e[1]]
        if k == "N":
            return ["NULL"]
        if k == "now":
            return ["NOW"]
        if k == "cntall":
            return ["COUNTALL"]
        if k == "cnt":
            return self.post(e[1]) + ["COUNTFIELD"]
        if k == "case":
            return (self.post(e[1]) if e[1] else []) + sum((self.post(a) + self.post(b) for a, b in e[2]), []) + \
                (self.post(e[3]) if e[3] else []) + ["CASE%s %d %d" % ("VAL" if e[1] else "", len(e[2]), bool(e[3]))]
        if k == "neg":
            return self.post(e[1]) + ["NEG"]
        if k == "cmp":
            return self.post(e[2]) + self.post(e[3]) + ["CMP %d" % self.CMPS[e[1]]]
        if k == "null":
            return self.post(e[1]) + ["ISNOTNULL" if e[2] else "ISNULL"]
        if k == "in":
            return self.post(e[1]) + sum((self.post(x) for x in e[2]), []) + ["%s %d" % ("ISNOTIN" if e[3] else "ISIN", len(e[2]))]
        if k == "like":
            return self.post(e[1]) + self.post(e[2]) + ["NOTLIKE" if e[3] else "LIKE"]
        return self.post(e[1]) + self.post(e[2]) + [{"and": "AND", "or": "OR", "xor": "XOR", "+": "ADD", "-": "SUB", "*": "MUL",
                                                      "/": "DIV", "%": "MOD", "mod": "MOD"}[k]]

    def prec(self, e):
        k = e[0]
        return {"and": 3, "or": 1, "xor": 2, "null": 4, "in": 4, "like": 4, "cmp": 7, "neg": 14, "mod": 12}.get(k) or self.PRE.get(k) or 99

    def show(self, e, mode, rng):
        """mode: 0 needed parentheses only, 1 extra ones at random, 2 all"""
        k = e[0]
        if k == "n":
            return e[1]
        if k == "q":
            return "%s.%s" % (e[1], e[2])
        if k == "i":
            return str(e[1])
        if k == "d":
            from ..model import r_float
            return r_float(e[1])
        if k == "s":
            return "'%s'" % e[1]
        if k == "b":
            return ["FALSE", "TRUE", "UNKNOWN"][e[1]]
        if k == "N":
            return "NULL"
        if k == "now":
            return "CURRENT_DATE"
        if k == "cntall":
            return "COUNT(*)"

        def sub(x, need):
            s = self.show(x, mode, rng)
            if need or (mode == 2 and self.prec(x) < 99) or (mode == 1 and rng.random() < 0.3):
                return "(%s)" % s
            return s
        p = self.prec(e)
        if k == "cnt":
            return "COUNT(%s)" % sub(e[1], False)
        if k == "case":
            return "CASE %s%s%s END" % (sub(e[1], False) + " " if e[1] else "",
                                        " ".join("WHEN %s THEN %s" % (sub(a, False), sub(b, False)) for a, b in e[2]),
                                        " ELSE " + sub(e[3], False) if e[3] else "")
        if k == "neg":
            return "- " + sub(e[1], self.prec(e[1]) < p)
        if k == "null":
            return "%s IS %sNULL" % (sub(e[1], self.prec(e[1]) <= 4), "NOT " if e[2] else "")
        if k == "in":
            return "%s %sIN (%s)" % (sub(e[1], self.prec(e[1]) <= 4), "NOT " if e[3] else "", ", ".join(sub(x, False) for x in e[2]))
        if k == "like":
            return "%s %sLIKE %s" % (sub(e[1], self.prec(e[1]) <= 4), "NOT " if e[3] else "", sub(e[2], self.prec(e[2]) <= 4))
        if k == "cmp":
            return "%s %s %s" % (sub(e[2], self.prec(e[2]) < p), e[1], sub(e[3], self.prec(e[3]) <= p))
        w = k.upper() if k.isalpha() else k
        # a postfix condition (IS NULL, IN) may stand on the left of anything weaker, and needs no parentheses on the right of AND/OR/XOR
        return "%s %s %s" % (sub(e[1], self.prec(e[1]) < p), w, sub(e[2], self.prec(e[2]) <= p))

    def truth(self, g, d, q=None):
        """condition over a, b, c that are 0, 1 or NULL"""
        if d > 0 and g.chance(0.9):
            k = g.pick(["and", "or", "xor"])
            x = [k, self.truth(g, d - 1, q), self.truth(g, d - 1, q)]
            return ["par", x] if g.chance(0.2) else x
        f = ["f", q, g.pick("abc")]
        v = lambda: ["l", ["i", g.r.randrange(2)]]
        k = g.r.randrange(10)
        if k < 5:
            op = g.pick(["=", "=", "<>", "!=", "<", ">", "<=", ">="])
            return ["cmp", op, f, v()] if g.chance(0.7) else ["cmp", op, v(), f]
        if k < 6:
            return ["cmp", g.pick(["=", "<>", "<", ">="]), f, ["f", q, g.pick("abc")]]
        if k < 8:
            return ["null", f, g.r.randrange(2)]
        return ["in", f, [v() for _ in range(g.pick([1, 1, 2, 3]))], g.r.randrange(2)]

    def executed(self, g):
        cols = [[n, "INTEGER", None, []] for n in ("id", "a", "b", "c")]
        ops = [["create", "t", cols, False, []]]
        vals = [None, 0, 1]
        lit = lambda v: ["l", None if v is None else ["i", v]]
        cells = [(x, y, z) for x in vals for y in vals for z in vals]
        ops.append(["insert", "t", None, [[lit(n)] + [lit(v) for v in c] for n, c in enumerate(cells)]])
        sel = ["f", None, "id"]
        for _ in range(g.pick([1, 2, 3])):
            c = self.truth(g, g.pick([1, 2, 3, 4]))
            for w in (c, full_par(c, True)):
                ops.append(["select", {"sel": [sel] if g.chance(0.7) else ["COUNT(*)"], "from": [["t", "t", None]], "group": None, "where": w}])
        ops.append(["create", "e", [["id", "INTEGER", None, []], ["i", "INTEGER", None, []], ["d", "DOUBLE", None, []]], False, []])
        for n in range(g.pick([1, 2, 3])):
            rows = []
            for _ in range(g.pick([1, 2])):
                i, d = (g.expr(k, g.pick([1, 2, 3, 4])) for k in "id")
                rows += [[lit(n), i, d], [lit(n), full_par(i, False), full_par(d, False)]]
            ops.append(["insert", "e", None, rows])
        if g.chance(0.4):
            ops.append(["create", "s", cols, False, []])
            ops.append(["insert", "s", None, [[lit(n)] + [lit(v) for v in g.pick(cells)] for n in range(5)]])

            def on(d):
                if d and g.chance(0.8):
                    return [g.pick(["and", "or", "xor"]), on(d - 1), on(d - 1)]
                x, y = ["f", "t", g.pick("abc")], ["f", "s", g.pick("abc")]
                return ["cmp", g.pick(["=", "=", "<>", "<", ">="])] + ([x, y] if g.chance(0.7) else [y, x])
            c = on(g.pick([1, 2, 2, 3]))
            for w in (c, full_par(c, True)):
                ops.append(["select", {"sel": [["f", "t", "id"], ["f", "s", "id"]], "from": [["j", ["t", None], [[["s", None], w, 0]]]],
                                       "group": None, "where": None}])
        for k in g.pick([["update", "delete"], ["update", "update"], ["delete"]]):
            c = self.truth(g, g.pick([1, 2, 3, 4]))
            c = full_par(c, True) if g.chance(0.25) else c
            ops.append(["delete", "t", c] if k == "delete" else ["update", "t", [["id", lit(100 + len(ops))]], c])
        return {"k": "executed", "ops": ops}

    def gen(self, rng, tier, i):
        g = G(rng)
        if i % 6 == 5:
            return self.executed(g)
        d = g.pick([1, 2, 2, 3, 3, 4])
        k = g.pick(["where", "where", "delete", "update", "insert", "insert", "select", "create", "select"])
        if k in ("where", "delete", "update"):
            return {"k": k, "e": self.tree(g, d, "sel" if k == "where" else "del"), "t": g.pick(TNAMES), "c": g.pick(NAMES), "x": rng.random()}
        if k == "insert":
            nc = g.r.randrange(1, 4)
            return {"k": k, "t": g.pick(TNAMES), "cols": [g.pick(NAMES) for _ in range(nc)] if g.chance(0.5) else None,
                    "rows": [[self.tree(g, d, "ins") for _ in range(nc)] for _ in range(g.pick([1, 1, 2, 3]))], "x": rng.random()}
        if k == "create":
            cols = []
            for _ in range(g.r.randrange(1, 6)):
                ty = g.pick(["INTEGER", "DOUBLE", "TINYINT", "DATE", "DATETIME", "VARCHAR"])
                cols.append([g.pick(NAMES), ty, g.r.randrange(1, 65536), [g.pick(["NOT NULL", "NULL", "AUTO_INCREMENT", "UNIQUE", "PRIMARY KEY"])
                                                                      for _ in range(g.pick([0, 0, 1, 2, 3]))]])
            tail = []
            for _ in range(g.pick([0, 0, 1, 2])):
                tail.append([g.pick(["pk", "idx"]), [g.pick(NAMES) for _ in range(g.r.randrange(1, 4))]])
            return {"k": k, "t": g.pick(TNAMES), "cols": cols, "tail": tail, "ifne": g.r.randrange(2), "x": rng.random()}
        s = {"k": k, "distinct": int(g.chance(0.1)), "x": rng.random(), "items": [], "from": [], "into": None}
        if g.chance(0.15):
            s["into"] = [g.pick(TNAMES), [g.pick(NAMES) for _ in range(g.r.randrange(0, 4))]]
        for _ in range(g.pick([0, 1, 2, 3])):
            s["items"].append([g.pick([lambda: self.tree(g, d - 1, "sel"), lambda: ["n", g.pick(NAMES)], lambda: ["q", g.pick(TNAMES), g.pick(NAMES)],
                                       lambda: ["cntall"], lambda: ["cnt", self.tree(g, 1, "sel")]])(),
                               g.pick([None, None, "al"])])
        tref = lambda: [g.pick(TNAMES), g.pick([None, None, "zz", "u1"])]
        for _ in range(g.pick([1, 1, 2, 3])):
            f = [tref(), []]
            for _ in range(g.pick([0, 0, 1, 2])):
                f[1].append([g.pick([["", 1], ["INNER ", 1], ["LEFT ", 2], ["RIGHT ", 4], ["LEFT OUTER ", 8], ["RIGHT OUTER ", 10]]), tref(),
                             self.tree(g, 2, "sel")])
            s["from"].append(f)
        if s["items"] and g.chance(0.08):
            s["from"] = []
            return s
        s["where"] = self.tree(g, d, "sel") if g.chance(0.4) else None
        s["group"] = [self.tree(g, 1, "sel") for _ in range(g.pick([1, 2]))] if g.chance(0.3) else None
        s["having"] = self.tree(g, 2, "sel") if g.chance(0.15) else None
        s["order"] = [[["n", g.pick(NAMES)], g.pick(["", " ASC", " DESC"])] for _ in range(g.pick([1, 2]))] if g.chance(0.2) else None
        s["limit"] = [self.lit(g, "i") for _ in range(g.pick([1, 2]))] if g.chance(0.2) else None
        return s

    def build(self, case, mode):
        import random
        rng = random.Random(case["x"])
        sh = lambda e: self.show(e, mode, rng)
        k = case["k"]
        if k == "where":
            return "SELECT %s FROM %s WHERE %s;" % (case["c"], case["t"], sh(case["e"])), \
                ["NAME " + case["c"], "TABLE " + case["t"]] + self.post(case["e"]) + ["WHERE", "SELECT 0 3", "STMT"]
        if k == "delete":
            return "DELETE FROM %s WHERE %s;" % (case["t"], sh(case["e"])), self.post(case["e"]) + ["WHERE", "DELETEONE " + case["t"], "STMT"]
        if k == "update":
            return "UPDATE %s SET %s = 1 WHERE %s;" % (case["t"], case["c"], sh(case["e"])), \
                ["NUMBER 1", "ASSIGN " + case["c"]] + self.post(case["e"]) + ["WHERE", "UPDATE %s 1 1" % case["t"], "STMT"]
        if k == "insert":
            exp = []
            if case["cols"]:
                exp += ["COLUMN " + c for c in case["cols"]] + ["INSERTCOLS %d" % len(case["cols"])]
            for r in case["rows"]:
                exp += sum((self.post(e) for e in r), []) + ["VALUES %d" % len(r)]
            exp += ["INSERTVALS %d %d %s" % (bool(case["cols"]), len(case["rows"]), case["t"]), "STMT"]
            return "INSERT INTO %s%s VALUES %s;" % (case["t"], " (%s)" % ", ".join(case["cols"]) if case["cols"] else "",
                                                   ", ".join("(%s)" % ", ".join(sh(e) for e in r) for r in case["rows"])), exp
        if k == "create":
            exp, items = [], []
            ty = {"INTEGER": 50000, "DOUBLE": 80000, "TINYINT": 60000, "DATE": 100000, "DATETIME": 110000}
            at = {"NOT NULL": "ATTR NOTNULL", "AUTO_INCREMENT": "ATTR AUTOINC", "UNIQUE": "ATTR UNIQUEKEY", "PRIMARY KEY": "ATTR PRIKEY"}
            for n, t, sz, attrs in case["cols"]:
                exp.append("STARTCOL")
                exp += [at[a] for a in attrs if a != "NULL"]
                exp.append("COLUMNDEF %d %s" % (130000 + sz if t == "VARCHAR" else ty[t], n))
                items.append("%s %s%s" % (n, "VARCHAR(%d)" % sz if t == "VARCHAR" else t, "".join(" " + a for a in attrs)))
            for kk, ns in case["tail"]:
                exp += ["COLUMN " + n for n in ns] + ["%s %d" % ("PRIKEY" if kk == "pk" else "KEY", len(ns))]
                items.append("%s(%s)" % ("PRIMARY KEY " if kk == "pk" else "INDEX ", ", ".join(ns)))
            return "CREATE TABLE %s%s (%s);" % ("IF NOT EXISTS " if case["ifne"] else "", case["t"], ", ".join(items)), \
                [x for x in exp] + ["CREATE %d %d %s" % (case["ifne"], len(items), case["t"]), "STMT"]
        # select
        exp, cnt = [], 0
        sel = []
        for e, al in case["items"]:
            if e[0] == "cntall":
                exp.append("COUNTALL")
                t = "COUNT(*)"
            elif e[0] == "cnt":
                exp += self.post(e[1]) + ["COUNTFIELD"]
                t = "COUNT(%s)" % sh(e[1])
            else:
                exp += self.post(e)
                t = sh(e)
            if al:
                exp.append("ALIAS " + al)
                t += " AS " + al
            sel.append(t)
        if not sel:
            exp.append("SELECTALL")
        cnt += max(1, len(sel))
        frm = []

        def tr(x):
            exp.append("TABLE " + x[0])
            if x[1]:
                exp.append("ALIAS " + x[1])
            return x[0] + (" AS " + x[1] if x[1] else "")
        for first, joins in case["from"]:
            t = tr(first)
            for (word, code), ref, on in joins:
                t += " %sJOIN %s ON %s" % (word, tr(ref), sh(on))
                exp.extend(self.post(on) + ["ONEXPR", "JOIN %d" % code])
            frm.append(t)
        cnt += len(frm)
        txt = "SELECT %s%s%s" % ("DISTINCT " if case["distinct"] else "", ", ".join(sel) or "*", " FROM " + ", ".join(frm) if frm else "")
        if case.get("where"):
            txt += " WHERE " + sh(case["where"])
            exp += self.post(case["where"]) + ["WHERE"]
            cnt += 1
        if case.get("group"):
            txt += " GROUP BY " + ", ".join(sh(e) for e in case["group"])
            exp += sum((self.post(e) for e in case["group"]), []) + ["GROUPBYLIST %d" % len(case["group"])]
            cnt += 1
        if case.get("having"):
            txt += " HAVING " + sh(case["having"])
            exp += self.post(case["having"]) + ["HAVING"]
            cnt += 1
        if case.get("order"):
            txt += " ORDER BY " + ", ".join(sh(e) + d for e, d in case["order"])
            for e, d in case["order"]:
                exp += self.post(e) + ["ORDERBYITEM %d" % (d == " DESC")]
            exp.append("ORDERBYLIST %d" % len(case["order"]))
            cnt += 1
        if case.get("limit"):
            txt += " LIMIT " + ", ".join(sh(e) for e in case["limit"])
            exp += sum((self.post(e) for e in case["limit"]), []) + ["LIMIT %d" % len(case["limit"])]
            cnt += 1
        exp.append("SELECT %d %d" % (2 if case["distinct"] else 0, cnt))
        if case.get("into"):
            t, cols = case["into"]
            txt = "INSERT INTO %s%s %s" % (t, " (%s)" % ", ".join(cols) if cols else "", txt)
            exp = ["COLUMN " + c for c in cols] + (["INSERTCOLS %d" % len(cols)] if cols else []) + exp + ["INSERTSELECT " + t]
        return txt + ";", exp + ["STMT"]

    def ops(self, e):
        return 0 if not isinstance(e, list) else (1 if e and isinstance(e[0], str) and self.prec(e) < 99 else 0) + sum(self.ops(x) for x in e)

    def check(self, case, env):
        if case["k"] == "executed":
            return Res(hist.judge(case, env.run), True, ["executed"])
        built = [self.build(case, m) for m in (0, 1, 2)]
        o = env.run(["P " + hx(t) for t, _ in built])
        c = o.crash()
        for ln, (t, exp) in zip(o.lines, built):
            f = ln.split(" ")
            if f[0] != "P":
                return Res("no parse: %r" % ln)
            got = [bytes.fromhex(x).decode("latin-1") if x != "-" else "" for x in f[2:]]
            if f[1] != "0":
                return Res("does not parse (%s): %s" % (got[-1:], t))
            if len(got) != len(exp):
                return Res("parsed as %r instead of %r: %s" % (got, exp, t))
            for a, b in zip(got, exp):
                if isinstance(b, list):
                    try:
                        ok = a.startswith("FLOAT ") and float(a[6:]) == b[1]
                    except ValueError:
                        ok = False
                    if not ok:
                        return Res("%r instead of the number %r: %s" % (a, b[1], t))
                elif a != b:
                    return Res("parsed as %r instead of %r: %s" % (got, exp, t))
        if c:
            return Res("abnormal end: %s: %s" % (c, built[len(o.lines) % 3][0]))
        n = sum(self.ops(v) for v in case.values() if isinstance(v, list))
        return Res(None, n >= 3 or case["k"] == "create", [case["k"], "operators " + ("0-2" if n < 3 else "3-7" if n < 8 else "8+")])

    def shrink(self, case):
        if case["k"] == "executed":
            for x in hist.shrink(case):
                yield dict(x, k="executed")
            return
        def sub(e):
            if not (isinstance(e, list) and e and isinstance(e[0], str)):
                return
            for i, x in enumerate(e):
                if isinstance(x, list) and x and isinstance(x[0], str):
                    yield x
                    for y in sub(x):
                        yield e[:i] + [y] + e[i + 1:]
        for key, v in case.items():
            if key in ("e", "where", "having") and v:
                if key != "e":
                    yield dict(case, **{key: None})
                for y in sub(v):
                    yield dict(case, **{key: y})
            if key in ("group", "order", "limit") and v:
                yield dict(case, **{key: None})
            if key in ("items", "from", "rows", "tail") and len(v) > 1:
                for i in range(len(v)):
                    yield dict(case, **{key: v[:i] + v[i + 1:]})
            if key == "rows":
                for i, r in enumerate(v):
                    for j, e in enumerate(r):
                        for y in sub(e):
                            yield dict(case, rows=v[:i] + [r[:j] + [y] + r[j + 1:]] + v[i + 1:])

    def text(self, case):
        if case["k"] == "executed":
            return hist.text_of(case)
        t, exp = self.build(case, 0)
        return [t, "-- expected: " + " | ".join(str(x) for x in exp)]


PROPS = [Robust(), Spelling(), Grammar()]
