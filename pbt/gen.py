"""Generators of schemas, values, conditions and statements (all choices come from the rng that is passed in)."""
import math
import copy

from .model import (I64MAX, I64MIN, KIND, Reject, Unclear, World, bf, fb, fmt_date, r_ref, render,
                    strip_par)

NAMES = ["a", "b", "c", "id", "id1", "id_1", "ab", "abc", "name", "val", "x9", "order_1", "selects", "null_x", "dates",
         "T", "Zed", "f_", "counter", "fromage", "wherever", "int_a", "k0", "k00", "in_", "y", "Column1", "tablename",
         "A_B_C_D_E_F_G", "longish_column_name_with_many_characters_0123456789"]
TNAMES = ["t", "t1", "t2", "T10", "users", "orders", "A", "B", "C", "D", "tab_le", "t_1", "selectx", "table1",
          "inventory_of_everything_that_is_kept", "x", "Q7"]
ALIASES = ["al", "zz", "u1", "p", "q_", "alias_long_name"]

INTS = [0, 1, -1, 2, 3, 5, 7, 10, 42, 100, -7, -2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31),
        -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, 1 << 53, I64MAX, I64MIN, I64MAX - 1,
        I64MIN + 1, 4294967295 + 7, 10 ** 15]
DBLS = [0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 0.1, 0.2, 0.30000000000000004, 3.14159, 1e10, 1e15 + 0.5, 1e300, 1e-300, 5e-324,
        2.0, 3.0, 7.25, 100.0, 123456789.123456789, 0.1 + 0.7, 1.0000000000000002, 99999999.5, -1e-5, 1e22, 4294967296.5,
        2147483648.25, -0.0, 1.7976931348623157e308]
EPOCHS = [0, 86400, 951782400, 951868800, 946684800, 1078012800, 1677628800, -86400 * 365, 2147483648, 4102444800,
          1709164800, 1700000000, 1700000001, 1699999999, 1234567890, -2208988800, 253402300799, 3600, 59, 86399, 4294967296,
          1700000000 + (1 << 32), 1700000000 - (1 << 32), 2147483648 + (1 << 32), 86400 + (1 << 32), 1 << 31]
WORDS = ["", "a", "A", "ab", "abc", "b", " ", " a", "a ", "NULL", "null", "select", "0", "1", "1.5", "TRUE", "%", "a%",
         "_", "x,y", "(", ")", "a;b", "--", "#x", "/*", "*", "a b c", "STRING x", "NAME", "hello world", "h\xe9llo", "\xff\x80",
         "2020-01-01", "=", "<>", "t.a", "|", "[a-z]+", "^a$", "tab\there", "\"q\"", "`", "abcabcabc", "'".replace("'", "~"),
         "AND", "x OR 1", "NUMBER 5", "FLOAT 1.0", "s" * 40]


KEYWORDS_ = set("ADD ALL AND AS ASC AUTO_INCREMENT BETWEEN BY CASE CHAR CHARACTER COLUMN COMMENT COUNT CREATE CROSS "
                "CURRENT_DATE DATE DATES DATETIME DELETE DESC DISTINCT DOUBLE ELSE END EXISTS EXPLAIN FALSE FROM GROUP HAVING "
                "IF IN INDEX INNER INSERT INT INT4 INTEGER INTO IS JOIN KEY LEFT LIKE LIMIT MOD NOT NULL ON OR ORDER OUTER "
                "PRIMARY RIGHT SELECT SET TABLE THEN TIME TINYINT TRUE UNIQUE UNKNOWN UPDATE USING VALUE VALUES VARCHAR "
                "VARCHARACTER WHEN WHERE XOR B X".split())


def norm_bits(f):
    return fb(f)


class G:
    def __init__(self, rng):
        self.r = rng
        self.w = World()

    # ---------------------------------------------------------------- names / schemas
    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def count(self, hi, lo=1):
        """lo..hi, now and then many more than that"""
        k = self.r.random()
        if k < 0.9:
            return self.r.randrange(lo, hi + 1)
        if k < 0.975:
            return self.r.randrange(hi + 1, 21)
        return self.pick([31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300])

    def upto(self, most, usual):
        """1..usual, now and then up to most"""
        return self.r.randrange(1, (most if self.chance(0.08) else min(most, usual)) + 1)

    def name(self, pool, taken):
        low = {t.lower() for t in taken}
        if taken and self.chance(0.05):
            # a name that is close to another one
            o = self.pick(sorted(taken))
            k = self.r.randrange(6)
            n = [o + "_", o + "1", o[:-1], o.swapcase(), o + o,
                 (o + "_" * 127)[:self.pick([30, 31, 32, 62, 63, 64, 70, 70, 70, 126])] + self.pick("abc")][k]
            if n and n not in taken and n[0] != "_" and not n[0].isdigit() and len(n) <= 127 and \
                    n.upper() not in KEYWORDS_:
                return n
        for _ in range(50):
            n = self.pick(pool)
            if self.chance(0.1):
                n += "_" + "".join(self.pick("abcxyz0189") for _ in range(self.r.randrange(1, 20)))
            if n.lower() not in low:
                return n
        while True:
            n = "n%d" % self.r.randrange(10 ** 9)
            if n not in low:
                return n

    def table_name(self):
        return self.name(TNAMES, list(self.w.tables) + ALIASES)

    def vlen(self):
        k = self.r.random()
        if k < 0.2:
            return self.r.randrange(1, 4)
        if k < 0.8:
            return self.r.randrange(4, 40)
        if k < 0.97:
            return self.r.randrange(40, 300)
        return self.pick([1000, 4095, 4096, 9999, 65535])

    def column(self, taken, types=None, notnull=0.12):
        t = self.pick(types or ["INTEGER", "INT", "DOUBLE", "TINYINT", "VARCHAR", "VARCHAR", "DATE", "DATETIME",
                                "INTEGER", "DOUBLE"])
        at = []
        if self.chance(notnull):
            at.append("NOT NULL")
        elif self.chance(0.05):
            at.append("NULL")
        return [self.name(NAMES, taken), t, self.vlen() if t == "VARCHAR" else None, at]

    def ncols(self):
        k = self.r.random()
        if k < 0.85:
            return self.r.randrange(1, 7)
        if k < 0.985:
            return self.r.randrange(7, 20)
        return self.r.randrange(20, 129)

    def create(self, name=None, ncols=None, types=None, notnull=0.12):
        name = name or self.table_name()
        cols = []
        for _ in range(ncols or self.ncols()):
            cols.append(self.column([c[0] for c in cols], types, notnull))
        op = ["create", name, cols, self.chance(0.1), []]
        self.w.apply(op)
        return op

    # ---------------------------------------------------------------- values
    def int_(self):
        k = self.r.random()
        if k < 0.45:
            return self.r.randrange(-5, 15)
        if k < 0.8:
            return self.pick(INTS)
        if k < 0.9:
            return self.pick(INTS) + self.r.randrange(-2, 3) if self.chance(0.5) else self.r.randrange(-1000, 1000)
        return self.r.randrange(I64MIN, I64MAX + 1)

    def clampi(self, x):
        return max(I64MIN, min(I64MAX, x))

    def dbl(self):
        k = self.r.random()
        if k < 0.35:
            return self.r.randrange(-8, 16) / 2.0
        if k < 0.8:
            f = self.pick(DBLS)
            return -f if self.chance(0.2) else f
        if k < 0.9:
            return round(self.r.uniform(-1000, 1000), self.r.randrange(0, 12))
        return self.r.uniform(-1, 1) * 10.0 ** self.r.randrange(-30, 30)

    def text(self, cap):
        """text of at most cap characters"""
        k = self.r.random()
        if k < 0.6:
            s = self.pick(WORDS)
        elif k < 0.75:
            s = "".join(self.pick("ab") for _ in range(self.r.randrange(0, 4)))
        elif k < 0.9:
            s = "".join(chr(self.r.choice([self.r.randrange(32, 127), self.r.randrange(160, 256)]))
                        for _ in range(self.r.randrange(0, min(cap, 60) + 1)))
        else:
            n = cap if self.chance(0.6) else self.r.randrange(0, cap + 1)
            s = "".join(self.pick("abcdefgh ") for _ in range(min(n, 300))) if n < 300 else self.pick("xyz") * n
        s = s.replace("'", "~").replace("\\", "/").replace("\n", " ")
        return s[:cap]

    def epoch(self, kind):
        e = self.pick(EPOCHS)
        if self.chance(0.3):
            e = self.r.randrange(-2208988800, 4102444800)
        if kind == "DATE":
            e -= e % 86400
        if e == -1:
            e = 0
        return e

    def value(self, col, nullp=0.12):
        """literal that suits the column"""
        if not col.notnull and self.chance(nullp):
            return ["l", None]
        k = KIND[col.type]
        if k == "i":
            return ["l", ["i", self.clampi(self.int_())]]
        if k == "d":
            return ["l", ["d", fb(self.dbl())]]
        if k == "b":
            return ["l", ["b", self.r.randrange(2)]]
        if k == "s":
            return ["l", ["s", self.text(col.size - 1)]]
        return ["l", ["t", self.epoch(col.type)], col.type]

    def near(self, o, col):
        """a literal of the same type that is easily taken for this one"""
        v = o[1]
        if v is None:
            return o
        if v[0] == "i":
            return ["l", ["i", self.clampi(v[1] + self.pick([1, -1]) * (1 << self.pick([0, 0, 1, 7, 8, 15, 16, 31, 32, 32, 40, 52, 62])))]]
        if v[0] == "d":
            f = bf(v[1])
            k = self.r.randrange(7)
            if k < 2:
                n = math.nextafter(f, self.pick([math.inf, -math.inf]))
            elif k < 6:
                e = 10.0 ** -self.r.randrange(1, 16)
                n = f + self.pick([1, -1]) * (e * abs(f) if k < 4 else e)
            else:
                n = -f
            return ["l", ["d", fb(n)]] if n - n == 0 else o
        if v[0] == "b":
            return ["l", ["b", 1 - v[1]]]
        if v[0] == "s":
            x, cap = v[1], col.size - 1
            if self.chance(0.4) and len(x) < cap:
                # long texts that differ in one place
                x = (x + "".join(self.pick("abc") for _ in range(self.pick([8, 16, 32, 64, 128, 256, 300]))))[:cap]
                return ["l", ["s", x]]
            k = self.r.randrange(6)
            if k == 0 or not x:
                n = x + self.pick(["a", " ", "0", "x"])
            elif k == 1:
                n = x[:-1]
            elif k == 2:
                n = "".join(ch.swapcase() if ch < "\x80" else ch for ch in x)
            elif k == 3:
                n = x[:-1] + ("a" if x[-1] != "a" else "b")
            else:
                i = self.r.randrange(len(x))
                n = x[:i] + ("a" if x[i] != "a" else "b") + x[i + 1:]
            return ["l", ["s", n[:cap]]]
        e = v[1] + self.pick([1, -1]) * (86400 * self.pick([1, 1, 7, 365]) if col.type == "DATE" else
                                         self.pick([1, 1, 60, 3600, 86400, 1 << 32]))
        return ["l", ["t", e], col.type] if -2208988800 <= e <= 253402300799 and e != -1 else o

    def stored(self, col, t):
        """a literal equal (or close) to a stored value, when there is one"""
        i = t.idx(col.name)
        if t.rows:
            rows = t.rows
            if len(rows) > 40 and self.chance(0.5):
                # the first or the last page only
                rows = rows[-8:] if self.chance(0.7) else rows[:8]
            v = self.pick(rows)[i]
            if v is not None:
                if v[0] == "t":
                    return ["l", v, col.type]
                if v[0] == "d" and not (bf(v[1]) - bf(v[1]) == 0):
                    return None
                if v[0] == "s" and ("'" in v[1] or "\\" in v[1] or "\n" in v[1]):
                    return None
                return ["l", v]
        return None

    def cmp_value(self, col, t, nullp=0.0):
        if self.chance(0.65):
            o = self.stored(col, t)
            if o is not None:
                if self.chance(0.1):
                    return self.near(o, col)
                if o[1][0] == "i" and self.chance(0.25):
                    return ["l", ["i", self.clampi(o[1][1] + self.pick([1, -1, 1 << 32, -(1 << 32)]))]]
                if o[1][0] == "s" and self.chance(0.15):
                    s = o[1][1]
                    return ["l", ["s", s[:-1] if self.chance(0.5) else s + "x"]]
                return o
        o = self.value(col, 0.0)
        return o if not self.chance(nullp) else ["l", None]

    # ---------------------------------------------------------------- conditions
    def cond(self, tabs, stmt="SELECT", depth=None, ops_only=False, qual=None):
        """tabs: [(table, alias|None)]; qual: how fields are written: None unqualified, else 'q' always / 'm' mixed"""
        if depth is None:
            depth = self.pick([0, 0, 0, 1, 1, 2, 3])
            if self.chance(0.015):
                return self.chain(tabs, stmt, ops_only, qual)
        if depth > 0 and self.chance(0.85):
            k = self.pick(["and", "or", "and", "or", "xor"])
            c = [k, self.cond(tabs, stmt, depth - 1, ops_only, qual), self.cond(tabs, stmt, depth - 1, ops_only, qual)]
            return ["par", c] if self.chance(0.15) else c
        c = self.leaf(tabs, stmt, ops_only, qual)
        return ["par", c] if self.chance(0.07) else c

    def chain(self, tabs, stmt, ops_only, qual):
        """many terms in a row, of which few decide"""
        k = self.pick(["and", "or", "xor", None])
        c = None
        for _ in range(self.pick([6, 9, 16, 17, 20, 33, 40, 65, 100])):
            x = self.leaf(tabs, stmt, ops_only, qual)
            op = k or self.pick(["and", "or", "or", "xor"])
            if op in ("and", "or") and x[0] == "cmp" and self.chance(0.8):
                # true (false) for most of the rows
                x[1] = self.pick(["<>", "!="]) if op == "and" else "="
            c = x if c is None else [op, c, x]
        return c

    def ref(self, tabs, ti, col, qual):
        t, al = tabs[ti]
        if qual == "q":
            return ["f", al or t.name, col.name]
        unique = sum(1 for u, _ in tabs if u.idx(col.name) is not None) == 1
        if not unique or (qual == "m" and self.chance(0.4)):
            return ["f", al or t.name, col.name]
        return ["f", None, col.name]

    def cmpop(self, col):
        eq = ["=", "=", "<>", "!="]
        if KIND[col.type] in "sb":
            if KIND[col.type] == "b" and self.chance(0.1):
                return self.pick(["<", ">", "<=", ">="])
            return self.pick(eq)
        return self.pick(eq + ["<", "<=", ">", ">=", "<", "<=", ">", ">="])

    def leaf(self, tabs, stmt, ops_only=False, qual=None):
        ti = self.r.randrange(len(tabs))
        t = tabs[ti][0]
        col = self.pick(t.cols)
        f = self.ref(tabs, ti, col, qual)
        k = self.r.random()
        if not ops_only and k < 0.1:
            return ["null", f, int(self.chance(0.5))]
        if not ops_only and k < 0.25:
            vals = [self.cmp_value(col, t, 0.05) for _ in range(self.count(5))]
            return ["in", f, vals, int(self.chance(0.4))]
        if k < 0.4:
            cands = [(i, c) for i, (u, _) in enumerate(tabs) for c in u.cols if c.type == col.type]
            i, c2 = self.pick(cands)
            return ["cmp", self.cmpop(col), f, self.ref(tabs, i, c2, qual)]
        if k < 0.46 and not ops_only:
            kk = self.pick("idbs")
            mk = {"i": lambda: ["l", ["i", self.r.randrange(0, 3)]],
                  "d": lambda: ["l", ["d", fb(self.r.randrange(0, 3) / 2.0)]],
                  "b": lambda: ["l", ["b", self.r.randrange(2)]],
                  "s": lambda: ["l", ["s", self.pick(["", "a", "b", "ab"])]]}[kk]
            if self.chance(0.25):
                # NULL is an operand of the comparison
                x, y = ["l", None], ["l", None]
                if stmt == "SELECT" and self.chance(0.85):
                    x = mk() if self.chance(0.5) else x
                    y = mk() if x[1] is None else y
                return ["cmp", self.pick(["=", "<>", "!="]), x, y]
            op = self.pick(["=", "<>", "<", ">=", "<=", ">", "!="]) if kk in "id" else self.pick(["=", "<>", "!="])
            return ["cmp", op, mk(), mk()]
        v = self.cmp_value(col, t)
        op = self.cmpop(col)
        if self.chance(0.03):
            return ["cmp", self.pick(["=", "<>"]), f, ["l", None]]
        if self.chance(0.25):
            return ["cmp", op, v, f]
        return ["cmp", op, f, v]

    # ---------------------------------------------------------------- INSERT expressions
    def expr(self, kind, depth):
        if depth <= 0 or self.chance(0.2):
            if kind == "i":
                x = self.r.randrange(-9, 20) if self.chance(0.7) else self.clampi(self.int_())
                return ["l", ["i", x]]
            f = self.r.randrange(-8, 16) / 2.0 if self.chance(0.6) else self.dbl()
            return ["l", ["d", fb(f)]]
        k = self.r.random()
        if k < 0.1:
            return ["neg", self.expr(kind, depth - 1)]
        if k < 0.2:
            return ["par", self.expr(kind, depth - 1)]
        return [self.pick("+-*/%"), self.expr(kind, depth - 1), self.expr(kind, depth - 1)]

    # ---------------------------------------------------------------- statements
    def nrows(self, big=0.04):
        k = self.r.random()
        if k < big:
            return self.r.randrange(60, 200)
        if k < 0.5:
            return self.r.randrange(1, 4)
        return self.r.randrange(1, 12)

    def insert(self, t, n=None, arith=0.08, cols=None):
        order = list(range(len(t.cols)))
        names = None
        if cols is not None:
            order = cols
            names = [t.cols[i].name for i in order]
        elif self.chance(0.35):
            must = [i for i, c in enumerate(t.cols) if c.notnull]
            opt = [i for i in order if i not in must and self.chance(0.7)]
            order = must + opt
            if not order:
                order = [self.r.randrange(len(t.cols))]
            self.r.shuffle(order)
            names = [t.cols[i].name for i in order]
        rows = []
        for _ in range(n or self.nrows()):
            row = []
            for i in order:
                c = t.cols[i]
                e = None
                if c.type in ("INTEGER", "DOUBLE") and self.chance(arith):
                    e = self.expr(KIND[c.type], self.pick([1, 1, 2, 3]))
                if e is None and self.chance(0.25):
                    e = self.stored(c, t)
                    if e is not None and self.chance(0.2):
                        e = self.near(e, c)
                row.append(e if e is not None else self.value(c))
            rows.append(row)
        return ["insert", t.name, names, rows]

    def delete(self, t, wherep=0.93, depth=None):
        return ["delete", t.name, self.cond([(t, None)], "DELETE", depth) if self.chance(wherep) else None]

    def update(self, t, wherep=0.9, depth=None):
        k = self.upto(len(t.cols), 4)
        sets = [[c.name, self.value(c) if self.chance(0.7) else (self.stored(c, t) or self.value(c))]
                for c in self.r.sample(t.cols, k)]
        return ["update", t.name, sets, self.cond([(t, None)], "UPDATE", depth) if self.chance(wherep) else None]

    def alias(self, taken=()):
        """an alias; sometimes the name of a table that is not part of the query"""
        others = [n for n in self.w.tables if n not in taken]
        if others and self.chance(0.2):
            return self.pick(others)
        return self.pick(ALIASES)

    def sel_from(self, t, alias):
        return [["t", t.name, alias, int(self.chance(0.5))]]

    def select(self, t, kinds=("star", "fields", "count"), wherep=0.8, alias=0.25):
        al = self.alias([t.name]) if self.chance(alias) else None
        tabs = [(t, al)]
        k = self.pick(kinds)
        s = {"from": self.sel_from(t, al), "where": None, "group": None}
        qual = self.pick([None, None, "q", "m"])
        if k == "star":
            s["sel"] = ["*"]
        elif k == "count":
            s["sel"] = ["COUNT(*)"]
        else:
            cs = self.r.sample(t.cols, self.upto(len(t.cols), 5))
            s["sel"] = [self.ref(tabs, 0, c, qual) for c in cs]
        if self.chance(wherep):
            s["where"] = self.cond(tabs, "SELECT", qual=qual)
        return self.tail(["select", s])

    def tail(self, op):
        """now and then clauses behind the others that leave the set of rows as it is"""
        s = op[1]
        if not self.chance(0.12):
            return op
        refs = [x for x in s["sel"] if isinstance(x, list)]
        t = {}
        if refs and self.chance(0.4):
            t["having"] = self.pick(refs)
        if refs and self.chance(0.6):
            t["order"] = [[x, self.pick(["", " ASC", " DESC"])] for x in self.r.sample(refs, self.r.randrange(1, len(refs) + 1))]
        if self.chance(0.4):
            t["limit"] = self.pick([[1000000], [9223372036854775807], [0, 1000000], [400001]])
        if t:
            s["tail"] = t
        return op

    def group(self, t, wherep=0.4):
        al = self.alias([t.name]) if self.chance(0.15) else None
        tabs = [(t, al)]
        qual = self.pick([None, None, "q"])
        cs = self.r.sample(t.cols, min(len(t.cols), self.pick([1, 1, 1, 2, 2, 3])) if self.chance(0.95) else
                           self.upto(len(t.cols), 8))
        refs = [self.ref(tabs, 0, c, qual) for c in cs]
        sel = list(refs)
        if self.chance(0.75):
            sel.insert(self.r.randrange(len(sel) + 1), "COUNT(*)")
        grp = list(refs)
        if self.chance(0.3):
            self.r.shuffle(grp)
        return self.tail(["select", {"sel": sel, "from": self.sel_from(t, al), "group": grp,
                                     "where": self.cond(tabs, "SELECT", qual=qual) if self.chance(wherep) else None}])

    def join(self, ts, wherep=0.4, mode=None):
        """a query over several tables"""
        mode = mode or self.pick(["comma", "join", "mix"])
        use_alias = self.chance(0.3)
        tabs = []
        als = ALIASES + ["v9", "w_w"]
        self.r.shuffle(als)
        names = [t.name for t in ts]
        if use_alias and self.chance(0.2):
            # every table goes by the name of another one
            als = names[1:] + names[:1]
            tabs = list(zip(ts, als))
        else:
            for t in ts:
                tabs.append((t, als.pop() if use_alias and self.chance(0.7) else None))
        frm = []
        n = len(tabs)
        # the JOINed tables are contiguous and at most one plain table follows them
        jn = 0 if mode == "comma" else n if mode == "join" else self.r.randrange(2, n + 1)
        after = 1 if jn and jn < n and self.chance(0.5) else 0
        first = n - jn - after if jn else n
        plain = lambda t: ["t", t[0].name, t[1], int(self.chance(0.5))]
        for t in tabs[:first]:
            frm.append(plain(t))
        if jn:
            chain = []
            for j in range(first + 1, first + jn):
                chain.append([[tabs[j][0].name, tabs[j][1]], self.on_cond(tabs[first:j + 1]), int(self.chance(0.3))])
            frm.append(["j", [tabs[first][0].name, tabs[first][1]], chain])
            for t in tabs[first + jn:]:
                frm.append(plain(t))
        aliased = any(al for _, al in tabs)
        qual = self.pick(["q", "q", "m", None]) if aliased else self.pick([None, "q", "m"])
        s = {"from": frm, "group": None, "where": None}
        k = self.r.random()
        if k < 0.45:
            s["sel"] = ["*"]
        elif k < 0.65:
            s["sel"] = ["COUNT(*)"]
        else:
            allc = [(i, c) for i, (t, _) in enumerate(tabs) for c in t.cols]
            cs = self.r.sample(allc, self.upto(len(allc), 6))
            s["sel"] = [self.ref(tabs, i, c, qual) for i, c in cs]
            if self.chance(0.25):
                s["group"] = list(s["sel"])
                if self.chance(0.6):
                    s["sel"] = s["sel"] + ["COUNT(*)"]
        if self.chance(wherep):
            s["where"] = self.cond(tabs, "SELECT", qual=qual)
        return self.tail(["select", s])

    def on_cond(self, sub):
        """condition over the tables joined so far; the last one is being added"""
        b, ba = sub[-1]

        def one():
            a, aa = self.pick(sub[:-1])
            pairs = [(i, j) for i, c in enumerate(a.cols) for j, d in enumerate(b.cols) if c.type == d.type]
            if pairs and self.chance(0.9):
                i, j = self.pick(pairs)
                x = ["f", aa or a.name, a.cols[i].name]
                y = ["f", ba or b.name, b.cols[j].name]
                if self.chance(0.3):
                    x, y = y, x
                op = "=" if self.chance(0.7) else self.cmpop(a.cols[i])
                return ["cmp", op, x, y]
            return self.leaf(sub, "SELECT", ops_only=True, qual="q")
        c = one()
        while self.chance(0.25):
            c = [self.pick(["and", "or", "and", "or", "xor"]), c, one()]
        return c

    # ---------------------------------------------------------------- statements that have to be refused
    def bad(self, t):
        """-> (op, why); drawn so that exactly one thing is wrong"""
        w = self.pick(["table", "column", "count", "type", "length", "notnull", "dup", "date", "type_cmp", "order",
                       "syntax", "setcol", "whcol", "exists", "overflow", "inlist", "selcol", "range", "fmath",
                       "strmath", "nullorder", "nullmath", "selects", "groupby", "type_cmp", "whcol", "type", "notnull",
                       "fieldtypes", "litcond", "omit", "joins", "tail", "cut", "cut"])
        return w, self._bad(w, t)

    def wrong_lit(self, col):
        k = KIND[col.type]
        opts = {"i": ["l", ["i", self.r.randrange(0, 9)]], "d": ["l", ["d", fb(1.5)]], "b": ["l", ["b", 1]],
                "s": ["l", ["s", "zz"]]}
        if k == "t":
            return self.pick([opts["i"], opts["d"], opts["b"], opts["s"]])
        return opts[self.pick([x for x in "idbs" if x != k])]

    def good_row(self, t):
        return [self.value(c) for c in t.cols]

    def nonexist_col(self, t):
        return self.name(["zzz", "nope", "idx", "missing_col"], [c.name for c in t.cols])

    def among_sets(self, t, bad, skip):
        """good assignments with the bad one somewhere among them"""
        sets = [[c.name, self.value(c)] for j, c in enumerate(t.cols) if j != skip and self.chance(0.4)]
        self.r.shuffle(sets)
        sets.insert(self.r.randrange(len(sets) + 1), bad)
        return sets

    def somewhere(self, t, cond):
        """a statement that has the condition in it"""
        for _ in range(self.pick([0, 0, 1, 1, 2, 3])):
            other = self.cond([(t, None)], "ANY", self.pick([0, 0, 1]))
            pair = [cond, other] if self.chance(0.5) else [other, cond]
            cond = [self.pick(["and", "or", "and", "or", "xor"])] + pair
            if self.chance(0.2):
                cond = ["par", cond]
        k = self.r.random()
        if k < 0.3:
            return ["delete", t.name, cond]
        if k < 0.6:
            return ["update", t.name, [[c.name, self.value(c)] for c in self.r.sample(t.cols, 1)], cond]
        frm = [["t", t.name, None, 0]]
        if k < 0.75:
            return ["select", {"sel": ["*"], "from": frm, "where": cond}]
        if k < 0.9:
            return ["select", {"sel": ["COUNT(*)"], "from": frm, "where": cond}]
        f = ["f", None, self.pick(t.cols).name]
        return ["select", {"sel": [f, "COUNT(*)"], "from": frm, "group": [f], "where": cond}]

    def _bad(self, w, t):
        cols = t.cols
        if w == "table":
            n = self.name(["nope", "missing", "tt", "t99"], list(self.w.tables) + ALIASES)
            return self.pick([["insert", n, None, [[["l", ["i", 1]]]]], ["delete", n, None],
                              ["update", n, [[cols[0].name, ["l", None]]], None],
                              ["select", {"sel": ["*"], "from": [["t", n, None, 0]]}]])
        if w == "column":
            names = [c.name for c in cols]
            names[self.r.randrange(len(names))] = self.nonexist_col(t)
            return ["insert", t.name, names, [self.good_row(t)]]
        if w == "dup":
            names = [c.name for c in cols] + [cols[0].name]
            return ["insert", t.name, names, [self.good_row(t) + [self.value(cols[0])]]]
        if w == "count":
            r = self.good_row(t)
            if len(r) > 1 and self.chance(0.5):
                r.pop()
            else:
                r.append(["l", ["i", 1]])
            rows = [self.good_row(t) for _ in range(self.r.randrange(0, 3))]
            rows.insert(self.r.randrange(len(rows) + 1), r)
            return ["insert", t.name, None, rows]
        if w in ("type", "length", "notnull", "date", "overflow", "range", "fmath", "strmath", "nullmath"):
            i = self.r.randrange(len(cols))
            if w == "length":
                c = [i for i, c in enumerate(cols) if c.type == "VARCHAR"]
            elif w == "notnull":
                c = [i for i, c in enumerate(cols) if c.notnull]
            elif w == "date":
                c = [i for i, c in enumerate(cols) if c.type in ("DATE", "DATETIME")]
            elif w in ("overflow", "range"):
                c = [i for i, c in enumerate(cols) if c.type == "INTEGER"]
            elif w in ("fmath", "nullmath"):
                c = [i for i, c in enumerate(cols) if c.type in ("DOUBLE", "INTEGER")]
            elif w == "strmath":
                c = [i for i, c in enumerate(cols) if c.type not in ("DOUBLE", "INTEGER")]
            else:
                c = [i]
            if not c:
                return None
            i = self.pick(c)
            col = cols[i]
            if w == "type":
                bad = self.wrong_lit(col)
            elif w == "length":
                bad = ["l", ["s", "x" * (col.size + self.pick([0, 0, 1, 5, 100]))]]
            elif w == "notnull":
                bad = ["l", None]
            elif w == "date":
                bad = ["l", ["s", self.pick(["", "zz", "yesterday", "x2020-01-01"]) or "no"]]
            elif w == "overflow":
                bad = self.pick([["+", ["l", ["i", I64MAX]], ["l", ["i", 1]]], ["-", ["l", ["i", I64MIN]], ["l", ["i", 1]]],
                                 ["*", ["l", ["i", 1 << 40]], ["l", ["i", 1 << 30]]],
                                 ["/", ["l", ["i", I64MIN]], ["l", ["i", -1]]], ["neg", ["l", ["i", I64MIN]]]])
            elif w == "range":
                bad = ["l", ["i", self.pick([I64MAX + 1, I64MIN - 1, 10 ** 25])]]
            elif w == "fmath":
                bad = ["+", ["l", ["i", 1]], ["l", ["d", fb(1.5)]]]
            elif w == "nullmath":
                one = ["l", ["i", 1]] if col.type == "INTEGER" else ["l", ["d", fb(1.0)]]
                bad = ["+", one, ["l", None]]
            else:
                bad = ["+", ["l", ["i", 1]], ["l", ["i", 2]]]
            if w in ("type", "length", "notnull", "date") and self.chance(0.4):
                return ["update", t.name, self.among_sets(t, [col.name, bad], i),
                        None if self.chance(0.6) else self.cond([(t, None)], "UPDATE")]
            rows = [self.good_row(t) for _ in range(self.r.randrange(0, 4))]
            r = self.good_row(t)
            r[i] = bad
            rows.insert(self.r.randrange(len(rows) + 1), r)
            if self.chance(0.35):
                # the columns listed in another order, some left out
                keep = [j for j, c in enumerate(cols) if c.notnull or j == i or self.chance(0.7)]
                self.r.shuffle(keep)
                return ["insert", t.name, [cols[j].name for j in keep], [[x[j] for j in keep] for x in rows]]
            return ["insert", t.name, None, rows]
        if w == "omit":
            c = [i for i, c in enumerate(cols) if c.notnull]
            if not c or len(cols) < 2:
                return None
            i = self.pick(c)
            keep = [j for j, c in enumerate(cols) if j != i and (c.notnull or self.chance(0.7))]
            if not keep:
                return None
            self.r.shuffle(keep)
            return ["insert", t.name, [cols[j].name for j in keep],
                    [[self.value(cols[j]) for j in keep] for _ in range(self.r.randrange(1, 4))]]
        if w == "type_cmp":
            c = self.pick(cols)
            cond = ["cmp", self.pick(["=", "<>", "="]), ["f", None, c.name], self.wrong_lit(c)]
            k = self.r.random()
            if k < 0.25:
                cond = ["cmp", cond[1], cond[3], cond[2]]
            elif k < 0.55:
                vals = [self.cmp_value(c, t) for _ in range(self.r.randrange(0, 4))]
                vals.insert(self.r.randrange(len(vals) + 1), self.wrong_lit(c))
                cond = ["in", ["f", None, c.name], vals, int(self.chance(0.5))]
            return self.somewhere(t, cond)
        if w == "fieldtypes":
            pairs = [(a, b) for a in cols for b in cols if KIND[a.type] != KIND[b.type]]
            if not pairs:
                return None
            a, b = self.pick(pairs)
            return self.somewhere(t, ["cmp", self.pick(["=", "<>", "<"]), ["f", None, a.name], ["f", None, b.name]])
        if w == "litcond":
            # IS NULL and IN need a field
            one = ["l", ["i", self.r.randrange(3)]]
            return self.somewhere(t, self.pick([["null", one, int(self.chance(0.5))], ["null", ["l", None], 0],
                                                ["in", one, [["l", ["i", 1]], ["l", ["i", 2]]], int(self.chance(0.5))],
                                                ["cmp", "=", ["l", ["i", 1]], ["l", ["s", "a"]]],
                                                ["cmp", "<", ["l", ["d", fb(1.0)]], ["l", ["i", 2]]],
                                                ["cmp", "=", ["l", ["b", 1]], ["l", ["i", 1]]]]))
        if w == "order":
            c = [c for c in cols if c.type == "VARCHAR"]
            if not c:
                return None
            f = ["f", None, self.pick(c).name]
            x = ["l", ["s", self.pick(["m", "", "a"])]] if self.chance(0.8) else ["f", None, self.pick(c).name]
            op = self.pick(["<", ">", "<=", ">="])
            return self.somewhere(t, ["cmp", op, f, x] if self.chance(0.7) else ["cmp", op, x, f])
        if w == "nullorder":
            f = ["f", None, self.pick(cols).name]
            op = self.pick(["<", ">", "<=", ">="])
            return self.somewhere(t, ["cmp", op, f, ["l", None]] if self.chance(0.6) else ["cmp", op, ["l", None], f])
        if w == "syntax":
            s = self.pick(["SELECT FROM %s;", "DELETE %s;", "INSERT INTO %s VALUES ();", "UPDATE %s SET;",
                           "SELECT * FROM %s WHERE;", "SELECT * FROM %s", "DELETE FROM %s WHERE ( ;", "INSERT %s (;",
                           "UPDATE %s SET a == 1;", "SELECT * FROM %s WHERE a = 'x;", "SELECT * FROM %s WHERE a = @;",
                           "DELETE FROM %s WHERE a = 1 /* ;", "CREATE TABLE %s_n (a VARCHAR(0));", "DROP TABLE %s;",
                           "CREATE TABLE %s_n (a VARCHAR(65536));", "CREATE TABLE %s_n ();", "%s;"])
            return ["rawbad", s % t.name]
        if w == "setcol":
            return ["update", t.name, self.among_sets(t, [self.nonexist_col(t), self.pick([["l", ["i", 1]], ["l", None]])], -1),
                    None if self.chance(0.6) else self.cond([(t, None)], "UPDATE")]
        if w == "whcol":
            f = ["f", None, self.nonexist_col(t)]
            return self.somewhere(t, self.pick([["cmp", "=", f, ["l", ["i", 1]]], ["cmp", "<>", ["l", ["i", 1]], f],
                                                ["null", f, int(self.chance(0.5))],
                                                ["in", f, [["l", ["i", 1]], ["l", ["i", 2]]], int(self.chance(0.5))],
                                                ["cmp", "=", f, ["f", None, self.pick(cols).name]]]))
        if w == "selcol":
            al = self.alias([t.name]) if self.chance(0.3) else None
            sel = [self.ref([(t, al)], 0, c, self.pick([None, "q"])) for c in self.r.sample(cols, self.r.randrange(0, len(cols) + 1))]
            badf = ["f", self.pick([None, al or t.name]), self.nonexist_col(t)]
            if al and self.chance(0.4):
                # the table goes by its alias only
                badf = ["f", t.name, self.pick(cols).name]
            grp = None
            if sel and self.chance(0.3):
                grp = list(sel)
                (grp if self.chance(0.5) else sel).insert(self.r.randrange(len(sel) + 1), badf)
            else:
                sel.insert(self.r.randrange(len(sel) + 1), badf)
            return ["select", {"sel": sel, "from": self.sel_from(t, al), "group": grp}]
        if w == "joins":
            others = [u for u in self.w.tables.values() if u is not t]
            if not others:
                return None
            u = self.pick(others)
            both = [c.name for c in cols if u.idx(c.name) is not None]
            k = self.r.random()
            good = ["cmp", "=", ["l", ["i", 1]], ["l", ["i", 1]]]
            if both and k < 0.35:
                n = self.pick(both)
                where = ["null", ["f", None, n], 0] if self.chance(0.5) else None
                return ["select", {"sel": ["COUNT(*)"] if where else [["f", None, n]], "where": where,
                                   "from": [["t", t.name, None, 0], ["t", u.name, None, 0]]}]
            if k < 0.6:
                on = ["cmp", "=", ["f", t.name, self.pick(cols).name], ["f", u.name, self.nonexist_col(u)]]
            elif k < 0.8:
                pairs = [(a, b) for a in cols for b in u.cols if KIND[a.type] != KIND[b.type]]
                if not pairs:
                    return None
                a, b = self.pick(pairs)
                on = ["cmp", "=", ["f", t.name, a.name], ["f", u.name, b.name]]
                if self.chance(0.5):
                    on = ["cmp", "=", on[3], on[2]]
            else:
                c = self.pick(u.cols)
                on = ["cmp", "=", ["f", u.name, c.name], self.wrong_lit(c)]
            if self.chance(0.4):
                on = [self.pick(["and", "or"])] + ([good, on] if self.chance(0.5) else [on, good])
            return ["select", {"sel": ["*"] if self.chance(0.5) else ["COUNT(*)"],
                               "from": [["j", [t.name, None], [[[u.name, None], on, 0]]]]}]
        if w == "exists":
            k = self.r.random()
            if k < 0.4:
                return ["create", t.name, [["a", "INTEGER", None, []]], False, []]
            n = self.name(["nt", "nt2"], list(self.w.tables) + ALIASES)
            if k < 0.6:
                return ["create", n, [["a", "INTEGER", None, []], ["b", "DOUBLE", None, []], ["a", "DATE", None, []]],
                        False, []]
            if k < 0.8:
                return ["create", n, [["a", "INTEGER", None, []]], False, [[self.pick(["pk", "idx"]), ["zz"]]]]
            return ["create", n, [["c%d" % i, "INTEGER", None, []] for i in range(129)], False, []]
        if w == "inlist":
            c = self.pick(cols)
            vals = [self.cmp_value(c, t) for _ in range(self.r.randrange(0, 3))]
            vals.insert(self.r.randrange(len(vals) + 1), ["f", None, self.pick(cols).name])
            return self.somewhere(t, ["in", ["f", None, c.name], vals, int(self.chance(0.4))])
        if w == "groupby":
            if len(cols) < 2:
                return None
            a, b = self.r.sample(cols, 2)
            return ["rawbad", "SELECT %s, %s FROM %s GROUP BY %s;" % (a.name, b.name, t.name, a.name)]
        if w == "cut":
            # any statement, broken off or with something in it that fits nowhere
            k = self.r.randrange(6)
            if k == 0:
                op = ["insert", t.name, [c.name for c in cols] if self.chance(0.4) else None, [self.good_row(t) for _ in range(self.r.randrange(1, 4))]]
            elif k == 1:
                op = ["update", t.name, [[c.name, self.value(c)] for c in self.r.sample(cols, self.r.randrange(1, min(4, len(cols)) + 1))],
                      self.cond([(t, None)], "UPDATE") if self.chance(0.7) else None]
            elif k == 2:
                op = ["delete", t.name, self.cond([(t, None)], "DELETE") if self.chance(0.8) else None]
            elif k == 3:
                n = self.name(["nt", "nt2"], list(self.w.tables) + ALIASES)
                op = ["create", n, [list(c) for c in [self.column(["%d" % i], None, 0.2) for i in range(self.r.randrange(1, 5))]], self.chance(0.3), []]
            else:
                op = self.select(t) if k == 4 else self.group(t)
            s = render(op)[:-1]
            if self.chance(0.6):
                return ["rawbad", s[:self.r.randrange(1, len(s) + 1)]]
            return ["rawbad", s + self.pick([" )", " SELECT", ", ,", " AND AND", " (", " ) VALUES", "; )"]) + self.pick([";", ";", ""])]
        if w == "tail":
            al = self.alias([t.name]) if self.chance(0.3) else None
            tabs = [(t, al)]
            n = self.nonexist_col(t)
            q = self.r.random()
            if q < 0.5:
                f = n
            elif q < 0.75:
                f = "%s.%s" % (al or t.name, n)
            elif al:
                f = "%s.%s" % (t.name, self.pick(cols).name)
            else:
                f = "%s.%s" % (self.name(["zq", "tq9"], list(self.w.tables)), self.pick(cols).name)
            s = {"sel": [self.ref(tabs, 0, c, self.pick([None, "q"])) for c in self.r.sample(cols, self.r.randrange(1, min(4, len(cols)) + 1))],
                 "from": self.sel_from(t, al), "where": self.cond(tabs, "SELECT") if self.chance(0.3) else None}
            if self.chance(0.3):
                s["group"] = list(s["sel"])
            good = [r_ref(x) for x in s["sel"]]
            xs = self.r.sample(good, self.r.randrange(0, len(good) + 1))
            xs.insert(self.r.randrange(len(xs) + 1), f)
            k = self.r.randrange(3)
            if k == 0:
                bad = "ORDER BY " + ", ".join(x + self.pick(["", "", " DESC"]) for x in xs)
            elif k == 1:
                one = lambda x: self.pick(["%s IS NULL", "%s IS NOT NULL", "%s = NULL"]) % x
                bad = "HAVING " + " AND ".join(one(x) for x in xs)
            else:
                bad = "LIMIT " + self.pick(["%s", "%s, 1", "1, %s", "1 + %s", "- %s", "(%s)", "%s IS NULL"]) % (f if self.chance(0.7) else good[0])
            s["tail"] = {"bad": bad}
            return ["select", s]
        if w == "selects":
            c = cols[0].name
            return ["rawbad", self.pick(["SELECT * FROM %s WHERE %s LIKE 'a';" % (t.name, c),
                                         "SELECT * FROM %s, %s;" % (t.name, "no_such_table_"),
                                         "SELECT zq.%s FROM %s;" % (c, t.name)])]
        return None

    # ---------------------------------------------------------------- helpers
    def put(self, ops, op):
        """adds op when the model can speak about it; applies it"""
        snap = None
        try:
            self.w.apply(op)
        except Unclear:
            return False
        except Reject:
            pass
        ops.append(op)
        return True
