"""Reference model of MidoriDB's SQL: an independent interpreter over plain Python lists.

Everything is JSON: values, operands, conditions, statements (so that cases can be stored, shrunk and replayed).

value    None | ["i", int] | ["d", "<16 hex digits of the IEEE bits>"] | ["s", str] | ["b", 0|1] | ["t", epoch]
operand  ["f", qualifier|None, column] | ["l", value] | ["l", ["t", epoch], "DATE"|"DATETIME"]
cond     ["cmp", op, operand, operand] | ["null", operand, negated] | ["in", operand, [operand...], negated]
         | ["and"|"or"|"xor", cond, cond] | ["par", cond]
expr     ["l", value] | ["+"|"-"|"*"|"/"|"%", expr, expr] | ["neg", expr] | ["par", expr]     (INSERT values)
"""
import calendar
import math
import struct
import time

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1


class Unclear(Exception):
    """the statement is outside of the domain the model speaks about"""


class Reject(Exception):
    """the statement has to be refused"""


def fb(f):
    return struct.pack(">d", f).hex()


def bf(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


# ------------------------------------------------------------------ rendering
def fmt_date(epoch, kind):
    t = time.gmtime(epoch)
    d = "%04d-%02d-%02d" % (t.tm_year, t.tm_mon, t.tm_mday)
    return d if kind == "DATE" else d + " %02d:%02d:%02d" % (t.tm_hour, t.tm_min, t.tm_sec)


def parse_date(s, kind):
    """epoch, or None when the text isn't a (strictly formatted, real) date"""
    try:
        t = time.strptime(s, "%Y-%m-%d" if kind == "DATE" else "%Y-%m-%d %H:%M:%S")
    except ValueError:
        return None
    return calendar.timegm(t)


def r_float(f):
    s = repr(f)
    return s


def r_lit(o):
    v = o[1]
    if v is None:
        return "NULL"
    k, x = v
    if k == "i":
        return str(x)
    if k == "d":
        return r_float(bf(x))
    if k == "s":
        return "'%s'" % x
    if k == "b":
        return "TRUE" if x else "FALSE"
    return "'%s'" % fmt_date(x, o[2])


def r_ref(o):
    return "%s.%s" % (o[1], o[2]) if o[1] else o[2]


def r_operand(o):
    return r_ref(o) if o[0] == "f" else r_lit(o)


PREC = {"or": 1, "xor": 2, "and": 3, "null": 4, "in": 4, "cmp": 5, "par": 9}


def r_cond(c):
    k = c[0]
    if k == "par":
        return "(%s)" % r_cond(c[1])
    if k == "cmp":
        return "%s %s %s" % (r_operand(c[2]), c[1], r_operand(c[3]))
    if k == "null":
        return "%s IS %sNULL" % (r_operand(c[1]), "NOT " if c[2] else "")
    if k == "in":
        return "%s %sIN (%s)" % (r_operand(c[1]), "NOT " if c[3] else "", ", ".join(r_operand(x) for x in c[2]))
    a, b = r_cond(c[1]), r_cond(c[2])
    if PREC[c[1][0]] < PREC[k]:
        a = "(%s)" % a
    if PREC[c[2][0]] <= PREC[k]:
        b = "(%s)" % b
    return "%s %s %s" % (a, k.upper(), b)


EPREC = {"+": 1, "-": 1, "*": 2, "/": 2, "%": 2, "neg": 4, "l": 9, "par": 9}


def r_expr(e):
    k = e[0]
    if k == "l":
        return r_lit(e)
    if k == "par":
        return "(%s)" % r_expr(e[1])
    if k == "neg":
        a = r_expr(e[1])
        return "- %s" % (a if EPREC[e[1][0]] >= 4 else "(%s)" % a)
    a, b = r_expr(e[1]), r_expr(e[2])
    if EPREC[e[1][0]] < EPREC[k]:
        a = "(%s)" % a
    if EPREC[e[2][0]] <= EPREC[k]:
        b = "(%s)" % b
    return "%s %s %s" % (a, k, b)


def r_type(col):
    return "VARCHAR(%d)" % col[2] if col[1] == "VARCHAR" else col[1]


def r_from(f):
    def tf(t):
        return t[0] + (" %s%s" % ("AS " if t[2:] and t[2] else "", t[1]) if t[1] else "")
    out = []
    for it in f:
        if it[0] == "t":
            out.append(tf(it[1:]))
        else:
            out.append(tf(it[1]) + "".join(" %sJOIN %s ON %s" % ("INNER " if inner else "", tf(t), r_cond(c))
                                           for t, c, inner in it[2]))
    return ", ".join(out)


def r_select(s):
    sel = []
    for x in s["sel"]:
        sel.append(x if isinstance(x, str) else r_ref(x))
    q = "SELECT %s FROM %s" % (", ".join(sel), r_from(s["from"]))
    if s.get("where"):
        q += " WHERE " + r_cond(s["where"])
    if s.get("group"):
        q += " GROUP BY " + ", ".join(r_ref(x) for x in s["group"])
    # clauses that leave the rows as they are: a tautology, an order, a limit beyond the number of rows (and, under "bad", ones
    # that name something that doesn't exist)
    t = s.get("tail") or {}
    if t.get("having") and t["having"] in s["sel"]:
        r = r_ref(t["having"])
        q += " HAVING %s IS NULL OR %s IS NOT NULL" % (r, r)
    order = [r_ref(x) + d for x, d in t.get("order") or [] if x in s["sel"]]
    if order and "COUNT(*)" not in s["sel"]:
        q += " ORDER BY " + ", ".join(order)
    if t.get("limit"):
        q += " LIMIT %s" % ", ".join("%d" % x for x in t["limit"])
    if t.get("bad"):
        q += " " + t["bad"]
    return q + ";"


def render(op):
    k = op[0]
    if k == "create":
        items = ["%s %s%s" % (c[0], r_type(c), "".join(" " + a for a in c[3])) for c in op[2]]
        for t in op[4] if len(op) > 4 else []:
            items.append("%s(%s)" % ("PRIMARY KEY " if t[0] == "pk" else "INDEX ", ", ".join(t[1])))
        return "CREATE TABLE %s%s (%s);" % ("IF NOT EXISTS " if op[3] else "", op[1], ", ".join(items))
    if k == "insert":
        return "INSERT INTO %s%s VALUES %s;" % (op[1], " (%s)" % ", ".join(op[2]) if op[2] is not None else "",
                                               ", ".join("(%s)" % ", ".join(r_expr(e) for e in r) for r in op[3]))
    if k == "delete":
        return "DELETE FROM %s%s;" % (op[1], " WHERE " + r_cond(op[2]) if op[2] else "")
    if k == "update":
        return "UPDATE %s SET %s%s;" % (op[1], ", ".join("%s = %s" % (c, r_lit(v)) for c, v in op[2]),
                                       " WHERE " + r_cond(op[3]) if op[3] else "")
    if k == "select":
        return r_select(op[1])
    if k in ("raw", "rawbad", "maybe"):
        return op[1]
    raise AssertionError(k)


# ------------------------------------------------------------------ evaluation
def cmp_vals(op, a, b):
    if a is None or b is None:
        return False
    k = a[0]
    if k == "d":
        x, y = bf(a[1]), bf(b[1])
    else:
        x, y = a[1], b[1]
    if k == "b" and op not in ("=", "<>", "!="):
        return False  # TINYINT has no order (pinned by the project's own tests)
    return {"=": x == y, "<>": x != y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


KIND = {"INTEGER": "i", "INT": "i", "DOUBLE": "d", "TINYINT": "b", "VARCHAR": "s", "DATE": "t", "DATETIME": "t"}
NORM = {"INT": "INTEGER"}
NAME_MAX = 128


class Col:
    __slots__ = ("name", "type", "size", "notnull", "unique", "pk", "autoinc", "indexed")

    def __init__(self, c):
        self.name, self.type, self.size = c[0], NORM.get(c[1], c[1]), c[2]
        at = c[3]
        self.pk = "PRIMARY KEY" in at
        self.notnull = self.pk or "NOT NULL" in at
        self.unique = self.pk or "UNIQUE" in at
        self.autoinc = "AUTO_INCREMENT" in at
        self.indexed = False


class Table:
    def __init__(self, name, cols):
        self.name, self.cols, self.rows = name, cols, []

    def idx(self, name):
        for i, c in enumerate(self.cols):
            if c.name == name:
                return i
        return None


def num_norm(v):
    """integer literal range"""
    return v


def check_lit(col, o, where):
    """value stored/compared for a literal; raises Reject when its type doesn't suit the column"""
    v = o[1]
    if v is None:
        return None
    k = v[0]
    if k == "i":
        if not I64MIN <= v[1] <= I64MAX:
            raise Reject("range")
        if col.type != "INTEGER":
            raise Reject("type")
    elif k == "d":
        if col.type != "DOUBLE":
            raise Reject("type")
    elif k == "b":
        if col.type != "TINYINT":
            raise Reject("type")
    elif k in "st":
        txt = v[1] if k == "s" else fmt_date(v[1], o[2])
        if col.type in ("DATE", "DATETIME"):
            ep = parse_date(txt, col.type)
            if ep is None:
                if not txt[:1].isdigit() and txt != "":
                    raise Reject("date")
                raise Unclear("lenient date parsing")
            if ep == -1:
                raise Unclear("the instant mktime uses for errors")
            return ["t", ep]
        if col.type != "VARCHAR":
            raise Reject("type")
        if where != "cmp" and len(txt.encode("latin-1")) + 1 > col.size:
            raise Reject("length")
        return ["s", txt]
    return v


def c_div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def ev_int(e):
    k = e[0]
    if k == "l":
        v = e[1]
        if v is None:
            raise Reject("NULL in math")
        if v[0] != "i":
            raise Reject("type in math")
        if not I64MIN <= v[1] <= I64MAX:
            raise Reject("range")
        return v[1]
    if k == "par":
        return ev_int(e[1])
    if k == "neg":
        a = ev_int(e[1])
        r = None if a is None else -a
    else:
        a, b = ev_int(e[1]), ev_int(e[2])
        if a is None or b is None:
            return None
        if k == "+":
            r = a + b
        elif k == "-":
            r = a - b
        elif k == "*":
            r = a * b
        elif b == 0:
            return None
        elif k == "/":
            r = c_div(a, b)
        else:
            r = a - b * c_div(a, b)
    if r is not None and not I64MIN <= r <= I64MAX:
        raise Reject("overflow")
    return r


def ev_dbl(e):
    k = e[0]
    if k == "l":
        v = e[1]
        if v is None:
            raise Reject("NULL in math")
        if v[0] != "d":
            raise Reject("type in math")
        return bf(v[1])
    if k == "par":
        return ev_dbl(e[1])
    if k == "neg":
        a = ev_dbl(e[1])
        return None if a is None else a * -1.0
    a, b = ev_dbl(e[1]), ev_dbl(e[2])
    if a is None or b is None:
        return None
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if not (math.isfinite(a) and math.isfinite(b)):
        raise Unclear("infinite operands")
    if k == "/":
        if b == 0.0:
            return None
        try:
            return a / b
        except OverflowError:
            raise Unclear("inf")
    if abs(b) < 1.0:
        return None
    return math.fmod(float(math.trunc(a)), float(math.trunc(b))) + 0.0


def typecheck_math(col, e):
    """every leaf has to be of the column's kind; checked before anything is evaluated"""
    k = e[0]
    if k == "l":
        v = e[1]
        if v is None or v[0] != {"INTEGER": "i", "DOUBLE": "d"}[col.type]:
            raise Reject("type in math")
        if v[0] == "i" and not I64MIN <= v[1] <= I64MAX:
            raise Reject("range")
    else:
        for x in e[1:]:
            typecheck_math(col, x)


def strip_par(x):
    while x[0] == "par":
        x = x[1]
    return x


class Scope:
    """resolves field references over the joined tables of one statement"""

    def __init__(self, tabs):
        # [(table, alias|None)]
        self.tabs = tabs
        self.base = []
        n = 0
        for t, _ in tabs:
            self.base.append(n)
            n += len(t.cols)

    def resolve(self, o):
        q, name = o[1], o[2]
        if q is not None:
            for i, (t, al) in enumerate(self.tabs):
                if q == (al or t.name):
                    j = t.idx(name)
                    if j is None:
                        raise Reject("no such column")
                    return self.base[i] + j, t.cols[j], t
            raise Reject("no such table")
        hit = [(self.base[i] + t.idx(name), t.cols[t.idx(name)], t) for i, (t, _) in enumerate(self.tabs)
               if t.idx(name) is not None]
        if not hit:
            raise Reject("no such column")
        if len(hit) > 1:
            raise Reject("ambiguous")
        return hit[0]


def compile_cond(c, sc, stmt):
    """-> row predicate; raises Reject for conditions that have to be refused. stmt: SELECT | DELETE | UPDATE"""
    k = c[0]
    if k == "par":
        return compile_cond(c[1], sc, stmt)
    if k in ("and", "or", "xor"):
        a, b = compile_cond(c[1], sc, stmt), compile_cond(c[2], sc, stmt)
        if k == "and":
            return lambda r: a(r) and b(r)
        if k == "or":
            return lambda r: a(r) or b(r)
        return lambda r: a(r) != b(r)
    if k == "null":
        if c[1][0] != "f":
            raise Reject("IS NULL of a literal")
        i, _, _ = sc.resolve(c[1])
        if c[2]:
            return lambda r: r[i] is not None
        return lambda r: r[i] is None
    if k == "in":
        if c[1][0] != "f":
            raise Reject("IN of something else than a field")
        if any(x[0] == "f" for x in c[2]):
            raise Reject("IN list with fields")
        i, col, _ = sc.resolve(c[1])
        vals = [check_lit(col, x, "cmp") for x in c[2]]
        if c[3]:
            if any(v is None for v in vals):
                return lambda r: False
            return lambda r: r[i] is not None and all(cmp_vals("<>", r[i], v) for v in vals)
        return lambda r: any(cmp_vals("=", r[i], v) for v in vals)
    op, a, b = c[1], c[2], c[3]
    if a[0] == "f" and b[0] == "f":
        i, ca, ta = sc.resolve(a)
        j, cb, tb = sc.resolve(b)
        if ca.type != cb.type:
            if "t" == KIND[ca.type] == KIND[cb.type]:
                raise Unclear("DATE vs DATETIME")
            raise Reject("types differ")
        if ca.type == "VARCHAR" and op not in ("=", "<>", "!="):
            raise Reject("VARCHAR order")
        return lambda r: cmp_vals(op, r[i], r[j])
    if a[0] == "f" or b[0] == "f":
        f, l = (a, b) if a[0] == "f" else (b, a)
        i, col, _ = sc.resolve(f)
        if l[1] is None:
            if op not in ("=", "<>", "!="):
                raise Reject("NULL order")
            return lambda r: False
        v = check_lit(col, l, "cmp")
        if col.type == "VARCHAR" and op not in ("=", "<>", "!="):
            raise Reject("VARCHAR order")
        if f is a:
            return lambda r: cmp_vals(op, r[i], v)
        return lambda r: cmp_vals(op, v, r[i])
    va, vb = a[1], b[1]
    if va is None or vb is None:
        if op not in ("=", "<>", "!="):
            raise Reject("NULL order")
        if stmt != "SELECT" and not (va is None and vb is None):
            raise Reject("types differ")
        return lambda r: False
    if va[0] != vb[0] or va[0] in "st":
        if va[0] == vb[0] == "s" and op in ("=", "<>", "!="):
            res = cmp_vals(op, va, vb)
            return lambda r: res
        if va[0] != vb[0] and not (va[0] in "st" and vb[0] in "st"):
            raise Reject("types differ")
        raise Unclear("string literals")
    res = cmp_vals(op, va, vb)
    return lambda r: res


class World:
    """one database"""

    def __init__(self):
        self.tables = {}

    # every method returns the expected outcome: ("ok", rows affected) | ("rows", columns, multiset) | raises
    def create(self, op):
        name, cols, ifne, tail = op[1], op[2], op[3], op[4] if len(op) > 4 else []
        if len(name) > NAME_MAX or any(len(c[0]) > NAME_MAX for c in cols):
            raise Unclear("long names")
        cs = []
        if not any(True for _ in cols):
            raise Unclear("no columns")
        if len(cols) > 128:
            raise Reject("too many columns")
        if name in self.tables and not ifne:
            raise Reject("table exists")
        for c in cols:
            if c[1] == "VARCHAR" and not 1 <= c[2] <= 65535:
                raise Reject("VARCHAR size")
            if any(x.name == c[0] for x in cs):
                raise Reject("duplicate column")
            cs.append(Col(c))
        by = {c.name: c for c in cs}
        for t in tail:
            for n in t[1]:
                if n not in by:
                    raise Reject("index on unknown column")
                if t[0] == "pk":
                    by[n].pk = by[n].notnull = by[n].unique = True
                by[n].indexed = t[0] != "pk"
        if name in self.tables:
            return ("ok", 0)
        self.tables[name] = Table(name, cs)
        return ("ok", 0)

    def _t(self, name):
        if name not in self.tables:
            raise Reject("no such table")
        return self.tables[name]

    def insert(self, op):
        t = self._t(op[1])
        if op[2] is not None:
            if len(set(op[2])) != len(op[2]):
                raise Reject("duplicate column")
            order = []
            for n in op[2]:
                if t.idx(n) is None:
                    raise Reject("no such column")
                order.append(t.idx(n))
        else:
            order = list(range(len(t.cols)))
        new = []
        for vals in op[3]:
            if len(vals) != len(order):
                raise Reject("value count")
            row = [None] * len(t.cols)
            for ci, e in zip(order, vals):
                col = t.cols[ci]
                e0 = strip_par(e)
                if e0[0] == "l":
                    row[ci] = check_lit(col, e0, "store")
                else:
                    if col.type not in ("INTEGER", "DOUBLE"):
                        raise Reject("math on a non numeric column")
                    typecheck_math(col, e0)
                    if col.type == "INTEGER":
                        v = ev_int(e0)
                        row[ci] = None if v is None else ["i", v]
                    else:
                        v = ev_dbl(e0)
                        row[ci] = None if v is None else ["d", fb(v)]
            for i, c in enumerate(t.cols):
                if c.notnull and row[i] is None:
                    raise Reject("NOT NULL")
            new.append(row)
        t.rows.extend(new)
        return ("ok", len(new))

    def delete(self, op):
        t = self._t(op[1])
        p = compile_cond(op[2], Scope([(t, None)]), "DELETE") if op[2] else (lambda r: True)
        self._no_qual(op[2])
        keep = [r for r in t.rows if not p(r)]
        n = len(t.rows) - len(keep)
        t.rows = keep
        return ("ok", n)

    def _no_qual(self, c):
        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "f" and x[1] is not None:
                    raise Unclear("qualified name in DELETE/UPDATE")
                for y in x:
                    walk(y)
        walk(c)

    def update(self, op):
        t = self._t(op[1])
        self._no_qual(op[3])
        sets = []
        for c, v in op[2]:
            i = t.idx(c)
            if i is None:
                raise Reject("no such column")
            x = check_lit(t.cols[i], v, "store")
            if x is None and t.cols[i].notnull:
                raise Reject("NOT NULL")
            sets.append((i, x))
        p = compile_cond(op[3], Scope([(t, None)]), "UPDATE") if op[3] else (lambda r: True)
        n = 0
        for r in t.rows:
            if p(r):
                n += 1
                for i, x in sets:
                    r[i] = x
        return ("ok", n)

    def select(self, op):
        s = op[1]
        tabs, joins = [], []
        for it in s["from"]:
            if it[0] == "t":
                tabs.append((self._t(it[1]), it[2]))
            else:
                first = len(tabs)
                tabs.append((self._t(it[1][0]), it[1][1]))
                for t, c, _ in it[2]:
                    tabs.append((self._t(t[0]), t[1]))
                    joins.append((first, len(tabs), c))
        if (s.get("tail") or {}).get("bad"):
            raise Reject("unknown name after the conditions")
        js = [i for i, it in enumerate(s["from"]) if it[0] == "j"]
        if len(js) > 1 or any(i < len(s["from"]) - 2 for i in js):
            raise Unclear("joining the results of two joins")
        if len(set(t.name for t, _ in tabs)) != len(tabs):
            raise Unclear("self join")
        names = [al or t.name for t, al in tabs]
        if len(set(names)) != len(names):
            raise Unclear("alias clash")
        sc = Scope(tabs)
        preds = []
        for i, j, c in joins:
            sub = Scope(tabs[i:j])
            off = sc.base[i]
            p = compile_cond(c, sub, "SELECT")
            preds.append((off, sum(len(t.cols) for t, _ in tabs[i:j]), p))
        where = compile_cond(s["where"], sc, "SELECT") if s.get("where") else None
        # projection
        proj, count = [], False
        for x in s["sel"]:
            if x == "*":
                if len(s["sel"]) != 1:
                    raise Unclear("* with others")
                for i, (t, _) in enumerate(tabs):
                    for j, c in enumerate(t.cols):
                        proj.append((sc.base[i] + j, "%s.%s" % (t.name, c.name), c))
            elif x == "COUNT(*)":
                count = True
            else:
                i, c, t = sc.resolve(x)
                nm = "%s.%s" % (t.name, c.name)
                if not any(p[1] == nm for p in proj):
                    proj.append((i, nm, c))
        group = None
        if s.get("group"):
            group = [sc.resolve(x)[0] for x in s["group"]]
            if "*" in s["sel"]:
                raise Unclear("GROUP BY with *")
            if set(group) != set(p[0] for p in proj):
                raise Unclear("GROUP BY other fields")
        elif count and proj:
            raise Unclear("COUNT with fields but no GROUP BY")
        if sum(len(t.cols) for t, _ in tabs) + count > 128:
            raise Unclear("more columns than a working table can hold")
        if any(len(t.name) + len(c.name) + 1 > 127 for t, _ in tabs for c in t.cols):
            raise Unclear("long fully-qualified names")
        size = 1
        for t, _ in tabs:
            size *= max(1, len(t.rows))
        if size > 400000:
            raise Unclear("too big")
        rows = [[]]
        for t, _ in tabs:
            rows = [a + b for a in rows for b in t.rows]
        rows = [r for r in rows if all(p(r[o:o + n]) for o, n, p in preds)]
        if where:
            rows = [r for r in rows if where(r)]
        cols = [(nm, c.type, c.size) for _, nm, c in proj]
        if group is not None:
            seen = {}
            for r in rows:
                key = tuple(keyval(r[p[0]], True) for p in proj)
                if key not in seen:
                    seen[key] = [[r[p[0]] for p in proj], 0]
                seen[key][1] += 1
            out = [v + ([["i", n]] if count else []) for v, n in seen.values()]
        elif count:
            out = [[["i", len(rows)]]]
        else:
            out = [[r[p[0]] for p in proj] for r in rows]
        if count:
            cols.append(("COUNT(*)", "INTEGER", None))
        return ("rows", cols, out)

    def apply(self, op):
        k = op[0]
        if k == "rawbad":
            raise Reject("syntax")
        if k == "maybe":  # a SELECT that is accepted or refused
            return ("any",)
        return getattr(self, k)(op)


def keyval(v, group=False):
    """hashable form of a value; group: -0.0 and 0.0 are the same group"""
    if v is None:
        return ("n",)
    if v[0] == "d":
        f = bf(v[1])
        if f != f:
            return ("d", "nan")
        if group and f == 0.0:
            return ("d", fb(0.0))
        return ("d", v[1])
    return (v[0], v[1])
