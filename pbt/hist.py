"""Judges statement histories: what the real code did against what the reference model says.

A history is {"ops": [step...]} with steps
  statement ops of model.py          executed through query_execute on the current database
  ["db", k]                          switch database            ["close", k] close database k (reopened empty when used)
  ["vacuum", table]                  table_vacuum               ["dumpall"]  compare every table of every open database
After every statement the outcome is compared; after every statement that may write, the touched table is compared row by
row with the model (as multisets) from its storage, bypassing SELECT.
"""
from collections import Counter

from .model import NORM, Reject, Unclear, World, keyval, render
from .server import ERROR, OK_EXEC, OK_ROWS, Q, T, decode, hx, show


class Invalid(Exception):
    """the case is outside of the domain (only happens while shrinking)"""


def mkey(row):
    return tuple(keyval(v) for v in row)


def rkey(row):
    """key of a row printed by the harness"""
    out = []
    for v in row:
        if v is None:
            out.append(("n",))
        elif v[0] == "s":
            out.append(("s", v[1].decode("latin-1")))
        elif v[0] == "d":
            out.append(keyval(["d", v[1]]))
        else:
            out.append(v)
    return tuple(out)


def gkey(key):
    """-0.0 and 0.0 belong to the same group, whichever represents it"""
    return tuple(("d", "0" * 16) if k == ("d", "8" + "0" * 15) else k for k in key)


def brief(c, n=4):
    xs = ["%dx(%s)" % (k, ", ".join("NULL" if v == ("n",) else show(("d", v[1]) if v[0] == "d" and v[1] != "nan" else v)
                                   for v in r)) for r, k in sorted(c.items(), key=repr)[:n]]
    return "; ".join(x[:300] for x in xs) + (" ..." if len(c) > n else "")


def diff(exp, got):
    m, x = exp - got, got - exp
    return "missing: [%s] unexpected: [%s]" % (brief(m), brief(x))


def cmp_table(t, mt, where):
    """dump of a table against the model's table"""
    if not t.exists:
        return "%s: table %s does not exist" % (where, mt.name)
    if t.name != mt.name:
        return "%s: table is called %r instead of %r" % (where, t.name, mt.name)
    got = [(c["name"], c["type"]) for c in t.cols]
    exp = [(c.name, c.type) for c in mt.cols]
    if got != exp:
        return "%s: columns of %s are %r instead of %r" % (where, mt.name, got, exp)
    a, b = Counter(mkey(r) for r in mt.rows), Counter(rkey(r) for r in t.rows)
    if a != b:
        return "%s: contents of %s are wrong, %s" % (where, mt.name, diff(a, b))
    return None


def cmp_rows(q, cols, rows, grouped):
    """result set of a SELECT against the expected columns and rows"""
    names = [c[0] for c in cols]
    got = [c["name"] for c in q.cols]
    if sorted(names) != sorted(got):
        return "result columns are %r instead of %r" % (sorted(got), sorted(names))
    for n, typ, _ in cols:
        c = q.cols[got.index(n)]
        if c["type"] != typ:
            return "result column %s has type %s instead of %s" % (n, c["type"], typ)
    perm = [got.index(n) for n in names]
    fk = gkey if grouped else (lambda k: k)
    a = Counter(fk(mkey(r)) for r in rows)
    b = Counter(fk(rkey([r[i] for i in perm])) for r in q.rows)
    if a != b:
        return "result rows are wrong, %s" % diff(a, b)
    rc, n, raw, mism = q.end
    if raw != n:
        return "the cursor delivered %d rows of %d" % (n, raw)
    if mism:
        return "query_column_int64 disagrees with the stored value (%d times)" % mism
    return None


def expectation(w, op):
    try:
        return w.apply(op)
    except Reject as e:
        return ("reject", str(e))
    except Unclear as e:
        raise Invalid(str(e))


def judge_q(q, exp, op, sql):
    if not isinstance(q, Q):
        return "no result for %s: %r" % (sql, q)
    if q.status is None:
        return "query_execute returned NULL for: %s" % sql
    if exp[0] == "any":
        if q.status not in (OK_ROWS, ERROR):
            return "status %r of %s" % (q.status, sql)
        return None if q.status == OK_ROWS or q.msg else "refused without an error message: %s" % sql
    if exp[0] == "reject":
        if q.status != ERROR:
            return "accepted although it has to be refused (%s): %s" % (exp[1], sql)
        if not q.msg:
            return "refused without an error message: %s" % sql
        return None
    if q.status == ERROR:
        return "refused (%s) although it is valid: %s" % (q.msg.decode("latin-1")[:120], sql)
    if exp[0] == "ok":
        if q.status != OK_EXEC:
            return "status %d instead of 'executed': %s" % (q.status, sql)
        if op[0] != "create" and q.naff != exp[1]:
            return "%d rows affected instead of %d: %s" % (q.naff, exp[1], sql)
        return None
    if q.status != OK_ROWS:
        return "status %d instead of 'rows': %s" % (q.status, sql)
    d = cmp_rows(q, exp[1], exp[2], bool(op[1].get("group")))
    return None if d is None else "%s: %s" % (d, sql)


WRITES = ("insert", "delete", "update")
ALLK = 3


def lines_of(case):
    """harness commands, and what each decoded record is"""
    out, plan = [], []
    worlds, cur, slots = {0: World()}, 0, {}
    big = case.get("sparse")
    for i, op in enumerate(case["ops"]):
        sql = None
        if op[0] == "as":  # the same statement, spelled differently
            sql, op = op[1], op[2]
        k = op[0]
        w = worlds[cur]
        if k == "db":
            cur = op[1]
            worlds.setdefault(cur, World())
            out.append("DB %d" % cur)
            out.append("OPEN")
        elif k == "close":
            if op[1] in worlds:
                out += ["DB %d" % op[1], "CLOSE", "DB %d" % cur, "OPEN"]
                plan.append(("line", "CLOSED", "close"))
                worlds[op[1]] = World()
        elif k == "vacuum":
            if op[1] not in w.tables:
                raise Invalid("no table")
            out.append("VAC " + hx(op[1]))
            plan.append(("line", "VAC 1", "vacuum of %s" % op[1]))
            out.append("D " + hx(op[1]))
            plan.append(("dumpv", snap(w.tables[op[1]]), "after vacuum"))
        elif k == "dumpall":
            for d in sorted(worlds):
                out.append("DB %d" % d)
                out.append("OPEN")
                out.append("LS")
                plan.append(("ls", sorted(worlds[d].tables), "tables of database %d" % d))
                for n in sorted(worlds[d].tables):
                    out.append("D " + hx(n))
                    plan.append(("dump", snap(worlds[d].tables[n]), "step %d (dump of everything, database %d)" % (i, d)))
            out.append("DB %d" % cur)
        elif k == "hold":  # run a SELECT and keep its result set
            slots[op[1]] = (expectation(w, op[2]), op[2], render(op[2]))
            out.append("QH %d %s" % (op[1], hx(slots[op[1]][2])))
            want = {"rows": "H 0", "reject": "H 2"}.get(slots[op[1]][0][0])
            plan.append(("line", want, "status of " + slots[op[1]][2]))
        elif k == "read":
            if op[1] not in slots:
                raise Invalid("nothing held")
            exp, sel, txt = slots.pop(op[1])
            out.append("QR %d" % op[1])
            plan.append(("q", exp, sel, txt + " [read later, at step %d]" % i))
        elif k == "mem":
            out.append("MEM")
            plan.append(("mem", op[1], op[2] if len(op) > 2 else None))
        elif k == "oom":  # the same statement over and over while allocations fail, and at last without a failure
            exp = expectation(w, op[5])
            sql = render(op[5])
            out.append("OOM %s %d %d %d %d" % (hx(sql), op[1], op[2], op[3], op[4]))
            plan.append(("oom", exp, op[5], sql))
            for n in sorted(w.tables):
                out.append("D " + hx(n))
                plan.append(("dump", snap(w.tables[n]), "step %d (after %s)" % (i, sql[:200])))
        else:
            sql = sql or render(op)
            exp = expectation(w, op)
            out.append("Q " + hx(sql))
            plan.append(("q", exp, op, sql))
            if k in ("rawbad", "maybe") or k == "create" or (k == "select" and not op[1].get("check")):
                continue
            n = op[1] if k in WRITES else op[1]["from"][0][1]
            if isinstance(n, list):
                n = n[0]
            if not (big and k == "insert"):
                out.append("D " + hx(n))
                if n in w.tables:
                    plan.append(("dump", snap(w.tables[n]), "step %d (%s)" % (i, sql[:200])))
                else:
                    plan.append(("nodump", n, "step %d" % i))
    return out, plan, worlds


class Snap:
    __slots__ = ("name", "cols", "rows")


def snap(t):
    s = Snap()
    s.name, s.cols, s.rows = t.name, t.cols, [list(r) for r in t.rows]
    return s


def judge_oom(recs, i, p, stats):
    """what the attempts of a statement with failing allocations printed -> (complaint or None, index after them)"""
    what, digs, at = "", set(), "0"
    while i < len(recs):
        r = recs[i]
        i += 1
        f = str(r).split() if not isinstance(r, (Q, T)) else [""]
        if f[0] == "F0":
            at = f[1]
        elif f[0] == "F":
            k, fired, st, msg, same, mem, locked, dig = f[1:9]
            what = "when allocation %s fails in: %s" % (k, p[3])
            stats["attempts"] += 1
            if locked != "0":
                return "a lock is still held " + what, i
            if same != "1":
                return "the database changed %s although the statement was not executed, %s" % (
                    "(status %s)" % st, what), i
            if st == "0":
                stats["tolerated"] += 1
                digs.add(dig)
            elif st not in ("2", "-1"):
                return "status %s " % st + what, i
            elif st == "2" and msg != "1":
                return "refused without a message " + what, i
            if mem != "0":
                return "memory: %s bytes more in use each time " % mem + what, i
        elif f[0] == "FX":
            if i + 1 >= len(recs):
                return None, len(recs)
            q, last = recs[i], str(recs[i + 1]).split()
            stats["allocations"] = max(stats["allocations"], int(f[4]))
            if f[2] != "0":
                stats["tolerated"] += 1
            if p[1][0] == "reject" and isinstance(q, Q) and q.status == ERROR and not q.msg:
                return "refused without a message: " + p[3], i
            d = judge_q(q, p[1], p[2], p[3])
            if d:
                return d + (" [allocation %s failed]" % f[1] if f[2] != "0" else " [after attempts with failing allocations]"), i
            if (q.status == OK_ROWS or p[1][0] == "any") and digs - {last[1]}:
                return "other rows are returned when an allocation fails in: " + p[3], i
            return None, i + 2
        else:
            return "unexpected output %r" % r, i
    return None, i


def judge(case, run, cpu=10, stats=None):
    """-> None or a description of what is wrong"""
    lines, plan, _ = lines_of(case)
    o = run(lines, cpu=cpu)
    recs = decode(o.lines)
    i = 0
    mem = {}
    stats = Counter() if stats is None else stats
    oom = None
    for p in plan:
        if i >= len(recs):
            break
        oom = None
        if p[0] == "oom":
            first = i
            d, i = judge_oom(recs, i, p, stats)
            if d:
                return d
            if i >= len(recs):
                oom = (p, [r for r in recs[first:] if not isinstance(r, (Q, T))][-1:])
            continue
        r = recs[i]
        i += 1
        if i == len(recs) and not o.completed and p[0] in ("q", "dump", "dumpv"):
            break  # possibly cut short by the crash reported below
        if p[0] == "q":
            d = judge_q(r, p[1], p[2], p[3])
            if d:
                return d
        elif p[0] in ("dump", "dumpv"):
            if not isinstance(r, T):
                return "%s: no dump (%r)" % (p[2], r)
            d = cmp_table(r, p[1], p[2])
            if d:
                return d
            if p[0] == "dumpv":
                live, dead, blocks, off = r.meta
                if dead:
                    return "%s: %d deleted rows remain in the storage of %s" % (p[2], dead, p[1].name)
        elif p[0] == "nodump":
            if not isinstance(r, T) or r.exists:
                return "%s: table %s exists although it was never created" % (p[2], p[1])
        elif p[0] == "ls":
            got = sorted(bytes.fromhex(x).decode("latin-1") for x in str(r).split()[1:])
            if got != p[1]:
                return "%s are %r instead of %r" % (p[2], got, p[1])
        elif p[0] == "mem":
            b = int(str(r).split()[1])
            if p[2] is not None and mem.get(p[2]) is not None and b != mem[p[2]]:
                return "memory: %d bytes more in use at '%s' than at '%s'" % (b - mem[p[2]], p[1], p[2])
            mem[p[1]] = b
        elif r != p[1]:
            return "%s: %r instead of %r" % (p[2], r, p[1])
    c = o.crash()
    if c and oom:
        return "abnormal end: %s, when allocation %s fails in: %s" % (c, "".join(str(x) for x in oom[1]).split(" ")[-1], oom[0][3])
    if c:
        last = ""
        for p in plan[:i][::-1]:
            if p[0] == "q":
                last = " during or after: " + p[3][:300]
                break
        nxt = [p for p in plan[i:] if p[0] == "q"][:1]
        return "abnormal end: %s%s%s" % (c, last, (" | before: " + nxt[0][3][:300]) if nxt else "")
    if i < len(plan):
        return "output ends early"
    return None


# ---------------------------------------------------------------- shrinking
def shrink_cond(c):
    if c is None:
        return
    yield None
    k = c[0]
    if k == "par":
        yield c[1]
    if k in ("and", "or", "xor"):
        yield c[1]
        yield c[2]
        for x in shrink_cond(c[1]):
            if x is not None:
                yield [k, x, c[2]]
        for x in shrink_cond(c[2]):
            if x is not None:
                yield [k, c[1], x]
    if k == "par":
        for x in shrink_cond(c[1]):
            if x is not None:
                yield ["par", x]
    if k == "in":
        for i in range(len(c[2])):
            if len(c[2]) > 1:
                yield ["in", c[1], c[2][:i] + c[2][i + 1:], c[3]]
    if k == "cmp":
        for i in (2, 3):
            for x in shrink_lit(c[i]):
                yield c[:i] + [x] + c[i + 1:]


def shrink_lit(e):
    if e[0] != "l" or e[1] is None:
        return
    k, v = e[1][0], e[1][1]
    if k == "i":
        for x in (0, 1, 2, -1, v // 2):
            if abs(x) < abs(v):
                yield ["l", ["i", x]]
    elif k == "s":
        if v:
            yield ["l", ["s", ""]]
            yield ["l", ["s", v[:len(v) // 2]]]
            yield ["l", ["s", v[:-1]]]
            yield ["l", ["s", v[1:]]]
    elif k == "d":
        from .model import bf, fb
        for x in (0.0, 1.0, 2.0):
            if v != fb(x):
                yield ["l", ["d", fb(x)]]
    elif k == "b" and v:
        yield ["l", ["b", 0]]


def shrink_expr(e):
    if e[0] == "l":
        yield from shrink_lit(e)
        return
    for x in e[1:]:
        yield x
    for i in range(1, len(e)):
        for x in shrink_expr(e[i]):
            yield e[:i] + [x] + e[i + 1:]


def shrink_op(op):
    k = op[0]
    if k == "as":
        yield op[2]
    elif k == "hold":
        for x in shrink_op(op[2]):
            yield ["hold", op[1], x]
    if k == "insert":
        rows = op[3]
        if len(rows) > 1:
            h = len(rows) // 2
            yield op[:3] + [rows[:h]]
            yield op[:3] + [rows[h:]]
            if len(rows) <= 12:
                for i in range(len(rows)):
                    yield op[:3] + [rows[:i] + rows[i + 1:]]
        if len(rows) <= 4:
            for i, r in enumerate(rows):
                for j, e in enumerate(r):
                    for x in shrink_expr(e):
                        yield op[:3] + [rows[:i] + [r[:j] + [x] + r[j + 1:]] + rows[i + 1:]]
        if op[2]:
            for j in range(len(op[2])):
                if len(op[2]) > 1:
                    yield ["insert", op[1], op[2][:j] + op[2][j + 1:], [r[:j] + r[j + 1:] for r in rows]]
    elif k == "delete":
        for c in shrink_cond(op[2]):
            yield op[:2] + [c]
    elif k == "update":
        for c in shrink_cond(op[3]):
            yield op[:3] + [c]
        if len(op[2]) > 1:
            for i in range(len(op[2])):
                yield op[:2] + [op[2][:i] + op[2][i + 1:]] + op[3:]
        for i, (n, e) in enumerate(op[2]):
            for x in shrink_lit(e):
                yield op[:2] + [op[2][:i] + [[n, x]] + op[2][i + 1:]] + op[3:]
    elif k == "select":
        s = op[1]
        for c in shrink_cond(s.get("where")):
            yield ["select", dict(s, where=c)]
        if s.get("tail"):
            yield ["select", dict(s, tail=None)]
            for q in s["tail"]:
                if q != "bad" and len(s["tail"]) > 1:
                    yield ["select", dict(s, tail={x: y for x, y in s["tail"].items() if x != q})]
        if s.get("group"):
            yield ["select", dict(s, group=None)]
        if len(s["sel"]) > 1 and not s.get("group"):
            for i in range(len(s["sel"])):
                yield ["select", dict(s, sel=s["sel"][:i] + s["sel"][i + 1:])]
        if len(s["from"]) > 1:
            for i in range(len(s["from"])):
                yield ["select", dict(s, **{"from": s["from"][:i] + s["from"][i + 1:]})]
        for i, f in enumerate(s["from"]):
            if f[0] == "j":
                for j, (t, cnd, inner) in enumerate(f[2]):
                    for c in shrink_cond(cnd):
                        if c is not None:
                            ch = f[2][:j] + [[t, c, inner]] + f[2][j + 1:]
                            yield ["select", dict(s, **{"from": s["from"][:i] + [["j", f[1], ch]] + s["from"][i + 1:]})]
                    if len(f[2]) > 1:
                        ch = f[2][:j] + f[2][j + 1:]
                        yield ["select", dict(s, **{"from": s["from"][:i] + [["j", f[1], ch]] + s["from"][i + 1:]})]
    elif k == "create":
        pass


def drop_column(ops, tname, col):
    """removes a column of a table everywhere, when nothing else mentions it (None otherwise)"""
    out, order = [], None
    for op in ops:
        if op[0] == "create" and op[1] == tname:
            order = [c[0] for c in op[2]]
            cols = [c for c in op[2] if c[0] != col]
            if not cols:
                return None
            out.append(["create", tname, cols, op[3], [[t[0], [n for n in t[1] if n != col]] for t in (op[4] if len(op) > 4 else [])
                                                       if [n for n in t[1] if n != col]]])
        elif op[0] == "insert" and op[1] == tname and order:
            names = op[2] if op[2] is not None else order
            if col in names:
                j = names.index(col)
                if len(names) == 1 or any(len(r) != len(names) for r in op[3]):
                    return None
                out.append(["insert", tname, None if op[2] is None else names[:j] + names[j + 1:],
                            [r[:j] + r[j + 1:] for r in op[3]]])
            else:
                out.append(op)
        elif op[0] == "update" and op[1] == tname and any(n == col for n, _ in op[2]):
            s = [x for x in op[2] if x[0] != col]
            if not s:
                return None
            out.append(["update", tname, s, op[3]])
        else:
            out.append(op)
    return out


def shrink(case):
    ops = case["ops"]
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(case, ops=ops[:i] + ops[i + size:])
        size //= 2
    for i, op in enumerate(ops):
        for x in shrink_op(op):
            yield dict(case, ops=ops[:i] + [x] + ops[i + 1:])
    seen = set()
    for op in ops:
        if op[0] == "create" and op[1] not in seen:
            seen.add(op[1])
            for c in op[2]:
                o = drop_column(ops, op[1], c[0])
                if o is not None:
                    yield dict(case, ops=o)


def text_of(case):
    out = []
    for op in case["ops"]:
        if op[0] in ("db", "close", "vacuum", "dumpall", "mem", "read"):
            out.append("-- " + " ".join(str(x) for x in op))
        elif op[0] == "hold":
            out.append("-- keep the result set %d of: %s" % (op[1], render(op[2])))
        elif op[0] == "as":
            out.append(op[1])
        elif op[0] == "oom":
            out.append("-- allocation k%s fails, k = %d, %d, ... (at most %d times): %s" % (
                " and all later ones" if op[1] else "", op[2], op[2] + op[3], op[4], render(op[5])))
        else:
            s = render(op)
            out.append(s if len(s) < 2000 else s[:1000] + " ...[%d characters]" % len(s))
    return out
