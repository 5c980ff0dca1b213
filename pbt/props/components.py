"""Checks of the building blocks: table storage interface, B-tree, hash table, vector/queue/stack/list, bits/strings/regex.

A case is a list of operations. run() walks it with a plain Python model and yields (command line, expectation), where an
expectation is the exact line the code has to print or a function that returns None or a complaint."""
import re
import struct

from ..core import Prop, Res
from ..hist import Invalid
from ..server import TYPES, hx


def pick(r, xs):
    return xs[r.randrange(len(xs))]


class Comp(Prop):
    flavours = ("asan",)
    minops = 4

    def check(self, case, env):
        return self.judge(list(self.run(case["ops"])), case, env)

    def judge(self, script, case, env):
        o = env.run([c for c, _ in script], 20)
        c = o.crash()
        pos = 0
        for cmd, exp in script:
            if callable(exp):
                got, pos2 = [], pos
                while pos2 < len(o.lines):
                    got.append(o.lines[pos2])
                    pos2 += 1
                    if getattr(exp, "block", False) and got[-1] != ".":
                        continue
                    break
                if not got or (getattr(exp, "block", False) and got[-1] != "."):
                    return Res("abnormal end: %s: after %r" % (c or "output stops", cmd[:200]))
                why = exp(got if getattr(exp, "block", False) else got[0])
                if why:
                    return Res("%s: %r" % (why, cmd[:200]))
                pos = pos2
            elif exp is not None:
                if pos >= len(o.lines):
                    return Res("abnormal end: %s: after %r" % (c or "output stops", cmd[:200]))
                if o.lines[pos] != exp:
                    return Res("%r answered %r instead of %r" % (cmd[:200], o.lines[pos][:300], exp[:300]))
                pos += 1
        if c:
            return Res("abnormal end: %s: after the last operation" % c)
        return Res(None, self.nontriv(case), self.tags(case))

    def nontriv(self, case):
        return len(case["ops"]) >= self.minops

    def tags(self, case):
        n = len(case["ops"])
        return ["%s operations" % ("<10" if n < 10 else "10-49" if n < 50 else "50-199" if n < 200 else "200+")]

    def shrink(self, case):
        ops = case["ops"]
        k = len(ops) // 2
        while k >= 1:
            for i in range(0, len(ops), k):
                if i + k <= len(ops) and len(ops) > k:
                    yield dict(case, ops=ops[:i] + ops[i + k:])
            k //= 2
        for i, o in enumerate(ops):
            for v in self.simpler(o):
                yield dict(case, ops=ops[:i] + [v] + ops[i + 1:])

    def simpler(self, op):
        return ()

    def text(self, case):
        return [" ".join(str(x) for x in o) for o in case["ops"]]

    def leakcheck(self, mem):
        """two expectations around a section that must give back all of its memory"""
        def before(ln):
            mem["a"] = int(ln.split()[1])

        def after(ln):
            d = int(ln.split()[1]) - mem["a"]
            return "memory not given back: %d bytes" % d if d else None
        return before, after


# ------------------------------------------------------------------------------------------------------------ table
PREC = {"INTEGER": 8, "TINYINT": 1, "DOUBLE": 8, "DATE": 8, "DATETIME": 8}
ZERO = {"VARCHAR": "s-", "INTEGER": "i0", "TINYINT": "b0", "DOUBLE": "d" + "0" * 16, "DATE": "t0", "DATETIME": "t0"}


def good_name(n):
    return 1 <= len(n) <= 127 and re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", n) is not None


class Storage(Comp):
    """ops: ["init", name] (first), ["add", name, type, prec], ["rem", name], ["ins", [vals]], ["badlen", delta, [vals]],
    ["del", id], ["upd", id, [vals]], ["vac"], ["dump"]"""
    id = "P15"
    n = {"quick": 10000, "thorough": 200000}
    rule = ("10-120 operations of the storage interface on one table: add and remove columns of all types with and without rows, "
            "insert, delete, update, vacuum, rows of a wrong length, duplicate, missing, too many and zero-sized columns, table "
            "names of all kinds; a dump after structural operations compared with a model; the memory given back by "
            "table_destroy. Non-trivial: a column was added to or removed from a table with rows")

    def value(self, r, t, prec):
        if r.random() < 0.2:
            return "N"
        if t == "VARCHAR":
            n = pick(r, [0, 1, prec - 1, prec - 1, r.randrange(prec)])
            return "s" + hx(bytes(r.randrange(1, 256) for _ in range(max(0, min(n, prec - 1)))).decode("latin-1"))
        if t == "INTEGER":
            return "i%d" % pick(r, [0, 1, -1, 2**63 - 1, -2**63, r.randrange(-10**6, 10**6)])
        if t == "TINYINT":
            return "b%d" % pick(r, [0, 1])
        if t == "DOUBLE":
            return "d" + struct.pack(">d", pick(r, [0.0, 1.5, -2.25, 1e300, r.uniform(-9, 9)])).hex()
        return "t%d" % pick(r, [0, 1, 86400, 1600000000, -86400])

    def gen(self, rng, tier, i):
        r = rng
        ops = [["init", pick(r, ["t", "T1", "tbl_x", "a" * 127, "a" * 128, "", "1a", "_a", "a-b", "a b", "Zz9_", "a.b", "\xe9", "tab!"])
                if r.random() < 0.15 else "tab"]]
        cols = [["id", "INTEGER", 8]]
        ops.append(["add", "id", "INTEGER", 8])
        names = iter("c%d" % k for k in range(10**6))
        nid = 0
        ids = []

        def add(p=None):
            t = pick(r, TYPES)
            pr = PREC.get(t) or pick(r, [1, 2, 3, 5, 10, 40, 300])
            n = next(names)
            cols.append([n, t, pr])
            ops.append(["add", n, t, pr])
        for _ in range(pick(r, [0, 1, 2, 3, 5, 9, 30])):
            add()

        def row(i_):
            return ["i%d" % i_] + [self.value(r, c[1], c[2]) for c in cols[1:]]
        many = r.random() < 0.25
        for _ in range(r.randrange(8, 40)):
            k = r.random()
            if k < 0.34:
                for _ in range(pick(r, [1, 2, 5, 30, 120] if many else [1, 1, 2, 4])):
                    ops.append(["ins", row(nid)])
                    ids.append(nid)
                    nid += 1
            elif k < 0.46 and len(cols) < 128:
                add()
                ops.append(["dump"])
            elif k < 0.56 and len(cols) > 1:
                j = r.randrange(1, len(cols))
                ops.append(["rem", cols.pop(j)[0]])
                ops.append(["dump"])
            elif k < 0.7 and ids:
                for _ in range(pick(r, [1, 1, 3, 20])):
                    if ids:
                        j = pick(r, [0, -1, r.randrange(len(ids))])
                        ops.append(["del", ids.pop(j)])
            elif k < 0.8 and ids:
                x = pick(r, ids)
                ops.append(["upd", x, row(x)])
            elif k < 0.88:
                ops.append(["vac"])
                ops.append(["dump"])
            elif k < 0.9:
                ops.append(["badlen", pick(r, [1, -1, 8, -8, 16]), row(nid)])
            elif k < 0.92:
                ops.append(["add", pick(r, cols)[0], "INTEGER", 8])
            elif k < 0.94:
                ops.append(["rem", "nosuch"])
            elif k < 0.96:
                ops.append(["add", "zz", pick(r, TYPES), pick(r, [0, -1])])
            elif k < 0.97 and len(cols) > 100 or r.random() < 0.004:
                while len(cols) < 128:
                    add()
                ops.append(["add", "overflow", "INTEGER", 8])
                ops.append(["dump"])
        if r.random() < 0.15:
            # take all columns away, then grow again
            for c in r.sample(cols, len(cols)):
                ops.append(["rem", c[0]])
                if r.random() < 0.3:
                    ops.append(["dump"])
                if r.random() < 0.1:
                    ops.append(["vac"])
            cols = []
            if r.random() < 0.7:
                add()
                add()
                ops.append(["dump"])
        ops.append(["dump"])
        return {"ops": ops}

    def run(self, ops):
        if not ops or ops[0][0] != "init":
            raise Invalid
        mem = {}
        before, after = self.leakcheck(mem)
        yield "tb init " + hx("warm"), "tb 1"
        yield "tb destroy", "tb 1"
        yield "MEM", before
        name = ops[0][1]
        ok = good_name(name)
        yield "tb init " + hx(name), "tb %d" % ok
        if not ok:
            return
        cols, rows = [], []
        for o in ops[1:]:
            k = o[0]
            if k == "init":
                raise Invalid
            if k == "add":
                t = o[2]
                good = o[3] >= 1 and len(cols) < 128 and all(c[0] != o[1] for c in cols)
                yield "tb addcol %s %d %d" % (hx(o[1]), TYPES.index(t), o[3]), "tb %d" % good
                if good:
                    cols.append([o[1], t, o[3]])
                    for rw in rows:
                        rw.append(ZERO[t])
            elif k == "rem":
                at = [j for j, c in enumerate(cols) if c[0] == o[1]]
                yield "tb remcol %s" % hx(o[1]), "tb %d" % bool(at)
                if at:
                    cols.pop(at[0])
                    for rw in rows:
                        rw.pop(at[0])
            elif k in ("ins", "badlen", "upd"):
                v = o[-1]
                if len(v) != len(cols):
                    raise Invalid
                for x, c in zip(v, cols):
                    if x != "N" and (x[0] != ZERO[c[1]][0] or (x[0] == "s" and len(x) > 2 * c[2])):
                        raise Invalid
                if k == "ins":
                    yield "tb ins " + " ".join(v), "tb 1"
                    rows.append(list(v))
                elif k == "badlen":
                    yield "tb inslen %d %s" % (o[1], " ".join(v)), "tb 0"
                else:
                    at = self.find(cols, rows, o[1])
                    yield "tb upd %d %s" % (o[1], " ".join(v)), "tb 1"
                    rows[at] = list(v)
            elif k == "del":
                at = self.find(cols, rows, o[1])
                yield "tb del %d" % o[1], "tb 1"
                rows.pop(at)
            elif k == "vac":
                yield "tb vac", "tb 1"
            elif k == "dump":
                yield "tb dump", self.dump([list(c) for c in cols], sorted(map(tuple, rows)), name)
        yield "tb destroy", "tb 1"
        yield "MEM", after

    def find(self, cols, rows, i):
        if not cols or cols[0][0] != "id":
            raise Invalid
        at = [j for j, rw in enumerate(rows) if rw[0] == "i%d" % i]
        if len(at) != 1:
            raise Invalid
        return at[0]

    def dump(self, cols, rows, name):
        def f(lines):
            if lines[0] != "D 1 " + hx(name):
                return "wrong table header %r" % lines[0]
            got = [tuple(ln.split(" ")[1:]) for ln in lines if ln == "r" or ln.startswith("r ")]
            gc = []
            for ln in lines:
                if ln.startswith("c "):
                    x = ln.split(" ")
                    gc.append([bytes.fromhex(x[1]).decode("latin-1"), TYPES[int(x[2])], int(x[3])])
            if gc != cols:
                return "columns %r instead of %r" % (gc[:6], cols[:6])
            if sorted(got) != rows:
                miss = [x for x in rows if x not in got][:2]
                extra = [x for x in got if x not in rows][:2]
                return "%d rows instead of %d, missing %r, unexpected %r" % (len(got), len(rows), miss, extra)
            m = [ln for ln in lines if ln.startswith("m ")][0].split()
            if int(m[1]) != len(rows):
                return "live rows"
        f.block = True
        return f

    def nontriv(self, case):
        n = 0
        for o in case["ops"][2:]:
            if o[0] == "ins":
                n += 1
            if n and o[0] in ("add", "rem"):
                return True
        return False

    def tags(self, case):
        s = {o[0] for o in case["ops"]}
        out = ["with " + x for x in sorted(s & {"vac", "rem", "upd", "del", "badlen"})]
        if sum(o[0] == "ins" for o in case["ops"]) > 100:
            out.append("more than 100 rows")
        return out


# ------------------------------------------------------------------------------------------------------------ B-tree
class Btree(Comp):
    """ops: ["init", degree, "int"|"str"] first, then ["ins", k, v] ["upd", k, v] ["rm", k] ["get", k] ["walk"]"""
    id = "P17"
    n = {"quick": 20000, "thorough": 200000}
    rule = ("trees of minimum degree 2-8 (up to 100 in a part of the cases) with integer or string keys, 5-400 operations in ascending, descending, random and "
            "clustered key order: insert of new keys, update, remove and look-up of present and absent keys; after many of the "
            "operations a walk of the whole tree compared with a dict (order, content, node sizes, equal leaf depth), memory "
            "given back on destroy. Non-trivial: the tree had more than one node and keys were removed")
    LET = "abcxyz_09"

    def gen(self, rng, tier, i):
        r = rng
        kind = "str" if r.random() < 0.25 else "int"
        big = r.random() < 0.06
        deg = pick(r, [16, 33, 40, 64, 100]) if big else pick(r, [2, 2, 2, 3, 3, 4, 5, 8])
        ops = [["init", deg, kind]]
        space = pick(r, [10000, 2**63] if big else [10, 30, 100, 300, 2**63])
        stem = "k" * 70 if r.random() < 0.2 else ""

        def fresh():
            if kind == "str":
                return stem + "".join(pick(r, self.LET) for _ in range(pick(r, [0, 1, 2, 3, 8, 40])))
            return r.randrange(space)
        have = []
        s = set()
        mode = pick(r, ["random", "asc", "desc", "random"])
        n0 = pick(r, [300, 700]) if big else pick(r, [0, 3, 10, 40, 100, 200])
        if r.random() < 0.004:
            n0, space = pick(r, [1000, 3000]), 2**63
        ks = list({fresh() for _ in range(n0)})
        ks.sort(reverse=mode == "desc") if mode != "random" else r.shuffle(ks)
        v = [0]

        def ins(k):
            v[0] += 1
            ops.append(["ins", k, v[0]])
            have.append(k)
            s.add(k)
        for k in ks:
            ins(k)
        ops.append(["walk"])
        pr = pick(r, [0.2, 0.5, 0.8])
        for _ in range(pick(r, [5, 20, 60, 150])):
            k = r.random()
            if k < 0.12:
                ops.append(["get", pick(r, have) if have and r.random() < 0.7 else fresh()])
            elif k < 0.2:
                v[0] += 1
                ops.append(["upd", pick(r, have) if have and r.random() < 0.7 else fresh(), v[0]])
            elif k < 0.25:
                ops.append(["walk"])
            elif r.random() < pr and have:
                if r.random() < 0.1:
                    ops.append(["rm", fresh()])
                    if ops[-1][1] in s:
                        s.discard(ops[-1][1])
                        have.remove(ops[-1][1])
                else:
                    j = pick(r, [0, len(have) - 1, r.randrange(len(have))])
                    x = have.pop(j)
                    s.discard(x)
                    ops.append(["rm", x])
                if r.random() < 0.2:
                    ops.append(["walk"])
            else:
                x = fresh()
                if x not in s:
                    ins(x)
        if r.random() < 0.3:
            order = sorted(s) if r.random() < 0.5 else list(have)
            if r.random() < 0.5:
                order.reverse()
            for x in order:
                ops.append(["rm", x])
                if r.random() < 0.1:
                    ops.append(["walk"])
            ops.append(["walk"])
            if r.random() < 0.5:
                ops.append(["ins", fresh(), 1])
        ops.append(["walk"])
        return {"ops": ops}

    def run(self, ops):
        if not ops or ops[0][0] != "init":
            raise Invalid
        deg, kind = ops[0][1], ops[0][2]
        enc = (lambda k: hx(k)) if kind == "str" else (lambda k: "%d" % k)
        before, after = self.leakcheck({})
        yield "MEM", before
        yield "bt init %d %s" % (deg, kind), "bt 1"
        d = {}
        for o in ops[1:]:
            if o[0] == "ins":
                if o[1] in d:
                    raise Invalid
                d[o[1]] = o[2]
                yield "bt ins %s %d" % (enc(o[1]), o[2]), "bt 0"
            elif o[0] == "upd":
                yield "bt upd %s %d" % (enc(o[1]), o[2]), "bt %d" % (o[1] in d)
                if o[1] in d:
                    d[o[1]] = o[2]
            elif o[0] == "rm":
                d.pop(o[1], None)
                yield "bt rm %s" % enc(o[1]), "bt 0"
            elif o[0] == "get":
                yield "bt get %s" % enc(o[1]), "bt %d" % d[o[1]] if o[1] in d else "bt none"
            elif o[0] == "walk":
                yield "bt walk", self.walk("bt" + "".join(" %s=%d" % (enc(k), d[k]) for k in sorted(d)), bool(d))
            else:
                raise Invalid
        yield "bt destroy", "bt 1"
        yield "MEM", after

    def walk(self, exp, some):
        def f(ln):
            a, b = ln.rsplit(" | ", 1)
            bad = int(b.split()[0])
            if a != exp:
                return "walk %r instead of %r" % (a[:300], exp[:300])
            if bad and some:
                return "shape broken: " + ", ".join(n for k, n in ((1, "overfull node"), (2, "underfull node"), (4, "empty root"),
                                                                  (8, "leaves at different depths")) if bad & k)
        return f

    def nontriv(self, case):
        o = case["ops"]
        return sum(x[0] == "ins" for x in o) >= 2 * o[0][1] and any(x[0] == "rm" for x in o)

    def tags(self, case):
        return super().tags(case) + ["degree %d" % case["ops"][0][1], case["ops"][0][2] + " keys"]

    def simpler(self, op):
        if op[0] == "init" and op[1] > 2:
            yield ["init", op[1] - 1, op[2]]


# ------------------------------------------------------------------------------------------------------------ hash table
class Hash(Comp):
    """ops: ["init", weak, mode] first, then ["put", k, v] ["get", k] ["rm", k] ["each"]"""
    id = "P18"
    n = {"quick": 18000, "thorough": 240000}
    rule = ("5-300 operations on a hash table with string or binary keys (the latter with zero bytes), the built-in hash or weak "
            "ones that force collisions (down to one bucket), growing through several sizes: put of new and present keys, "
            "get, remove, iteration; compared with a dict after each operation; memory given back. Non-trivial: more than 8 "
            "entries (the table grew)")

    def gen(self, rng, tier, i):
        r = rng
        mode = pick(r, ["str", "str", "bin"])
        weak = pick(r, [0, 0, 1, 2, 3, 7, 16, 31])
        ops = [["init", weak, mode]]
        alpha = "ab" if r.random() < 0.5 else "abcdefghijklmnopqrstuvwxyzABC_.0189\xe9\xff\x80"
        if mode == "bin":
            alpha += "\x00\x00\x01"
        lmax = pick(r, [2, 4, 8, 60])

        stem = "".join(pick(r, alpha) for _ in range(pick(r, [33, 64, 130]))) if r.random() < 0.2 else ""

        def key():
            if have and r.random() < 0.08:
                # close to a key that is there: longer, shorter, or with another character somewhere
                x = pick(r, have)
                k = r.randrange(4)
                if k == 0:
                    return x + pick(r, alpha)
                if len(x) > 1:
                    j = r.randrange(len(x))
                    return x[:-1] if k == 1 else x[:j] + pick(r, alpha) + x[j + 1:] if k == 2 else x[::-1]
            return stem + "".join(pick(r, alpha) for _ in range(r.randrange(0 if mode == "str" else 1, lmax + 1)))

        def val():
            return "".join(chr(r.randrange(256)) for _ in range(pick(r, [1, 1, 2, 8, 8, 50]) if r.random() < 0.99 else 300))
        have = []
        pp = pick(r, [0.4, 0.6, 0.9])
        if r.random() < 0.02:
            # many entries first
            lmax = max(lmax, 8)
            for _ in range(pick(r, [260, 520, 700] if weak in (1, 2, 3) else [260, 520, 1100])):
                x = key()
                if x not in have:
                    ops.append(["put", x, val()[:2]])
                    have.append(x)
        for _ in range(pick(r, [5, 20, 60, 150, 300])):
            k = r.random()
            if k < pp:
                x = pick(r, have) if have and r.random() < 0.15 else key()
                ops.append(["put", x, val()])
                if x not in have:
                    have.append(x)
            elif k < pp + (1 - pp) * 0.4:
                ops.append(["get", pick(r, have) if have and r.random() < 0.7 else key()])
            elif k < pp + (1 - pp) * 0.9:
                x = pick(r, have) if have and r.random() < 0.8 else key()
                ops.append(["rm", x])
                if x in have:
                    have.remove(x)
            else:
                ops.append(["each"])
        if r.random() < 0.5:
            for x in have:
                ops.append(["get", x])
        ops.append(["each"])
        return {"ops": ops}

    def run(self, ops):
        if not ops or ops[0][0] != "init":
            raise Invalid
        weak, mode = ops[0][1], ops[0][2]
        before, after = self.leakcheck({})
        yield "MEM", before
        yield "ht init %d %s" % (weak, mode), "ht 1"
        d = {}
        z = "\0" if mode == "str" else ""
        for o in ops[1:]:
            if o[0] != "each" and (("\0" in o[1]) if mode == "str" else not o[1]):
                raise Invalid
            if o[0] == "put":
                if not o[2]:
                    raise Invalid
                new = o[1] not in d
                if new:
                    d[o[1]] = o[2]
                yield "ht put %s %s %s" % (hx(o[1]), hx(o[2]), mode), "ht %d %d" % (new, len(d))
            elif o[0] == "get":
                yield "ht get %s %s" % (hx(o[1]), mode), "ht " + (hx(d[o[1]]) if o[1] in d else "none")
            elif o[0] == "rm":
                if o[1] in d:
                    v = d.pop(o[1])
                    e = "ht %s=%s %d" % (hx(o[1] + z), hx(v), len(d))
                else:
                    e = "ht none %d" % len(d)
                yield "ht rm %s %s" % (hx(o[1]), mode), e
            elif o[0] == "each":
                yield "ht each", self.each({hx(k + z) + "=" + hx(v) for k, v in d.items()})
            else:
                raise Invalid
        yield "ht free", "ht 0"
        yield "MEM", after

    def each(self, exp):
        def f(ln):
            a, n = ln[2:].rsplit(" | ", 1) if " | " in ln else (ln, "-1")
            got = a.split()
            if int(n) != len(exp):
                return "count %s instead of %d" % (n, len(exp))
            if sorted(got) != sorted(exp):
                return "iteration visits %r instead of %r" % (sorted(got)[:6], sorted(exp)[:6])
        return f

    def nontriv(self, case):
        return len({o[1] for o in case["ops"] if o[0] == "put"}) > 8

    def tags(self, case):
        n = len({o[1] for o in case["ops"] if o[0] == "put"})
        return ["keys " + ("<=8" if n <= 8 else "9-31" if n < 32 else "32+"), case["ops"][0][2] + " keys",
                "weak hash" if case["ops"][0][1] else "built-in hash"]

    def simpler(self, op):
        if op[0] == "put" and len(op[2]) > 1:
            yield ["put", op[1], op[2][:1]]


# ------------------------------------------------------------------------------------------------------------ sequences
class Seq(Comp):
    """ops: ["kind", "v"|"q"|"s"|"l"] first, then operations of that structure"""
    id = "P19"
    n = {"quick": 20000, "thorough": 240000}
    rule = ("5-300 operations on one vector, queue, stack or linked list: pushes of elements of 1-200 bytes, removals, peeks at every "
            "position, iteration in both directions, removal while iterating, refill after emptying; compared with a Python "
            "list after every operation; memory given back. Non-trivial: at least 4 elements at some time")

    def gen(self, rng, tier, i):
        r = rng
        kind = pick(r, "vqsl")
        ops = [["kind", kind]]
        n = pick(r, [5, 20, 60, 150, 300])
        size = 0
        inl = set()
        if kind in "qs" and r.random() < 0.04:
            # grows long first
            size = pick(r, [127, 128, 129, 255, 256, 257, 300, 513, 700])
            tiny = "".join(chr(r.randrange(1, 256)) for _ in range(size))
            ops += [["offer" if kind == "q" else "push", x] for x in tiny]
            n = pick(r, [60, 150, 800])
        pp = pick(r, [0.35, 0.5, 0.7])

        def word(zero):
            k = pick(r, [0, 1, 2, 7, 8, 15, 16, 17, 60, 200])
            if r.random() < 0.004:
                k = pick(r, [255, 256, 1024, 4096, 5000, 33000, 65536])
            lo = 0 if zero else 1
            return "".join(chr(r.randrange(lo, 256)) for _ in range(k))
        for _ in range(n):
            k = r.random()
            if kind == "v":
                ops.append(["push", word(True) or "x"] if k < 0.85 else ["dump"] if k < 0.95 else ["clear"])
            elif kind == "q":
                if k < pp:
                    ops.append(["offer", word(False)])
                    size += 1
                elif k < pp + 0.25:
                    ops.append(["poll"])
                    size = max(0, size - 1)
                elif k < pp + 0.3:
                    ops.append(["peek"])
                elif k < pp + 0.4 and size:
                    ops.append(["pos", r.randrange(size)])
                else:
                    ops.append(["len"])
            elif kind == "s":
                if k < pp:
                    ops.append([pick(r, ["push", "push", "upush"]), word(False)])
                    size += 1
                elif k < pp + 0.25 and size:
                    ops.append(["pop"])
                    size -= 1
                elif k < pp + 0.3 and size:
                    ops.append(["peek"])
                elif k < pp + 0.4 and size:
                    ops.append(["pos", r.randrange(size)])
                else:
                    ops.append(["empty"])
            else:
                if k < pp and len(inl) < 250:
                    x = r.randrange(256)
                    if x not in inl:
                        inl.add(x)
                        ops.append([pick(r, ["add", "addtail"]), x])
                elif k < pp + 0.2 and inl:
                    x = pick(r, sorted(inl))
                    inl.discard(x)
                    ops.append(["del", x])
                elif k < pp + 0.22:
                    inl = {x for x in inl if x % 2 == 0}
                    ops.append(["delodd"])
                else:
                    ops.append(["dump"])
        ops.append([{"v": "dump", "q": "len", "s": "empty", "l": "dump"}[kind]])
        return {"ops": ops}

    def run(self, ops):
        if not ops or ops[0][0] != "kind":
            raise Invalid
        k = ops[0][1]
        before, after = self.leakcheck({})
        yield "MEM", before
        yield k + " init", k + " 1"
        xs = []
        for o in ops[1:]:
            c = o[0]
            if k == "v":
                if c == "push":
                    if not o[1]:
                        raise Invalid
                    xs.append(o[1])
                    yield "v push " + hx(o[1]), "v 1 %d" % sum(map(len, xs))
                elif c == "clear":
                    xs = []
                    yield "v clear", "v 0"
                elif c == "dump":
                    yield "v dump", "v %s 1" % hx("".join(xs))
                else:
                    raise Invalid
            elif k == "q":
                if c == "offer":
                    xs.append(o[1])
                    yield "q offer " + hx(o[1]), "q 1"
                elif c in ("poll", "peek"):
                    yield "q " + c, "q " + (hx(xs[0]) if xs else "none")
                    if c == "poll" and xs:
                        xs.pop(0)
                elif c == "pos":
                    if o[1] >= len(xs):
                        raise Invalid
                    yield "q pos %d" % o[1], "q " + hx(xs[o[1]])
                elif c == "len":
                    yield "q len", "q %d %d" % (len(xs), not xs)
                else:
                    raise Invalid
            elif k == "s":
                if c in ("push", "upush"):
                    xs.append(o[1])
                    yield "s %s %s" % (c, hx(o[1])), "s 1"
                elif c in ("pop", "peek"):
                    if not xs:
                        raise Invalid
                    yield "s " + c, "s " + hx(xs[-1])
                    if c == "pop":
                        xs.pop()
                elif c == "pos":
                    if o[1] >= len(xs):
                        raise Invalid
                    yield "s pos %d" % o[1], "s " + hx(xs[o[1]])
                elif c == "empty":
                    yield "s empty", "s %d" % (not xs)
                else:
                    raise Invalid
            else:
                if c in ("add", "addtail"):
                    if o[1] in xs:
                        raise Invalid
                    xs.insert(0 if c == "add" else len(xs), o[1])
                    yield "l %s %d" % (c, o[1]), "l 1"
                elif c == "del":
                    if o[1] not in xs:
                        raise Invalid
                    xs.remove(o[1])
                    yield "l del %d" % o[1], "l 1"
                elif c == "delodd":
                    xs = [x for x in xs if x % 2 == 0]
                    yield "l delodd", "l 1"
                elif c == "dump":
                    yield "l dump", "l%s |%s | %d %d" % ("".join(" %d" % x for x in xs), "".join(" %d" % x for x in reversed(xs)),
                                                         len(xs), not xs)
                else:
                    raise Invalid
        if k == "v":
            yield "v free", "v 1 0 0"
        elif k == "q":
            yield "q free", "q 1"
        elif k == "s":
            yield "s free", "s 1"
        yield "MEM", after

    def nontriv(self, case):
        return sum(o[0] in ("push", "upush", "offer", "add", "addtail") for o in case["ops"]) >= 4

    def tags(self, case):
        return super().tags(case) + [{"v": "vector", "q": "queue", "s": "stack", "l": "linked list"}[case["ops"][0][1]]]

    def simpler(self, op):
        if op[0] in ("push", "upush", "offer") and len(op[1]) > 1:
            yield [op[0], op[1][:1]]


# ------------------------------------------------------------------------------------------------------------ lib
class Lib(Comp):
    """ops: ["bit", what, hexfield, n] ["starts", a, b] ["rand", n] ["rx", text, pattern]"""
    id = "P20"
    n = {"quick": 18000, "thorough": 200000}
    minops = 10
    rule = ("10-60 calls: set, clear, toggle and test of every bit of fields of 1-40 bytes (up to 700 in a part of the calls) (only that bit may change), prefix "
            "tests of related and unrelated strings, random strings of every length (alphanumeric, terminated), extraction of "
            "regex groups compared with Python's re on patterns whose groups all take part. Non-trivial: 10 or more calls")

    def gen(self, rng, tier, i):
        r = rng
        ops = []
        for _ in range(pick(r, [10, 20, 60])):
            k = r.random()
            if k < 0.45:
                n = pick(r, [1, 2, 3, 8, 16, 40]) if r.random() < 0.97 else pick(r, [255, 256, 257, 700])
                f = bytes(pick(r, [0, 255, r.randrange(256)]) for _ in range(n))
                ops.append(["bit", pick(r, ["test", "set", "clear", "toggle"]), f.hex(), pick(r, [0, 8 * n - 1, r.randrange(8 * n)])])
            elif k < 0.65:
                a = "".join(chr(r.randrange(1, 256)) for _ in range(pick(r, [0, 1, 2, 5, 30]) if r.random() < 0.9 else pick(r, [63, 64, 65, 130, 255, 256, 300])))
                m = r.randrange(5)
                b = a[:r.randrange(len(a) + 1)] if m < 2 else a + pick(r, ["", "x"]) if m == 2 else \
                    (a[:-1] + "~" if m == 3 else "".join(chr(r.randrange(1, 256)) for _ in range(pick(r, [0, 1, 3]))))
                ops.append(["starts", a, b])
            elif k < 0.75:
                ops.append(["rand", pick(r, [0, 1, 2, 16, 64, 300]) if r.random() < 0.95 else pick(r, [1000, 5000])])
            else:
                ops.append(["rx"] + self.rx(r))
        return {"ops": ops}

    def rx(self, r):
        """a pattern of literal text and groups, and a text that may match it"""
        pat, txt = pick(r, ["", "^"]), ""
        if not pat:
            txt = pick(r, ["", "zz "])
        for _ in range(pick(r, [1, 1, 2, 3, 5]) if r.random() < 0.95 else pick(r, [9, 10, 11, 16, 20])):
            lit = pick(r, ["", "FIELDNAME ", "x", "=", " ", ","])
            g, s = pick(r, [("[a-z]+", "abcz"), ("[A-Za-z_]+", "A_b"), ("[0-9]+", "0719"), ("[^ ]*", "!a;\n"), ("-?[0-9]+", "-09"), ("a|b", "ab")])
            if g == "a|b":
                v = pick(r, "ab")
            else:
                n = pick(r, [1, 2, 5, 30]) if r.random() < 0.95 else pick(r, [63, 64, 65, 127, 128, 255, 256, 300])
                v = "".join(pick(r, s.replace("-", "")) for _ in range(n))
                if g.startswith("-?") and r.random() < 0.5:
                    v = "-" + v
                if g == "[^ ]*" and r.random() < 0.2:
                    v = ""
            pat += lit + "(" + g + ")"
            txt += lit + v
            sep = pick(r, [" ", ";", "#"])
            pat += sep
            txt += sep
        if r.random() < 0.3:
            txt = pick(r, [txt[:-2], "q", "", txt.replace(" ", "  "), txt.upper()])
        return [txt, pat]

    def run(self, ops):
        before, after = self.leakcheck({})
        yield "x rx %s %s" % (hx("a"), hx("(a)")), "x 1 " + hx("a")  # libc's own first-use allocations
        yield "MEM", before
        for o in ops:
            if o[0] == "bit":
                f = bytearray.fromhex(o[2])
                b, m = o[3] // 8, 1 << (o[3] % 8)
                if b >= len(f):
                    raise Invalid
                r = 0
                if o[1] == "test":
                    r = int(bool(f[b] & m))
                elif o[1] == "set":
                    f[b] |= m
                elif o[1] == "clear":
                    f[b] &= 255 - m
                else:
                    f[b] ^= m
                yield "b %s %s %d" % (o[1], o[2], o[3]), "b %d %s" % (r, f.hex())
            elif o[0] == "starts":
                yield "x starts %s %s" % (hx(o[1]), hx(o[2])), "x %d" % o[1].startswith(o[2])
            elif o[0] == "rand":
                yield "x rand %d" % o[1], self.rand(o[1])
            elif o[0] == "rx":
                m = re.search(o[2], o[1])
                yield "x rx %s %s" % (hx(o[1]), hx(o[2])), "x 0" if not m else "x 1" + "".join(" " + hx(g) for g in m.groups())
            else:
                raise Invalid
        yield "MEM", after

    def rand(self, n):
        def f(ln):
            v = ln.split(" ")[1]
            s = b"" if v == "-" else bytes.fromhex(v)
            if len(s) != n or not re.fullmatch(rb"[A-Za-z0-9]*", s):
                return "random string %r of length %d expected" % (s, n)
        return f

    def tags(self, case):
        return sorted({o[0] for o in case["ops"]})


PROPS = [Storage(), Btree(), Hash(), Seq(), Lib()]
