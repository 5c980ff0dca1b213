"""Checks under injected faults: memory runs out."""
import hashlib
from collections import Counter

from ..core import Res
from ..gen import G
from .. import hist
from ..model import render
from .sql import Hist, fill, tally
from .meta import full_create
from .robust import Wild
from .components import Btree, Comp, Hash, Lib, Seq, Storage


class OutOfMemory(Hist):
    id = "P26"
    zones = False
    n = {"quick": 700, "thorough": 60000}
    rule = ("1-3 tables with rows and a few statements of history, then 1-4 statements of any kind (all clauses, also ones that have to "
            "be refused), each executed again and again while its k-th allocation, or the k-th and all later ones, fail: for every "
            "k, or every 2nd, 3rd or 7th. Every attempt is made twice and has to be refused with a message (or give the full "
            "answer), leave contents, catalogue, memory in use and locks as they were; the attempt without a failure has to do "
            "what the model says. Non-trivial: at least 10 attempts were refused because of a failed allocation")
    assumptions = ["allocations of the flex and bison code, and of the token queue while they run, do not fail: what happens then is decided by "
                   "the generated code", "allocations inside of libc (regcomp, mktime) do not fail"]

    def gen(self, rng, tier, i):
        g = G(rng)
        ops = []
        for _ in range(g.pick([1, 1, 2, 2, 3])):
            ops.append(g.create(ncols=g.pick([1, 2, 3, 4, 6]), notnull=0.05))
        ts = list(g.w.tables.values())
        for t in ts:
            fill(g, ops, t, g.pick([0, 1, 2, 3, 5, 8]) if g.chance(0.93) else g.pick([60, 100]))
        for _ in range(g.pick([0, 0, 1, 2])):
            g.put(ops, self.stmt(g, ts))
        for _ in range(g.pick([1, 2, 3, 4])):
            op = self.stmt(g, ts)
            step = g.pick([1, 1, 1, 2, 3, 7])
            n = len(ops)
            g.put(ops, op)
            if len(ops) > n:
                ops[-1] = ["oom", int(g.chance(0.35)), 1 + g.r.randrange(step), step, 400 if len(render(op)) < 3000 else 30, ops[-1]]
        return {"ops": ops}

    def stmt(self, g, ts):
        t = g.pick(ts)
        k = g.r.random()
        if k < 0.24:
            return g.insert(t, g.pick([1, 1, 2, 3, 5, 40]), arith=0.2)
        if k < 0.32:
            return g.delete(t)
        if k < 0.42:
            return g.update(t)
        if k < 0.58:
            return g.select(t)
        if k < 0.70:
            return g.group(t)
        if k < 0.86 and len(ts) > 1:
            return g.join(g.r.sample(ts, g.pick([2, len(ts)])))
        if k < 0.91:
            return full_create(g, g.table_name() if g.chance(0.9) else t.name, g.pick([1, 2, 3, 5]))
        if k < 0.96:
            # clauses and expressions the model has no opinion about; right or not, a SELECT changes nothing
            return ["maybe", Wild(g, [(x.name, [(c.name, c.type) for c in x.cols]) for x in ts]).near()]
        return g.bad(t)[1] or g.select(t)

    def check(self, case, env):
        st = Counter()
        f = hist.judge(case, env.run, 30, st)
        c, t = tally(case)
        n = st["attempts"]
        t.add("attempts that failed: " + ("none" if not n else "under 100" if n < 100 else "100 to 500" if n < 500 else "500 and more"))
        if st["tolerated"]:
            t.add("answered although an allocation failed")
        return Res(f, n - st["tolerated"] >= 10, t)

    def shrink(self, case):
        yield from hist.shrink(case)
        for i, op in enumerate(case["ops"]):
            if op[0] != "oom":
                continue
            for x in hist.shrink_op(op[5]):
                yield dict(case, ops=case["ops"][:i] + [op[:5] + [x]] + case["ops"][i + 1:])
            yield dict(case, ops=case["ops"][:i] + [op[5]] + case["ops"][i + 1:])
            for y in ([op[0], 0] + op[2:], op[:2] + [1, 1] + op[4:]):
                if y != op:
                    yield dict(case, ops=case["ops"][:i] + [y] + case["ops"][i + 1:])


class Blocks(Comp):
    """a case of one of the component checks; its operations that may allocate are repeated with failing allocations"""
    id = "P27"
    n = {"quick": 9000, "thorough": 150000}
    rule = ("operation sequences of the checks of table storage, B-tree, hash table, vector, queue, stack and regex helper (P15, "
            "P17-P20), in which each operation that may allocate (initialisation, adding a column, inserting, putting, pushing, "
            "matching) is executed with its k-th allocation failing, alone or with all later ones, for k = 1, 2, ... until it "
            "needs no more: attempts that fail have to leave the contents as they were and no memory behind, and from there "
            "on everything has to be as if they had not been made. Non-trivial: at least 5 attempts failed")
    assumptions = ["allocations inside of libc do not fail", "removing from a B-tree is not made to fail"]
    inner = {p.id: p for p in (Storage(), Btree(), Hash(), Seq(), Lib())}
    MAY = ("tb init", "tb addcol", "tb ins", "tb upd", "tb vac", "bt init", "bt ins", "ht init", "ht put", "v init", "v push", "q init",
           "q offer", "s init", "s push", "s upush", "x rx")

    def gen(self, rng, tier, i):
        k = ("P15", "P15", "P17", "P17", "P18", "P19", "P20")[i % 7]
        while True:
            c = self.inner[k].gen(rng, tier, rng.randrange(10 ** 6))
            if k == "P20":
                c["ops"] = [o for o in c["ops"] if o[0] == "rx"]
            if c["ops"] and c["ops"][0] != ["kind", "l"]:  # lists do not allocate
                break
        c["of"] = k
        c["share"] = (1.0, 0.5, 0.2)[rng.randrange(3)]
        c["rest"] = (0.0, 0.3, 1.0)[rng.randrange(3)]
        c["step"] = (1, 1, 1, 2, 5)[rng.randrange(5)]
        c["ops"] = c["ops"][:400]
        return c

    def run(self, ops):
        raise NotImplementedError

    def script(self, case, tried):
        def count(ln):
            if not ln.startswith("FA ") or not ln[3:].isdigit():
                return ln
            tried.append(int(ln[3:]))

        rows, width, work = 1, 1, 1.2e7
        for n, (cmd, exp) in enumerate(self.inner[case["of"]].run(case["ops"])):
            width += cmd.startswith("tb addcol")
            rows += cmd.startswith(("tb ins", "ht put", "v push", "q offer", "s push"))
            width = max(width, len(cmd) // 10 if cmd.startswith("v push") else 0)
            if cmd.startswith(self.MAY):
                h = hashlib.sha256((cmd + "/%d" % n).encode()).digest()
                if h[0] < case["share"] * 256 and work > 0:
                    st = case["step"]
                    # every attempt looks at all that is stored
                    work -= 2 * rows * width * min(60, 3 + (width if cmd.startswith("tb ins") else 60 if cmd.startswith("tb addcol") else 20))
                    yield "FA %d %d %d 60 %s" % (h[1] < case["rest"] * 256, 1 + h[2] % st, st, cmd), count
                    cmd = ""
            yield cmd, exp

    def check(self, case, env):
        tried = []
        res = self.judge(list(self.script(case, tried)), case, env)
        res.nontrivial = sum(tried) >= 5
        res.tags = list(res.tags or ()) + [{"P15": "table storage", "P17": "B-tree", "P18": "hash table", "P19": "sequences", "P20": "helpers"}[case["of"]],
                                         "failed attempts " + ("none" if not sum(tried) else "under 20" if sum(tried) < 20 else "20-199" if sum(tried) < 200 else "200+")]
        return res

    def nontriv(self, case):
        return True

    def tags(self, case):
        return self.inner[case["of"]].tags(case)

    def simpler(self, op):
        return ()

    def shrink(self, case):
        yield from super().shrink(case)
        for i, o in enumerate(case["ops"]):
            for v in self.inner[case["of"]].simpler(o):
                yield dict(case, ops=case["ops"][:i] + [v] + case["ops"][i + 1:])
        if case["rest"]:
            yield dict(case, rest=0.0)
        if case["step"] > 1:
            yield dict(case, step=1)

    def text(self, case):
        return ["operations of %s, %d%% of them with failing allocations" % (case["of"], 100 * case["share"])] + super().text(case)


PROPS = [OutOfMemory(), Blocks()]
