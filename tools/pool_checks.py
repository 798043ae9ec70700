"""M01-M03: the memory pools, judged by spec/Pool.tla."""
import itertools
from vlib import *
from solver_checks import CFG

KIND = {"M01": "M", "M02": "E", "M03": "O"}
NAME = {"M": "monotonic_pool", "E": "heterogeneous_pool", "O": "homogeneous_pool"}
MAXBLOCK = {0: 65536, 1: 512, 2: 4096, 3: 256, 4: 512}
HUGE = 2 ** 64 - 1


def pool_binary(check):
    return build(check, [("pool", "pool.cc", ["-O1"] + SAN)]).get("pool")


class Gen:
    """One random session."""

    def __init__(self, rng, kind, cfg):
        self.rng, self.kind, self.cfg = rng, kind, cfg
        self.ops, self.names, self.next, self.width, self.size = [], {}, 0, {}, {}
        self.align = rng.choice([1, 2, 4, 8, 8, 8, 16, 32, 64])  # homogeneous: the one alignment

    def new(self, p):
        w = self.rng.choice([2, 16, 64, 100, 256, 1000, 4096, 70000] if self.kind != "O" else [32, 64, 100, 256, 1000, 4096])
        self.width[p] = min(w, MAXBLOCK[self.cfg])
        self.ops.append("n%d,%d" % (p, w))
        self.epoch(p)

    def epoch(self, p):
        if self.kind == "O":
            self.size[p] = self.rng.randint(1, min(self.width[p], self.rng.choice([8, 24, 64, 4096])))
        self.names[p] = []

    def fail(self, pr):
        return "!%d" % self.rng.choice([1, 1, 2, 3]) if self.rng.random() < pr else ""

    def alloc(self, p):
        rng = self.rng
        self.next += 1
        if self.kind == "O":
            size, al = self.size[p], self.align
        else:
            size = rng.choice([rng.randint(1, 9), rng.randint(1, 40), rng.randint(20, 300), rng.randint(200, 1200)])
            if rng.random() < 0.04:
                size = rng.randint(4000, 9000)
            if rng.random() < 0.02:
                size = rng.choice([HUGE - rng.randint(0, 300), 2 ** 63 + rng.randint(-40, 40), 2 ** 40])
            al = rng.choice([1, 1, 2, 4, 8, 8, 16, 32, 64, 256])
        self.ops.append("a%d,%d,%d,%d%s" % (p, self.next, size, al, self.fail(0.06)))
        self.names[p].append((self.next, al))

    def dealloc(self, p):
        if self.names[p]:
            i = self.rng.choice([0, -1, self.rng.randrange(len(self.names[p]))])
            n, al = self.names[p].pop(i)
            self.ops.append("d%d,%d,0,%d" % (p, n, al))

    def session(self, n):
        rng = self.rng
        self.new(0)
        exist = {0}
        bias = rng.choice([0.6, 0.45, 0.75])
        for _ in range(n):
            p = rng.choice(sorted(exist))
            x = rng.random()
            if x < bias:
                self.alloc(p)
            elif x < 0.86:
                self.dealloc(p)
            elif x < 0.92:
                self.ops.append("r%d%s" % (p, self.fail(0.1)))
                self.epoch(p)
            elif x < 0.935:
                self.ops.append("x%d" % p)
                self.epoch(p)
            elif x < 0.95 and len(exist) < 3:
                q = min({0, 1, 2} - exist)
                self.new(q)
                exist.add(q)
            elif x < 0.97 and len(exist) < 3:
                q = min({0, 1, 2} - exist)
                self.ops.append("m%d,%d" % (p, q))
                exist.add(q)
                self.hand(p, q)
            elif x < 0.985:
                q = rng.choice(sorted(exist))
                self.ops.append("s%d,%d" % (p, q))
                if p != q:
                    self.hand(p, q)
            elif len(exist) > 1:
                self.ops.append("k%d" % p)
                exist.discard(p)
                del self.names[p]
        return self.ops

    def hand(self, p, q):
        self.names[q] = self.names[p]
        self.width[q] = self.width[p]
        if self.kind == "O":
            self.size[q] = self.size[p]
        self.epoch(p)


def exhaustive(kind, cfg, depth):
    """Every sequence of `depth` operations from a small alphabet, on one small pool."""
    if kind == "O":
        big, small = ("32", "8"), ("32", "8")
        al = ["a", "A", "d", "D", "r", "R", "x", "m"]
    else:
        big, small = ("90", "16"), ("5", "1")
        al = ["a", "b", "A", "d", "D", "r", "x", "m"]
    for seq in itertools.product(al, repeat=depth):
        ops, names, nx, cur = ["n0,64"], [], 0, 0
        ok = True
        for o in seq:
            if o in "abA":
                nx += 1
                s, a = big if o == "b" or (o == "A" and kind != "O") else small
                ops.append("a%d,%d,%s,%s%s" % (cur, nx, s, a, "!1" if o == "A" else ""))
                names.append((nx, a))
            elif o in "dD":
                if not names:
                    ok = False
                    break
                n, a = names.pop(0 if o == "d" else -1)
                ops.append("d%d,%d,0,%s" % (cur, n, a))
            elif o in "rRx":
                ops.append({"r": "r%d", "R": "r%d!1", "x": "x%d"}[o] % cur)
                names = []
            else:
                ops.append("m%d,%d" % (cur, cur + 1))
                cur += 1
                if cur > 2:
                    ok = False
                    break
        if ok:
            # what the pool looks like afterwards shows in what it hands out
            for _ in range(2):
                nx += 1
                ops.append("a%d,%d,%s,%s" % (cur, nx, *small))
            yield ops


def pools(check):
    kind = KIND[check.prop]
    q, rng = check.quick, check.rng
    module, cfg = MODELS[kind]
    tlc_model(check, module, cfg % ("Quick" if q else "Thorough"), "the algorithm of %s refines Pool" % NAME[kind], workers=NCPU, heap="8g", timeout=850)
    b = pool_binary(check)
    if not b:
        return
    sessions = []
    for k in range(1800 if q else 24000):
        cfg = rng.randrange(5 if kind == "E" else 4)
        sessions.append((cfg, Gen(rng, kind, cfg).session(rng.choice([8, 20, 45] if q else [8, 20, 45, 120]))))
    for cfg in ((1,) if q else (1, 2, 3)):
        ex = list(exhaustive(kind, cfg, 4 if q else 5))
        if q and len(ex) > 2500:
            ex = rng.sample(ex, 2500)
        sessions += [(cfg, o) for o in ex]
    run_pools(check, b, kind, sessions)


def run_pools(check, b, kind, sessions):
    lines = ["%d %s %d %s" % (i, kind, cfg, " ".join(ops)) for i, (cfg, ops) in enumerate(sessions)]
    recs = []
    for R, C in parallel(lambda part: run_stream(b, part, timeout=700), [lines[i::NCPU] for i in range(NCPU)]):
        for l in R:
            i, ev = l.split(" ", 1)
            recs.append({"i": int(i), "keep": kind == "M", "events": json.loads(ev)})
        for begun, why, err in C:
            l = lines[int(begun.split()[0])] if begun else "? ?"
            check.violation("pool:" + l.split(" ", 1)[1].replace(" ", "_"), "%s, operations %s: %s" % (NAME[kind], l, why), {"log": err})
    recs.sort(key=lambda r: -len(r["events"]))
    for r in tlc_traces(check, "PoolTrace", recs, CFG, heap="3g"):
        l = lines[r["i"]].split(" ", 1)[1]
        check.violation("pool:" + l.replace(" ", "_"), "%s, operations %s: not what a pool may do: %s" % (NAME[kind], l, r["events"]), {"record": r})
    for r in recs[len(recs) // 2:len(recs) // 2 + 2]:
        check.sample({"operations": lines[r["i"]], "events": r["events"]})


MODEL = """SPECIFICATION Spec
CONSTANT Shapes <- %%s
INVARIANTS NoOverlap AllOwned ThrowsRightly NoLeak %s
PROPERTIES Refines
CHECK_DEADLOCK FALSE
"""
MODELS = {"M": ("MonotonicPool", MODEL % "NewestIsCurrent"), "E": ("HeterogeneousPool", MODEL % "FreeIsFree"), "O": ("HomogeneousPool", MODEL % "FreeIsFree")}
