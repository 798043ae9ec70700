"""S01 - S04, S07: what the solvers return, judged by spec/SolverContract.tla."""
from vlib import *
from mazes import *

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

STEP_OPT_AXIS = {"bfs", "gbfs", "astar", "gstar", "dijkstra", "mgstar", "smastar", "osmastar", "idastar", "eidastar", "iddfs", "eiddfs", "fringe"}
STEP_OPT_OCT = STEP_OPT_AXIS - {"mgstar"}
COST_OPT = {"astar", "gstar", "dijkstra", "fringe", "idastar", "smastar", "osmastar"}
REV = {"b": True, "r": False, "l": True, "o": True, "p": False, "w": True, "g": True, "h": True, "i": False, "t": True, "u": False, "v": False, "y": True, "x": True}
OCT = "opuy"   # configurations with octile steps
LAZY = "lhvy"  # configurations with lazy sorting
LAZY_INEXACT = {"astar", "gstar", "mgstar"}  # deferred sorting gives these up on order, hence on optimality
WALKERS = [s for s in SOLVERS if s not in JPS]


def flags(s):
    f = ["-O1", "-DSOLVER=" + s]
    if s in JPS:
        f.append("-DJPS")
    if s in NOGRAPH:
        f.append("-DNOGRAPH")
    return f


def cfgs_for(inst, solver):
    """Configurations of harness/solve.cc that apply to this instance."""
    if inst.kind == "g":
        if solver in NOGRAPH:
            return ""
        return "ghix" if len(inst.sizes) == 2 else "g"
    c = {1: "b", 2: "brlwopuv", 3: "brwo", 4: "b", 5: "b"}[len(inst.sizes)]
    if len(inst.sizes) == 2 and prod(inst.sizes) < 256:
        c += "ty"
    if "octonly" in inst.tags:
        c = "".join(x for x in c if x in OCT)
    elif "axisonly" in inst.tags:
        c = "".join(x for x in c if x not in OCT)
    if "onlycfg" in inst.__dict__:
        c = "".join(x for x in c if x in inst.onlycfg)
    if solver in EXPONENTIAL:
        if "large" in inst.tags:
            return "".join(x for x in c if x not in OCT) if solver in ("smastar", "osmastar", "eidastar") and not inst.walls else ""
        if "big" in inst.tags and "tree" not in inst.tags:
            return ""
        if "big" in inst.tags:
            if solver in ("smastar", "osmastar") and "huge" in inst.tags:
                return ""
            c = "".join(x for x in c if x not in OCT)
        elif prod(inst.sizes) > 9 and sum(inst.cells) * 10 < 3 * len(inst.cells):
            # many routes: iterative deepening is exponential in octile steps here
            c = "".join(x for x in c if x not in OCT)
            if prod(inst.sizes) > 16:
                c = ""
        elif prod(inst.sizes) > 16:
            c = "".join(x for x in c if x not in OCT)
    return c


def opt_of(prop, inst, solver, cfg):
    lazy = cfg in LAZY
    if inst.kind == "g":
        if prop == "S04" and solver in COST_OPT and not (lazy and solver in ("astar", "gstar")):
            return "cost"
        if prop == "S03" and "unit" in inst.tags and solver in STEP_OPT_AXIS and not (lazy and solver in LAZY_INEXACT):
            return "steps"
        return "no"
    if prop in ("S03", "S07"):
        ok = STEP_OPT_OCT if cfg in OCT else STEP_OPT_AXIS
        if solver in ok and not (lazy and solver in LAZY_INEXACT):
            return "steps"
    return "no"


def run(check, prop, insts, solvers, spec="SolverContract", limited=None, alarm=20, variants=("",)):
    """variants: "" the pools of CHDR; "guard": pools that give every block back to the heap at once, and die of misuse."""
    bins = build(check, [("solve_" + s + v, "solve.cc", flags(s) + (["-DGUARD"] if v else [])) for s in solvers for v in variants])
    by = {str(i.id): i for i in insts}
    recs = {k: dict(i.record(), res=[]) for k, i in by.items()}
    nres = [0]

    def one(sv):
        s, b = sv[0], "solve_" + sv[0] + sv[1]
        if b not in bins:
            return sv, [], []
        lines = []
        for i in insts:
            c = cfgs_for(i, s)
            if c:
                lines.append(i.line(c))
        # split so that a slow solver uses more than one core
        parts = [lines[k::3] for k in range(3)] if s in EXPONENTIAL else [lines]
        R, C = [], []
        for p in parts:
            if p:
                r, c = run_stream(bins[b], p, [alarm])
                R += r
                C += c
        return sv, R, C
    order = sorted([(s, v) for s in solvers for v in variants], key=lambda sv: sv[0] not in EXPONENTIAL)
    for (s, v), R, C in parallel(one, order):
        for begun, why, err in C:
            idn, cfg = (begun or "? ?").split()[:2]
            inst = by.get(idn)
            # run it again, alone, before believing it
            again = None
            if inst is not None and len(check.bad) < 3:
                _, again = run_stream(bins["solve_" + s + v], [inst.line(cfg)], [60])
            if inst is None or again is None or again:
                check.violation("%s:%s:%s" % (s, cfg, key_of(inst) if inst else "?"), "%s (configuration %s) on %s: %s" % (s, cfg, brief(inst, cfg) if inst else "?", why), {"log": err})
        for l in R:
            p = l.split(" ", 3)
            idn, cfg, kind = p[0], p[1], p[2]
            rest = p[3] if len(p) > 3 else ""
            inst = by[idn]
            recs[idn]["res"].append({
                "sv": s, "cfg": cfg, "oct": cfg in OCT, "rev": REV[cfg], "opt": opt_of(prop, inst, s, cfg),
                "lim": bool(limited and limited(inst)), "err": rest if kind == "X" else "",
                "path": [int(x) for x in rest.split(",")] if kind == "P" and rest else []})
            nres[0] += 1
    use = [r for r in recs.values() if r["res"]]
    bads = tlc_records(check, spec, use, CFG, env={"PROP": prop})
    for r, f in bads:
        x = r["res"][int(f[0]) - 1]
        inst = by[str(r["id"])]
        check.violation("%s:%s:%s" % (x["sv"], x["cfg"], key_of(inst)),
                        "%s: %s (configuration %s) on [%s] returned %s %s" % (f[1], x["sv"], x["cfg"], brief(inst, x["cfg"]), x["path"][:2000], x["err"]), {"record": dict(r, res=[x])})
    check.cov["answers_judged"] = check.cov.get("answers_judged", 0) + nres[0]
    check.cov["instances"] = check.cov.get("instances", 0) + len(use)
    for r in use[:3]:
        check.sample({"instance": brief(by[str(r["id"])], "*"), "answers": len(r["res"]), "first": r["res"][0]})
    return recs


def brief(inst, cfg):
    if "large" in inst.tags:
        return "%s %s halls %s walls %s from %d to %d" % (inst.id, cfg, "x".join(map(str, inst.sizes)), ";".join("%d:%s" % (w["at"], ",".join(map(str, w["door"]))) for w in inst.walls) or "-", inst.s, inst.e)
    return inst.line(cfg)


def key_of(inst):
    if "large" in inst.tags:
        return brief(inst, "-").split(" ", 2)[2].replace(" ", "_")
    return inst.line("-").split(" ", 2)[2].replace(" ", "_")


def all_small_grids(rng, shapes, base, stride=1, hids=(1,), ends="corners"):
    """Every blocked/open pattern of the given shapes."""
    out = []
    n0 = base
    for sz in shapes:
        n = prod(sz)
        for m in range(0, 1 << n, stride):
            cells = [(m >> k) & 1 for k in range(n)]
            op = [k for k in range(n) if not cells[k]]
            if len(op) < 2:
                continue
            s = op[0] if rng.random() < 0.5 else rng.choice(op)
            e = op[-1] if rng.random() < 0.5 else rng.choice(op)
            if rng.random() < 0.5:
                s, e = e, s
            out.append(Inst(n0, "c", sz, cells, s, e, hid=rng.choice(hids)))
            n0 += 1
    return out


def standard(check, prop):
    rng, q = check.rng, check.quick
    k = 8 if q else 80
    I = []

    def add(x):
        x.id = len(I) + 1
        I.append(x)
    hids2 = (0, 1, 1) if prop == "S03" else (0, 1, 1, 2)
    if prop != "S04":
        for x in all_small_grids(rng, [(2, 2), (3, 2), (1, 5)] if q else [(2, 2), (3, 2), (2, 3), (1, 6), (3, 3), (4, 2)], 0, hids=(0, 1)):
            x.tags.add("axisonly" if x.hid == 1 else "")
            add(x)
        for _ in range(110 * k):
            x = random_grid(rng, 0, SMALL2, hids=(0, 1))
            x.tags.add("axisonly")
            add(x)
        for _ in range(90 * k):
            x = random_grid(rng, 0, SMALL2, hids=(0, 2))
            x.tags.add("octonly")
            add(x)
        for _ in range(60 * k):
            x = random_grid(rng, 0, SMALL3, hids=(0, 2))
            x.onlycfg = "o" if x.hid == 2 and rng.random() < 0.3 else "brw"
            if x.onlycfg != "o":
                x.hid = 1
            add(x)
        for _ in range(40 * k):
            add(random_grid(rng, 0, SMALL4, hids=(0, 1)))
        for _ in range(10 * k):
            add(random_grid(rng, 0, SMALL5, hids=(0, 1)))
        for _ in range(8 * k):
            add(random_grid(rng, 0, [(7,), (12,), (1,), (2,)], hids=(0, 1)))
        for w, h in [(33, 31), (9, 60)] if q else [(33, 31), (9, 60), (63, 61), (70, 5), (3, 300)]:
            x = serpentine(rng, 0, w, h)
            x.tags |= {"axisonly", "huge"}
            add(x)
        for _ in range(6 * k):
            x = big_grid(rng, 0, [(25, 9), (13, 21), (31, 17), (17, 33), (40, 40)])
            x.tags.add("axisonly")
            add(x)
        for _ in range(3 * k):
            x = big_grid(rng, 0, [(25, 9), (13, 21), (31, 17)], hids=(2,))
            x.tags.add("octonly")
            add(x)
        for _ in range(3 * k):
            x = big_grid(rng, 0, [(9, 7, 5), (4, 11, 6)])
            x.onlycfg = "brw"
            add(x)
        for _ in range(2 * k):
            add(big_grid(rng, 0, [(4, 5, 3, 6), (7, 2, 5, 3)]))
        for _ in range(5 * k):
            x = big_grid(rng, 0, [(15, 11), (11, 15), (25, 13), (33, 5)], tree=True)
            x.tags.add("axisonly")
            add(x)
        for _ in range(2 * k):
            x = big_grid(rng, 0, [(7, 5, 3), (3, 4, 7)], tree=True)
            x.onlycfg = "brw"
            add(x)
    for _ in range(60 * k):
        x = random_graph(rng, 0, rng.choice([1, 2, 2]), unit=True, tags=("unit",))
        add(x)
    for _ in range((250 if prop == "S04" else 40) * k):
        add(random_graph(rng, 0, rng.choice([1, 2, 2]), hid=None))
    for _ in range(3 if q else 20):
        add(hub_graph(rng, 0))
    if prop != "S04":
        for x in large(rng, q):
            add(x)
    for x in I:
        x.cap = rng.choice([0, 0, 0, 0, 1, 7, 100, 5000])
    return I


def large(rng, q):
    """More cells than 16 bits count. Judged in closed form, see spec/Halls.tla."""
    out = []
    for _ in range(1 if q else 6):
        for sz in ((66001,), (1, 66000), (66003, 1)):
            out.append(halls(rng, 0, sz, near=range(65300, 65900), hids=(0, 1)))
            out[-1].onlycfg = "bo" if len(sz) == 2 else "b"
        for sz in ((290, 240), (261, 259), (45, 40, 40), (17, 16, 20, 18)):
            out.append(halls(rng, 0, sz))
            out[-1].onlycfg = rng.choice(["br", "bw", "bl"])
        out.append(halls(rng, 0, (270, 251), hids=(2,)))
        out[-1].onlycfg = rng.choice("op")
    return out


def s01(check):
    I = standard(check, "S01")
    run(check, "S01", I, WALKERS)


def s02(check):
    I = standard(check, "S02")
    run(check, "S02", I, WALKERS)


def s03(check):
    I = standard(check, "S03")
    run(check, "S03", I, sorted(STEP_OPT_AXIS))


def s04(check):
    I = standard(check, "S04")
    run(check, "S04", I, sorted(COST_OPT))


def s05(check):
    rng, q = check.rng, check.quick
    k = 1 if q else 10
    I = []

    def add(x):
        x.id = len(I) + 1
        I.append(x)
    # every pattern of small grids, every pair of open ends of a few of them
    for x in all_small_grids(rng, [(2, 2), (3, 2), (2, 3), (3, 3)] + ([] if q else [(4, 3), (3, 4)]), 0, hids=(0, 2)):
        add(x)
    for sz in [(3, 3), (2, 4)]:
        for m in rng.sample(range(1 << prod(sz)), 60 if q else 200):
            cells = [(m >> b) & 1 for b in range(prod(sz))]
            op = [b for b in range(prod(sz)) if not cells[b]]
            for s in op:
                for e in op:
                    add(Inst(0, "c", sz, cells, s, e, hid=2))
    for _ in range(2500 * k):
        add(random_grid(rng, 0, [(4, 4), (5, 4), (5, 5), (6, 4), (4, 7), (7, 7), (8, 5), (1, 6), (6, 1), (9, 9)], hids=(0, 2)))
    for _ in range(25 * k):
        add(big_grid(rng, 0, [(25, 9), (13, 21), (31, 17), (17, 33), (40, 40)], hids=(2,)))
    for _ in range(25 * k):
        add(big_grid(rng, 0, [(25, 9), (13, 21), (31, 17)], hids=(2,), tree=True))
    for _ in range(1 if q else 6):
        for sz in ((200000, 1), (1, 150000)): # a long way to jump
            add(halls(rng, 0, sz, hids=(0, 2)))
            I[-1].onlycfg = "op"
        for sz in ((290, 240), (261, 259), (400, 170), (170, 400)):
            add(halls(rng, 0, sz, hids=(0, 2)))
            I[-1].onlycfg = rng.choice(["op", "ow", "lo"])
    run(check, "S05", I, sorted(JPS), spec="JpsContract")


MCB = """SPECIFICATION Spec
CONSTANT Shapes <- %s
INVARIANTS %s
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
"""


def bounded_models(check):
    """The memory-bounded searches themselves, on every small maze, at every limit."""
    tier = "Quick" if check.quick else "Thorough"
    tlc_model(check, "MCMGStar", MCB % (tier, "WithinLimit NoDangling OneId Counts SpentOnce SpentUnused Ways Sound Complete Unsaturated"),
              "MGStar, every maze of the shapes, every limit", workers=NCPU, heap="8g", timeout=250)
    tlc_model(check, "MCSMAStar", MCB % (tier, "WithinLimit OnceKnown RightAnswer Complete"),
              "SMAStar, every maze of the shapes, every limit", workers=NCPU, heap="8g", timeout=250)


def s07(check):
    rng, q = check.rng, check.quick
    bounded_models(check)
    k = 1 if q else 12
    I = []

    def add(x, lim):
        x.id = len(I) + 1
        x.limit = lim
        I.append(x)
    for _ in range(700 * k):
        x = random_grid(rng, 0, SMALL2 + [(5, 5), (6, 4)], hids=(0, 1))
        x.tags.add("axisonly")
        add(x, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 30, 40]))
    for _ in range(300 * k):
        x = random_grid(rng, 0, [(3, 3), (4, 3), (2, 5), (4, 4)], hids=(0, 2))
        x.tags.add("octonly")
        add(x, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 30, 40]))
    for _ in range(100 * k):
        x = random_grid(rng, 0, SMALL3, hids=(0, 1))
        x.onlycfg = "brw"
        add(x, rng.randint(0, 40))
    for _ in range(200 * k):
        add(random_graph(rng, 0, 2), rng.randint(0, 40))
    # one maze, every limit
    for _ in range(6 * k):
        x = random_grid(rng, 0, [(4, 4), (5, 3), (4, 3)], hids=(0, 1), modes=("far", "conn"))
        for lim in range(0, 45):
            y = Inst(0, "c", x.sizes, x.cells, x.s, x.e, hid=x.hid, tags={"axisonly"})
            add(y, lim)
    for _ in range(300 * k):
        x = random_grid(rng, 0, SMALL2, hids=(0, 1))
        x.tags.add("axisonly")
        add(x, 1000000)
    for _ in range(10 * k):
        x = big_grid(rng, 0, [(15, 11), (9, 13)], tree=True)
        x.tags.add("axisonly")
        add(x, rng.choice([5, 20, 60, 100, 200, 400, 1000000]))
    run(check, "S07", I, ["mgstar", "osmastar", "smastar"], limited=lambda i: i.limit < 1000000, variants=("", "guard"))
