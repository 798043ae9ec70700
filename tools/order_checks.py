"""S06, X01, X02: which cells the solvers ask about, and in which order, judged by the search state machines."""
from vlib import *
from mazes import *
from solver_checks import CFG, JPS, all_small_grids, bounded_models, key_of

POLICY = {"bfs": "fifo", "gbfs": "fifo", "dfs": "lifo", "gdfs": "lifo", "best_first": "minh", "gbest_first": "minh",
          "astar": "minf", "gstar": "minf", "dijkstra": "minf"}
ONEPASS = ["astar", "gstar", "mgstar", "best_first", "gbest_first", "bfs", "gbfs", "dfs", "gdfs", "flood", "dijkstra"]


def flags(s):
    return ["-O1", "-DSOLVER=" + s] + (["-DNOGRAPH"] if s in NOGRAPH else [])


def spy(check, jobs, alarm=20, cap=4000, hold=False):
    """jobs: {solver: [(Inst, cfgs)]}. Returns [(solver, inst, cfg, found, truncated, log)]; crashes are violations.
    With hold, what the pools had handed out is added to each: at the questions, at the end, at most."""
    bins = build(check, [("spy_" + s, "spy.cc", flags(s) + (["-DHOLD"] if hold else []) + (["-DPLAIN"] if s in JPS else [])) for s in jobs])
    out = []

    def one(job):
        s, part = job
        if "spy_" + s not in bins:
            return s, {}, [], []
        by, lines = {}, []
        for k, (i, c) in enumerate(part):
            l = i.line(c).split(" ", 1)[1]
            lines.append("%d %s %d" % (k, l, i.shuffle))
            by[str(k)] = i
        return (s, by) + run_stream(bins["spy_" + s], lines, [alarm, cap])
    split = []
    for s, js in jobs.items():
        n = 4 if len(js) > 400 else 1
        split += [(s, js[k::n]) for k in range(n)]
    for s, by, R, C in parallel(one, split):
        for begun, why, err in C:
            idn, cfg = (begun or "? ?").split()[:2]
            inst = by.get(idn)
            check.violation("%s:%s:%s" % (s, cfg, key_of(inst) if inst else "?"), "%s (configuration %s) on %s: %s" % (s, cfg, inst.line(cfg) if inst else "?", why), {"log": err})
        for l in R:
            p = l.split(" ")
            inst = by[p[0]]
            if p[2] == "X":
                check.violation("%s:%s:%s" % (s, p[1], key_of(inst)), "%s (configuration %s) on %s threw %s" % (s, p[1], inst.line(p[1]), p[3:]))
                continue
            nums = lambda k: [int(x) for x in p[k].split(",")] if len(p) > k and p[k] else []
            got = (s, inst, p[1], int(p[3]) > 0, p[4] == "1", nums(5))
            out.append(got + (nums(6), int(p[7]), int(p[8])) if hold else got)
    return out


def instances(check, count, shapes2=SMALL2, hids2=(0, 1)):
    rng = check.rng
    I = []
    for k in range(count):
        u = rng.random()
        if u < 0.6:
            x = random_grid(rng, k, shapes2, hids=hids2)
            x.oct = rng.random() < 0.35
        else:
            x = random_grid(rng, k, [z for z in SMALL3 if z[0] > 0])
            x.oct = rng.random() < 0.25
        if x.oct:
            x.hid = 2 if x.hid else 0
        x.shuffle = rng.choice([0, rng.randint(1, 10 ** 6)])
        x.weight = 1
        I.append(x)
    return I


def graphs(check, count, nmax=16):
    """Weighted graphs over two-dimensional coordinates, some with a consistent heuristic, some with an inflated one."""
    rng = check.rng
    I = []
    for k in range(count):
        x = random_graph(rng, k, 2, unit=rng.random() < 0.1)
        x.oct = False
        x.shuffle = rng.choice([0, rng.randint(1, 10 ** 6)])
        x.weight = 1
        I.append(x)
    return I


def record(s, x, cfg, found, trunc, log, **kw):
    r = {"kind": x.kind, "edges": [list(e) for e in x.edges], "sizes": x.sizes, "n": prod(x.sizes), "blocked": [i for i, c in enumerate(x.cells) if c], "oct": cfg in "op", "s": x.s, "e": x.e,
         "hid": x.hid, "weight": x.weight, "log": log, "found": found, "trunc": trunc, "sv": s, "cfg": cfg}
    r.update(kw)
    return r


def judge(check, module, recs, what):
    insts = {}
    for t in tlc_traces(check, module, recs, CFG):
        key = "%s:%s:%s" % (t["sv"], t["cfg"], "%s_%s_%d_%d_%d_%s" % ("x".join(map(str, t["sizes"])), "".join("1" if i in t["blocked"] else "0" for i in range(t["n"])) if t["kind"] == "c" else ",".join("%d:%d:%d" % tuple(e) for e in t["edges"]), t["s"], t["e"], t["hid"], "oct" if t["oct"] else "axis"))
        check.violation(key, "%s: %s (configuration %s) from %d to %d on %s %s asked for the neighbours of %s and %s" % (
            what, t["sv"], t["cfg"], t["s"], t["e"], t["sizes"], "blocked %s" % t["blocked"] if t["kind"] == "c" else "edges %s" % t["edges"], t["log"][:60], "found a route" if t["found"] else "found none"), {"record": t})
    for r in recs[:3]:
        check.sample({k: r[k] for k in ("sv", "cfg", "sizes", "blocked", "s", "e", "log", "found")})


def cfgs(x, axis2="br", axis3="br"):
    if x.oct:
        return "op" if len(x.sizes) == 2 else "o"
    return axis2 if len(x.sizes) == 2 else axis3


def s06(check):
    q = check.quick
    tlc_model(check, "MCSearch", MC % ("Quick" if q else "Thorough"), "Search, every maze of the shapes " + ("Quick" if q else "Thorough"), workers=NCPU, heap="8g", timeout=850)
    jobs = {}
    rng = check.rng
    for s in ONEPASS:
        L = []
        for x in instances(check, 120 if q else 1500):
            L.append((x, cfgs(x, "b" if s == "dijkstra" else "brl")))
        for _ in range(6 if q else 60):
            x = big_grid(rng, 0, [(25, 9), (13, 21), (31, 17)])
            x.oct, x.shuffle = rng.random() < 0.3, rng.choice([0, 7])
            x.hid = 2 if x.oct else 1
            L.append((x, cfgs(x, "b" if s == "dijkstra" else "brl")))
        for x in graphs(check, 100 if q else 1500):
            L.append((x, "g" if s == "dijkstra" else "ghi"))
        jobs[s] = L
    recs = [record(s, x, c, f, tr, log, pol="any", goal=False, open=True) for s, x, c, f, tr, log in spy(check, jobs)]
    judge(check, "SearchTrace", recs, "asked about a cell twice, or about one that was not discovered")
    # the others must halt
    others = ["eidastar", "eidbest_first", "eiddfs", "fringe", "idastar", "idbest_first", "iddfs", "smastar", "osmastar"]
    jobs = {}
    for s in others:
        L = []
        for x in instances(check, 150 if q else 1500, shapes2=[(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (1, 5), (6, 1)], hids2=(0, 1)):
            if len(x.sizes) == 3 and prod(x.sizes) > 12:
                continue
            if x.oct and prod(x.sizes) > 9:
                x.oct = False
                x.hid = min(x.hid, 1)
            L.append((x, cfgs(x, "brl")))
        if s not in NOGRAPH:
            for x in graphs(check, 100 if q else 1000):
                L.append((x, "ghi"))
        jobs[s] = L
    n = len(spy(check, jobs, alarm=30, cap=1))
    check.cov["halting_runs"] = n + len(recs)


MC = """SPECIFICATION Spec
CONSTANT Shapes <- %s
INVARIANTS OnlyReachable Disjoint FoundRight FailRight GoalUnopened Routes CostKept Shortest Cheapest Settled Once
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
"""


def x01(check):
    q = check.quick
    tlc_model(check, "MCSearch", MC % ("Quick" if q else "Thorough"), "Search, every maze of the shapes " + ("Quick" if q else "Thorough"), workers=NCPU, heap="8g", timeout=850)
    rng = check.rng
    jobs = {}
    for s in POLICY:
        L = []
        for x in instances(check, 250 if q else 2500):
            if s in ("best_first", "gbest_first", "astar", "gstar") and rng.random() < 0.25:
                x.weight = rng.choice([2, 3])
            if s not in ("best_first", "gbest_first", "astar", "gstar"):
                pass
            elif rng.random() < 0.7 and x.hid == 0:
                x.hid = 2 if x.oct else 1
            L.append((x, cfgs(x)))
        for _ in range(4 if q else 40):
            x = big_grid(rng, 0, [(12, 9), (9, 13), (16, 8)])
            x.oct, x.shuffle = rng.random() < 0.3, rng.choice([0, 7])
            x.hid = 2 if x.oct else 1
            L.append((x, cfgs(x)))
        for x in graphs(check, 200 if q else 2500):
            if s in ("best_first", "gbest_first", "astar", "gstar") and rng.random() < 0.25:
                x.weight = rng.choice([2, 3])
            L.append((x, "gi"))
        jobs[s] = L
    recs = []
    for s, x, c, f, tr, log in spy(check, jobs):
        r = record(s, x, c, f, tr, log, pol=POLICY[s], goal=s != "dijkstra", open=False)
        if s == "dijkstra":
            r["hid"] = 0
        recs.append(r)
    judge(check, "SearchTrace", recs, "not in the promised order")


DEEP = {"iddfs": ("g", "path", False), "eiddfs": ("g", "loose", False), "idastar": ("f", "path", True), "eidastar": ("f", "table", False),
        "idbest_first": ("h", "path", False), "eidbest_first": ("h", "table", False)}

MCD = """SPECIFICATION Spec
CONSTANT Shapes <- %s
INVARIANTS FoundRight FailRight Cheapest Within %s
PROPERTIES Grows %sTerminates
CHECK_DEADLOCK FALSE
"""


def x02(check):
    q = check.quick
    tlc_model(check, "MCDeepening", MCD % ("Quick" if q else "Thorough", "", "ByOne "), "Deepening, every maze of the shapes", workers=NCPU, heap="8g", timeout=850)
    tlc_model(check, "MCFringe", MCD % ("Quick" if q else "Thorough", "Exact", ""), "Fringe, every maze of the shapes", workers=NCPU, heap="8g", timeout=850)
    rng = check.rng
    jobs = {}
    for s in list(DEEP) + ["fringe"]:
        L = []
        for x in instances(check, 350 if q else 3500, shapes2=[(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (1, 5), (6, 1), (4, 3), (3, 4)], hids2=(0, 1)):
            if s != "fringe":
                if len(x.sizes) == 3 and prod(x.sizes) > 8 or x.oct and prod(x.sizes) > 6:
                    continue
                if prod(x.sizes) > 9 and sum(x.cells) < 3:
                    continue
            if rng.random() < 0.7 and x.hid == 0:
                x.hid = 2 if x.oct else 1
            if rng.random() < 0.25:
                x.weight = rng.choice([2, 3])
            L.append((x, cfgs(x)))
        for _ in range(10 if q else 100):
            x = big_grid(rng, 0, [(6, 5), (7, 4), (5, 7)], tree=True)
            x.oct, x.shuffle, x.hid = False, rng.choice([0, 7]), rng.choice([0, 1])
            L.append((x, cfgs(x)))
        if s not in NOGRAPH:
            for x in graphs(check, 250 if q else 2500):
                if prod(x.sizes) <= 12 or s == "fringe":
                    L.append((x, "gi"))
        jobs[s] = L
    deep, fr = [], []
    for s, x, c, f, tr, log in spy(check, jobs, alarm=30, cap=600):
        if s == "fringe":
            fr.append(record(s, x, c, f, tr, log))
        else:
            est, prune, strict = DEEP[s]
            deep.append(record(s, x, c, f, tr, log, est=est, prune=prune, strict=strict))
    judge(check, "DeepeningTrace", deep, "not iterative deepening within growing bounds")
    judge(check, "FringeTrace", fr, "not a fringe search within growing thresholds")


MCG = """SPECIFICATION Spec
CONSTANT Shapes <- %s
INVARIANTS KeepsTheNeeded KeptOnce Counts ParentsKept NothingLeft FarLess
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
"""


def x03(check):
    q = check.quick
    tlc_model(check, "MCGraveyard", MCG % ("Quick" if q else "Thorough"), "Graveyard, the counted nodes against what is needed, every maze of the shapes", workers=NCPU, heap="8g", timeout=850)
    rng = check.rng
    jobs = {}
    for s in ("gbfs", "gdfs", "gbest_first", "gstar", "gjps"):
        L = []
        lazy = "" if s == "gstar" else "l"
        for x in instances(check, 300 if q else 3000):
            x.hid = rng.choice([0, 2 if x.oct else 1])
            if s == "gjps":
                if len(x.sizes) > 2:
                    continue
                x.oct, x.hid, x.shuffle = True, 2, 0
            if s == "gstar" and (prod(x.sizes) > 12 or x.oct) and sum(x.cells) * 4 < prod(x.sizes):
                continue # too many equal ways
            L.append((x, cfgs(x, "br" + lazy)))
        for _ in range(12 if q else 120):
            x = big_grid(rng, 0, [(12, 9), (9, 13), (16, 8)], tree=s == "gstar" or rng.random() < 0.5)
            x.oct, x.shuffle = s == "gjps" or s != "gstar" and rng.random() < 0.3, 0 if s == "gjps" else rng.choice([0, 7])
            x.hid = 2 if x.oct else 1
            L.append((x, cfgs(x, "br" + lazy)))
        if s != "gjps":
            for _ in range(250 if q else 2500):
                x = random_graph(rng, 0, 2, wmax=200, hid=0 if rng.random() < 0.7 else 1)
                x.oct, x.weight, x.shuffle = False, rng.choice([1, 1, 2]), rng.choice([0, rng.randint(1, 10 ** 6)])
                L.append((x, "gi"))
        jobs[s] = L
    recs = []
    for s, x, c, f, tr, log, held, last, _ in spy(check, jobs, hold=True):
        if not tr:
            recs.append(record(s, x, c, f, tr, log, held=held, last=last, dup=s == "gstar", mute=s == "gjps"))
    judge(check, "GraveyardTrace", recs, "kept other nodes than those that lead on")


def x04(check):
    q = check.quick
    bounded_models(check)
    rng = check.rng
    jobs = {}
    for s in ("mgstar", "smastar", "osmastar"):
        L = []
        for x in instances(check, 700 if q else 7000, shapes2=SMALL2 + [(5, 5), (6, 4), (6, 6)]):
            x.limit = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 30, 40, 60, 10 ** 6])
            L.append((x, cfgs(x, "br" + rng.choice(["", "l"]))))
        for _ in range(6 if q else 60):
            x = random_grid(rng, 0, [(4, 4), (5, 3), (4, 3)], hids=(0, 1), modes=("far", "conn"))
            for lim in range(2, 45):
                y = Inst(0, "c", x.sizes, x.cells, x.s, x.e, hid=x.hid, limit=lim)
                y.oct, y.shuffle, y.weight = False, 0, 1
                L.append((y, "b"))
        for _ in range(12 if q else 120):
            x = big_grid(rng, 0, [(12, 9), (9, 13), (16, 8)], tree=rng.random() < 0.5)
            x.oct, x.shuffle, x.hid = False, 0, 1
            x.limit = rng.choice([10, 20, 60, 100, 200])
            L.append((x, "br"))
        for x in graphs(check, 300 if q else 3000):
            x.limit = rng.randint(2, 30)
            L.append((x, "gi"))
        jobs[s] = L
    recs = []
    for s, x, c, f, tr, log, held, last, peak in spy(check, jobs, hold=True, cap=1):
        recs.append({"kind": x.kind, "sv": s, "cfg": c, "limit": x.limit, "peak": peak, "inst": x.line(c)})
    for r in tlc_traces(check, "BoundedRecord", recs, CFG):
        check.violation("%s:%s" % (r["sv"], r["inst"]), "%s held %d blocks at a time with a limit of %d nodes: %s" % (r["sv"], r["peak"], r["limit"], r["inst"]), {"record": r})
