"""S09: the entry point of the solvers, judged by spec/Entry.tla."""
import itertools
from vlib import *
from mazes import *
from solver_checks import CFG

MC = """SPECIFICATION Spec
INVARIANTS ResetOnce RunRight RunFirst FirstWins Answers
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
"""
MODE = {"k": "ok", "t": "throw", "n": "null", "h": "hidden"}


def s09(check):
    q, rng = check.quick, check.rng
    tlc_model(check, "MCEntry", MC, "Entry, every request", workers=4)
    bins = build(check, [("entry", "entry.cc", ["-O0"] + SAN)])
    if "entry" not in bins:
        return
    reqs = []

    def add(maze, sz, cells, s, e, form, nc, algo, pools):
        reqs.append((maze, sz, cells, s, e, form, nc, algo, pools))
    forms = "cmlopq"
    # every combination of ends, failure, cleanup and pools
    ends = [((0, 0), (1, 1)), ((0, 0), (0, 0)), ((1, 0), (1, 1)), ((0, 1), (1, 0)), ((0, 0), (2, 0)), ((0, 5), (0, 0)), ((2, 0), (2, 0)), ((1, 0), (1, 0))]
    k = 0
    for pools in itertools.product("ktnh", repeat=3):
        for (s, e) in ends:
            for nc in (0, 1):
                for algo in ("ok", "throw"):
                    add("cbg"[k % 3], (2, 2), [0, 1, 0, 0], s, e, forms[(k // 3) % 6], nc, algo, "".join(pools))
                    k += 1
    # every pair of coordinates in and around small mazes
    for sz in [(3,), (2, 3), (3, 2), (2, 2, 2)]:
        for cells in ([0] * prod(sz), [rng.randint(0, 1) for _ in range(prod(sz))]):
            cs = list(itertools.product(*[range(x + 2) for x in sz]))
            pairs = [(a, b) for a in cs for b in cs]
            if q and len(pairs) > 900:
                pairs = rng.sample(pairs, 900)
            for a, b in pairs:
                add(rng.choice("cbg"), sz, cells, a, b, rng.choice(forms), rng.randint(0, 1), rng.choice(["ok", "ok", "throw"]), "".join(rng.choice("kkkktnh") for _ in range(3)))
    for _ in range(1500 if q else 20000):
        sz = tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 3)))
        cells = random_cells(rng, prod(sz), 0.2)

        def end():
            return tuple(rng.choice([rng.randint(0, x - 1), rng.randint(0, x - 1), rng.randint(0, x - 1), x, x + rng.randint(0, 5), 2 ** 31, 2 ** 32 - 1, 2 ** 32 - x, 65536]) if rng.random() < 0.6 else rng.randint(0, x - 1) for x in sz)
        a = end()
        b = a if rng.random() < 0.15 else end()
        add(rng.choice("cbg"), sz, cells, a, b, rng.choice(forms), rng.randint(0, 1), rng.choice(["ok", "throw"]), "".join(rng.choice("kktnh") for _ in range(3)))
    lines = ["%d %s %d %s %s %s %s %s %d %s %s" % (i, m, len(sz), " ".join(map(str, sz)), "".join(map(str, c)), " ".join(map(str, s)), " ".join(map(str, e)), f, nc, al, p)
             for i, (m, sz, c, s, e, f, nc, al, p) in enumerate(reqs)]
    R, C = run_stream(bins["entry"], lines)
    for begun, why, err in C:
        l = lines[int(begun.split()[0])] if begun else "?"
        check.violation("entry:" + l.split(" ", 1)[-1].replace(" ", "_"), "request %s: %s" % (l, why), {"log": err})
    recs = []
    for l in R:
        p = l.split(" ", 3)
        i = int(p[0])
        m, sz, c, s, e, f, nc, al, pools = reqs[i]
        out = p[3] if len(p) > 3 else ""
        recs.append({"id": i, "sizes": list(sz), "blocked": [j for j, x in enumerate(c) if x], "s": [min(x, 10 ** 6) for x in s], "e": [min(x, 10 ** 6) for x in e],
                     "cleanup": not nc, "fails": al == "throw", "pools": [MODE[x] for x in pools], "log": [] if p[1] == "-" else p[1].split(","),
                     "kind": "path" if p[2] == "P" else "thrown", "path": [int(x) for x in out.split(",")] if p[2] == "P" and out else [], "exc": out if p[2] == "X" else ""})
    for r in tlc_traces(check, "EntryTrace", recs, CFG):
        check.violation("entry:" + lines[r["id"]].split(" ", 1)[1].replace(" ", "_"), "request [%s]: events %s, outcome %s %s %s" % (lines[r["id"]], r["log"], r["kind"], r["path"], r["exc"]), {"record": r})
    for r in recs[:3]:
        check.sample(r)
