"""G03, G04: graphs as stores of nodes and edges, and their compaction; judged by spec/GraphTrace.tla and spec/BuildContract.tla."""
import itertools
from vlib import *
from solver_checks import CFG
from mazes import *


def graph_binary(check):
    return build(check, [("graph", "graph.cc", ["-O1"] + SAN)]).get("graph")


def sessions_judged(check, b, what, sessions):
    lines = ["%d S %d %s" % (i, v, " ".join(ops)) for i, (v, ops) in enumerate(sessions)]
    recs = []
    for R, C in parallel(lambda part: run_stream(b, part, timeout=700), [lines[i::NCPU] for i in range(NCPU)]):
        for l in R:
            i, ev = l.split(" ", 1)
            ev = json.loads(ev)
            if ev:
                recs.append({"i": int(i), "events": ev})
        for begun, why, err in C:
            l = lines[int(begun.split()[0])] if begun else "? ?"
            check.violation(what + ":" + l.split(" ", 1)[1].replace(" ", "_"), "%s, operations %s: %s" % (what, l, why), {"log": err})
    for r in tlc_traces(check, "GraphTrace", recs, CFG, heap="3g"):
        l = lines[r["i"]].split(" ", 1)[1]
        check.violation(what + ":" + l.replace(" ", "_"), "%s, operations %s: not the graph that was asked for: %s" % (what, l, json.dumps(r["events"])[-1500:]), {"record": r})
    for r in recs[len(recs) // 2:len(recs) // 2 + 2]:
        check.sample({"operations": lines[r["i"]], "last": r["events"][-1:]})


def graph_session(rng, n):
    hi = rng.choice([2, 3, 5, 9])
    wts = rng.choice([[1], [0, 1], [1, 2, 3], [0, 5, 200]])
    node = lambda: rng.randint(0, hi)
    ops = ["n0,%d" % rng.randint(0, 3)] if rng.random() < 0.7 else ["L0,%d" % rng.randint(0, 5)]
    used = []
    for _ in range(n):
        s = rng.choice([0, 0, 0, 1, 2])
        x = rng.random()
        if x < 0.5:
            e = (node(), node(), rng.choice(wts))
            used.append(e)
            ops.append("%s%d,%d,%d,%d" % ((rng.choice("eeE"), s) + e))
        elif x < 0.58:
            ops.append("a%d,%d" % (s, node()))
        elif x < 0.8:
            e = rng.choice(used) if used and rng.random() < 0.8 else (node(), node(), rng.choice(wts))
            ops.append("%s%d,%d,%d,%d" % ((rng.choice("rrR"), s) + e))
        else:
            o = rng.choice("nLCmmmqqz")
            ops.append({"n": "n%d,%d" % (s, rng.randint(0, 3)), "L": "L%d,%d" % (s, rng.randint(0, 5)), "C": "C%d" % s, "m": "m%d,%d" % (s, rng.randint(0, 2)), "q": "q%d" % s, "z": "z%d" % s if rng.random() < 0.4 else "q%d" % s}[o])
    return ops


def g03(check):
    q, rng = check.quick, check.rng
    b = graph_binary(check)
    if not b:
        return
    sessions = [(k % 4, graph_session(rng, rng.choice([6, 15, 40] if q else [6, 15, 40, 120]))) for k in range(2000 if q else 20000)]
    alphabet = ["a0,1", "e0,0,1,2", "e0,0,1,3", "e0,1,0,2", "e0,1,1,1", "r0,0,1,2", "r0,0,1,3", "r0,1,1,1", "C0", "m1,0", "m0,1", "e1,0,1,2"]
    seqs = list(itertools.product(alphabet, repeat=4))
    if len(seqs) > (1500 if q else 20000):
        seqs = rng.sample(seqs, 1500 if q else 20000)
    sessions += [(k % 4, ["n0,%d" % (k // 4 % 4)] + list(sq)) for k, sq in enumerate(seqs)]
    sessions_judged(check, b, "graph", sessions)


# ---------------------------------------------------------------- G04

def prune_session(rng, n):
    """Undirected edges, in several goes, pruned in between."""
    N = rng.randint(2, 10)
    ops = ["n0,%d" % rng.randint(0, 3)]
    wts = rng.choice([[1], [1, 2, 3], [0, 1, 7], [5]])
    used = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        style = rng.random()
        es = []
        if style < 0.35: # a tree or a path with some chords
            for v in range(1, N):
                es.append((v, v - 1 if rng.random() < 0.6 else rng.randrange(v)))
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                es.append((rng.randrange(N), rng.randrange(N)))
        elif style < 0.5: # rings
            k = rng.randint(2, N)
            es += [(v, (v + 1) % k) for v in range(k)]
            es += [(rng.randrange(k), v) for v in range(k, N)]
        else:
            for _ in range(rng.randint(1, 2 * N)):
                es.append((rng.randrange(N), rng.randrange(N)))
        if rng.random() < 0.8:
            es = [e for e in es if e[0] != e[1]]
        rng.shuffle(es)
        for u, v in es:
            w = rng.choice(wts)
            used.append((u, v, w))
            ops.append("E0,%d,%d,%d" % (u, v, w))
            if rng.random() < 0.1:
                ops.append("E0,%d,%d,%d" % (u, v, rng.choice(wts)))
        if used and rng.random() < 0.2:
            ops.append("R0,%d,%d,%d" % rng.choice(used))
        if used and rng.random() < 0.2:
            ops.append("a0,%d" % rng.randrange(N))
        ops.append("P0,0,%d" % rng.randint(0, 1))
        if rng.random() < 0.3:
            ops.append("P0,0,1")
    return ops


def loops_maze(rng, sz):
    """Corridors with loops: a tree maze with a few walls knocked out."""
    cells = tree_cells(rng, sz)
    walls = [i for i, x in enumerate(cells) if x]
    for i in rng.sample(walls, min(len(walls), rng.choice([0, 1, 2, 4]))):
        cells[i] = 0
    return cells


def g04(check):
    q, rng = check.quick, check.rng
    b = graph_binary(check)
    tlc_model(check, "MCCompaction", MC_COMPACTION % ("Quick" if q else "Thorough"), "workers and pruning in any order (MCCompaction, %s)" % ("quick" if q else "thorough"), workers=NCPU, heap="10g", timeout=800)
    if not b:
        return
    sessions_judged(check, b, "prune", [(k % 3, prune_session(rng, 0)) for k in range(1500 if q else 20000)])
    # builds
    pool = []
    for s in [(4,), (3, 2), (3, 3)] + ([] if q else [(2, 2, 2), (4, 3), (1, 6), (5, 2)]):
        n = prod(s)
        masks = range(2 ** n)
        if n > 7:
            masks = rng.sample(masks, min(2 ** n, 150 if q else 1500))
        pool += [(s, [m >> i & 1 for i in range(n)]) for m in masks]
    for k in range(500 if q else 5000):
        s = rng.choice([(5, 5), (7, 7), (8, 5), (9, 9), (3, 12), (13,), (3, 3, 3), (4, 4, 2), (6, 2, 3)])
        x = rng.random()
        cells = loops_maze(rng, s) if x < 0.6 else random_cells(rng, prod(s), rng.choice([0, 0.2, 0.35, 0.5, 0.6]))
        if cells.count(0) > 70:
            cells = loops_maze(rng, s)
        pool.append((s, cells))
    # two junctions, each with a loop onto itself, joined by two corridors: pruning has to choose between them
    o = {(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (4, 2), (4, 3), (4, 4), (1, 2), (1, 3), (1, 4), (2, 4), (3, 4), (5, 4), (5, 5), (4, 5)}
    for k in range(8 if q else 60):
        w, h = rng.choice([(8, 6), (9, 6), (8, 8)])
        far = o | rng.choice([{(7, 0), (7, 1)}, {(7, 3), (7, 4), (7, 5)}, set()])
        flip = lambda x, y: (w - 1 - x if k & 1 else x, h - 1 - y if k & 2 else y)
        cells = [1] * (w * h)
        for c in far:
            x, y = flip(*c)
            cells[x + w * y] = 0
        pool.append(((w, h), cells))
    lines = []
    for i, (s, cells) in enumerate(pool):
        lines.append("%d B %d %s %s | %s" % (i, i % 4, " ".join(map(str, s)), "".join(map(str, cells)), " ".join(map(str, rng.sample([1, 2, 3, 4, 5, 6, 6, 8, 0], 4)))))
    recs = []
    for R, C in parallel(lambda part: run_stream(b, part, timeout=700), [lines[i::NCPU] for i in range(NCPU)]):
        for l in R:
            i, x = l.split(" ", 1)
            r = json.loads(x)
            r["i"] = int(i)
            recs.append(r)
        for begun, why, err in C:
            l = lines[int(begun.split()[0])] if begun else "? ?"
            check.violation("build:" + l.split(" ", 1)[1].replace(" ", "_"), "graph built from the grid %s: %s" % (l, why), {"log": err})
    rng.shuffle(recs)
    for r, f in tlc_records(check, "BuildContract", recs, CFG, heap="3g", per_shard_min=20):
        l = lines[r["i"]].split(" ", 1)[1]
        check.violation("build:%s:%s" % (l.replace(" ", "_"), f), "graph built from the grid %s: %s (run %s)" % (l, f[-1], f[0] if f else "?"), {"record": r})
    for r in recs[:2]:
        check.sample({"grid": lines[r["i"]], "graph": r["runs"][0]["nodes"]})


MC_COMPACTION = "SPECIFICATION Spec\nCONSTANT Shapes <- %s\nINVARIANTS TypeOK BuiltRight StaysRight EndsCompacted\nCHECK_DEADLOCK FALSE\n"
