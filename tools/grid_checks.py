"""G01, G02: shapes, indices and neighbourhoods of grids, judged by spec/GridContract.tla."""
import itertools
from vlib import *
from solver_checks import CFG
from mazes import *

TYPES = {"uint8_t": 2 ** 8 - 1, "uint16_t": 2 ** 16 - 1, "uint32_t": 2 ** 32 - 1, "size_t": 2 ** 64 - 1,
         "int8_t": 2 ** 7 - 1, "int16_t": 2 ** 15 - 1, "int32_t": 2 ** 31 - 1, "int64_t": 2 ** 63 - 1}


def limbs(n):
    if n < 0: # nothing that a specification speaks of
        return [-1]
    out = []
    while n:
        out.append(n % 1000)
        n //= 1000
    return out


def grid_binaries(check, types):
    return build(check, [("grid_" + t, "grid.cc", ["-O0", "-DCOORD_T=" + t] + SAN) for t in types])


def shapes_upto(K, P):
    """All shapes of K sides with at most P cells."""
    if K == 0:
        yield ()
        return
    for d in range(1, P + 1):
        for rest in shapes_upto(K - 1, P // d):
            yield (d,) + rest


def random_shape(rng, K, most):
    while True:
        d = [rng.choice([1, 2, 3, 4, 5, 7, 9, 12]) if rng.random() < 0.8 or K > 2 else rng.randint(1, max(1, most // 2)) for _ in range(K)]
        if rng.random() < 0.3:
            rest = prod(d[:-1])
            if rest <= most:
                d[-1] = max(1, most // rest)
                rng.shuffle(d)
        if prod(d) <= most:
            return tuple(d)


def large_shape(rng, K, top):
    """Sides whose product is close to, but not above, top."""
    d = []
    left = top
    for k in range(K - 1):
        d.append(max(1, min(left, int(rng.choice([2, 3, 10, 255, 256, 257, 1000, 65535, 65536, 65537, 2 ** 31, 2 ** 32 + 1, round(left ** (1 / (K - k)))])))))
        left //= d[-1]
    d.append(max(1, rng.choice([left, left, max(1, left // 2), max(1, left - 1)])))
    rng.shuffle(d)
    return tuple(d)


def run_grids(check, jobs, what, heap="3g"):
    """jobs: {type: [line without id]}"""
    bins = {k[5:]: v for k, v in grid_binaries(check, list(jobs)).items()}
    parts = []
    for t in jobs:
        if t in bins:
            lines = ["%d %s" % (i, l) for i, l in enumerate(jobs[t])]
            k = max(1, min(NCPU, len(lines) // 50))
            parts += [(t, lines[j::k]) for j in range(k)]
    recs = []
    for (t, ls), (R, C) in zip(parts, parallel(lambda p: run_stream(bins[p[0]], p[1], timeout=700), parts)):
        for l in R:
            i, x = l.split(" ", 1)
            line = jobs[t][int(i)]
            r = json.loads(x)
            r["kind"] = line[0]
            if r["kind"] == "J":
                r = {"kind": "J", "sizes": [limbs(d) for d in r["sizes"]], "product": limbs(r["product"]),
                     "cases": [{"i": limbs(c["i"]), "nd": [limbs(max(x, 0)) for x in c["nd"]] if min(c["nd"]) >= 0 else [], "back": limbs(c["back"])} for c in r["cases"]]}
            r["from"] = t + " " + line
            recs.append(r)
        for begun, why, err in C:
            line = jobs[t][int(begun.split()[0])] if begun else "?"
            check.violation("%s:%s:%s" % (what, t, line.replace(" ", "_")[:120]), "%s, coordinates of %s, %s: %s" % (what, t, line, why), {"log": err})
    check.rng.shuffle(recs)
    for r, f in tlc_records(check, "GridContract", recs, CFG, heap=heap, per_shard_min=20):
        line = r["from"]
        check.violation("%s:%s:%s" % (what, line.replace(" ", "_")[:120], f), "%s, coordinates of %s: %s (case %s)" % (what, line[:200], f[-1], f[0] if f else "?"), {"line": line})
    for r in recs[:3]:
        check.sample({"item": r["from"][:160]})


def g01(check):
    q, rng = check.quick, check.rng
    jobs = {}
    for t, top in TYPES.items():
        ls = []
        small = [s for K in range(1, 7) for s in shapes_upto(K, 8 if q else 16)]
        if q:
            small = rng.sample(small, min(len(small), 160))
        ls += ["I " + " ".join(map(str, s)) for s in small]
        for K in range(1, 7):
            for _ in range(6 if q else 60):
                ls.append("I " + " ".join(map(str, random_shape(rng, K, min(top, 255 if q else 700)))))
            for _ in range(6 if q else 80):
                s = large_shape(rng, K, top)
                n = prod(s)
                st = strides(s)
                idx = {0, 1, n - 1, n - 2, n // 2} | {x * k + e for x in st for k in (1, 2, rng.randrange(1, 1000)) for e in (-1, 0, 1)} | {rng.randrange(n) for _ in range(8)}
                idx = sorted(i for i in idx if 0 <= i < n)
                ls.append("J %s | %s" % (" ".join(map(str, s)), " ".join(map(str, idx))))
        jobs[t] = ls
    run_grids(check, jobs, "conversions")


def g02(check):
    q, rng = check.quick, check.rng
    types = ["uint8_t", "uint32_t", "size_t", "int8_t", "int32_t", "int64_t"]
    pool = []
    shapes = [(1,), (2,), (5,), (1, 1), (1, 4), (3, 1), (2, 2), (2, 3), (3, 3)] + ([] if q else [(4, 2), (3, 4), (2, 5)]) + [(2, 2, 2), (1, 3, 2), (2, 1, 1, 3), (2, 2, 1, 2)]
    for s in shapes: # every wall pattern of the small shapes
        n = prod(s)
        masks = range(2 ** n) if n <= (6 if q else 9) else rng.sample(range(2 ** n), min(2 ** n, 60 if q else 700))
        pool += [(s, "".join(str(m >> i & 1) for i in range(n))) for m in masks]
    for _ in range(250 if q else 3000):
        K = rng.choice([1, 2, 2, 3, 3, 4])
        s = random_shape(rng, K, 100 if K < 4 else 60)
        n = prod(s)
        cells = tree_cells(rng, s) if rng.random() < 0.3 else random_cells(rng, n, rng.choice([0, 0.1, 0.3, 0.5, 0.8]))
        pool.append((s, "".join(map(str, cells))))
    jobs = {t: [] for t in types}
    for s, cells in pool:
        for t in rng.sample(types, 2 if q else 3):
            jobs[t].append("N %d %s %s" % (rng.choice([0, 0, 1, 2, 3, 4]), " ".join(map(str, s)), cells))
    for t in types: # long thin grids, to the limit of the narrow types
        for s in ((127, 1), (1, 127), (1, 1, 63)) + (((255,), (1, 255)) if "uint" in t or t == "size_t" else ()):
            jobs[t].append("N %d %s %s" % (rng.choice([0, 1]), " ".join(map(str, s)), "".join(map(str, random_cells(rng, prod(s), 0.3)))))
    run_grids(check, jobs, "grid")
