"""H01, U01, U02: distances, numeric utilities and printed durations, judged by spec/MetricContract.tla and spec/NumberContract.tla."""
import math
from vlib import *
from solver_checks import CFG
from grid_checks import limbs

INT = {"u8": (0, 255), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1),
       "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1)}


def signed(n):
    return [-1 if n < 0 else 1, limbs(abs(n))]


def judged(check, module, what, lines, convert):
    """Runs the lines through the harness and TLC; convert(kind, record, words) makes the record for the specification."""
    b = build(check, [("num", "num.cc", ["-O0"] + SAN)]).get("num")
    if not b:
        return
    ls = ["%d %s" % (i, l) for i, l in enumerate(lines)]
    recs = []
    for R, C in parallel(lambda part: run_stream(b, part, timeout=700), [ls[i::NCPU] for i in range(NCPU)]):
        for l in R:
            i, x = l.split(" ", 1)
            line = lines[int(i)]
            r = convert(line[0], json.loads(x), line.split())
            r["kind"], r["line"] = line[0], line
            recs.append(r)
        for begun, why, err in C:
            l = lines[int(begun.split()[0])] if begun else "?"
            check.violation("%s:%s" % (what, l.replace(" ", "_")[:160]), "%s, %s: %s" % (what, l[:300], why), {"log": err})
    check.rng.shuffle(recs)
    for r, f in tlc_records(check, module, recs, CFG, heap="3g", per_shard_min=20):
        check.violation("%s:%s:%s" % (what, r["line"].replace(" ", "_")[:160], f), "%s, %s: %s (case %s)" % (what, r["line"][:300], f[-1], f[0] if f else "?"), {"line": r["line"]})
    for r in recs[:3]:
        check.sample({"item": r["line"][:160]})


# ---------------------------------------------------------------- H01

def h01(check):
    q, rng = check.quick, check.rng
    lines = []
    scalars = ["i32", "u32", "i64", "u64", "f", "d"]
    boxes = [(1, 12), (2, 5), (3, 3), (4, 2), (5, 2)] if q else [(1, 30), (2, 9), (3, 4), (4, 3), (5, 2), (6, 2)]
    for t in ("u8", "u32", "u64", "i8", "i32", "i64"):
        for s in scalars:
            for K, m in boxes:
                lines.append("D %s %s %d %d" % (t, s, K, m))
        top = INT[t][1]
        for k in range(150 if q else 1500):
            K = rng.choice([1, 2, 3, 4, 5, 7])
            s = rng.choice(["i64", "u64", "d"] if top > 2 ** 31 else scalars[:4] + ["d"])
            most = min(top, {"i64": 2 ** 62, "u64": 2 ** 63, "d": 2 ** 52, "i32": 2 ** 28, "u32": 2 ** 28}[s] // K)
            edge = [0, 1, most, most - 1, most // 2, most // 2 + 1, 127, 128, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32]
            c = [min(most, rng.choice(edge) if rng.random() < 0.7 else rng.randint(0, most)) for _ in range(2 * K)]
            lines.append("P %s %s %d %s" % (t, s, K, " ".join(map(str, c))))
        for k in range(60 if q else 600):
            K = rng.choice([1, 1, 2, 3, 4, 5])
            most = min(top, 2 ** 48)
            edge = [0, 0, 1, 2, most, most - 1, most // 2, most // 2 + 1, most // 3]
            c = [rng.choice(edge) if rng.random() < 0.6 else rng.randint(0, most) for _ in range(2 * K)]
            lines.append("F %s %s %d %s" % (t, rng.choice("fdd"), K, " ".join(map(str, c))))

    def convert(kind, r, w):
        if kind == "P":
            big = lambda xs: [limbs(x) if isinstance(x, int) and x >= 0 else [-1] for x in xs]
            return {k: big(r[k]) for k in ("a", "b", "ab", "ba")}
        if kind == "F":
            big = lambda xs: [limbs(x) if isinstance(x, int) and x >= 0 else [-1] for x in xs]
            return dict(r, **{k: big(r[k]) for k in ("a", "b", "ab", "ba")})
        return r
    judged(check, "MetricContract", "distance", lines, convert)


# ---------------------------------------------------------------- U01

def values(rng, t, n, lo=None):
    a, b = INT[t]
    a = a if lo is None else max(a, lo)
    vs = {a, a + 1, b, b - 1, b // 2, b // 2 + 1, 0, 1, 2, max(a, -1)} | {x for x in (2 ** k + e for k in (7, 8, 15, 16, 31, 32, 63) for e in (-1, 0, 1)) if a <= x <= b}
    while len(vs) < min(n, (b - a) // 2):
        vs.add(rng.randint(a, b))
    return sorted(vs)


def u01(check):
    q, rng = check.quick, check.rng
    lines = []
    for t, (lo, hi) in INT.items():
        for _ in range(2 if q else 20):
            vs = values(rng, t, 12)
            lines.append("O %s %s" % (t, " ".join(map(str, sorted(rng.sample(vs, 12))))))
        vs = range(lo + (lo < 0), hi + 1) if hi < 300 else values(rng, t, 400, lo + (lo < 0))
        lines.append("A %s %s" % (t, " ".join(map(str, vs))))
        if lo == 0: # every power that the type can hold, of small and of sampled bases
            ps = []
            for b in sorted(set(list(range(0, 256 if q else 1000)) + values(rng, t, 300))):
                if b <= hi:
                    e = 0
                    while b ** e <= hi and e <= (70 if b < 2 else 64):
                        ps.append((b, e))
                        e += 1
            for k in range(0, len(ps), 400):
                lines.append("W %s %s" % (t, " ".join("%d %d" % p for p in ps[k:k + 400])))
        for r in ("same", "size"):
            top = hi if r == "same" else 2 ** 64 - 1
            for K in (1, 2, 3, 4, 6):
                for _ in range(3 if q else 30):
                    cs = []
                    for _ in range(200):
                        c = []
                        left = top
                        for k in range(K): # close to the largest product that fits, on either side
                            x = rng.random()
                            side = rng.randint(0, 3) if x < 0.1 else left if k == K - 1 else int(min(left, max(1, round(top ** (1 / K) * rng.choice([0.5, 1, 1, 2])))))
                            side += rng.choice([0, 0, 0, 1, -1])
                            side = max(0, min(hi, side))
                            c.append(side)
                            left //= max(1, side)
                        rng.shuffle(c)
                        cs += c
                    lines.append("M %s %s %d %s" % (t, r, K, " ".join(map(str, cs))))
    if True: # all pairs of bytes
        pairs = [(a, b) for a in range(256) for b in range(256)] if not q else [(a, b) for a in range(0, 256) for b in {0, 1, 255 // max(1, a) - 1, 255 // max(1, a), 255 // max(1, a) + 1, 255} if 0 <= b <= 255]
        for k in range(0, len(pairs), 1000):
            lines.append("M u8 same 2 " + " ".join("%d %d" % p for p in pairs[k:k + 1000]))
    for t in "fd":
        lines.append("O %s -1e30 -2.5 -1 -0.25 0 0.125 1 1.5 3 1e9 1e30" % t)

    def convert(kind, r, w):
        if kind == "A":
            return {"v": [signed(x) for x in r["v"]], "sign": r["sign"], "wide": r["wide"], "abs": [signed(x) for x in r["abs"]]}
        if kind == "W":
            return {"p": [[signed(b), e, signed(x)] for b, e, x in r["p"]]}
        if kind == "M":
            return {"top": signed(r["top"]), "p": [[[signed(x) for x in c], signed(p)] for c, p in r["p"]]}
        return r
    judged(check, "NumberContract", "utility", lines, convert)


# ---------------------------------------------------------------- U02

def u02(check):
    q, rng = check.quick, check.rng
    lines = []
    for n in (-3, -1, 0, 1, 2, 3, 5, 999, 1000, 1001, 59, 3600, 12345678):
        for k in (0, 1, 3, 8, 10, 13, 20, 23, 30, 33, 40):
            lines.append("S %d %d" % (n, k))
    for _ in range(1200 if q else 20000):
        n = rng.choice([1, -1]) * rng.randrange(2 ** rng.randint(1, 20))
        k = rng.randint(0, 45)
        lines.append("S %d %d%s" % (n, k, rng.choice(["", "", " 0", " 1", " 2", " 4", " 8", " 10", " 100", " 1000"])))
    for _ in range(800 if q else 20000):
        w = rng.choice(["0", "1", "10", "100", "120", "5", "1000000", str(rng.randrange(10 ** 6))])
        f = rng.choice([None, None, "0", "000", "5", "50", "050", "100100", str(rng.randrange(10 ** 5)).zfill(rng.randint(1, 8))[:8]])
        lines.append("Z %s%s%s" % (rng.choice(["", "", "-"]), w, "" if f is None else "." + f))

    def convert(kind, r, w):
        if kind == "S":
            sc = int(w[3]) if len(w) > 3 else 0
            return {"text": r["text"], "neg": int(w[1]) < 0, "num": limbs(abs(int(w[1]))), "k": int(w[2]), "scale": sc}
        return r
    judged(check, "NumberContract", "text", lines, convert)
