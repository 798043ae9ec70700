"""C01-C03: heaps, queues, stacks and existence sets, judged by spec/Containers.tla."""
import itertools
from vlib import *
from solver_checks import CFG

BASE_KEYS = [0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129]


def container_binary(check):
    return build(check, [("containers", "containers.cc", ["-O1"] + SAN)]).get("containers")


def run_sessions(check, b, module, what, sessions):
    """sessions: list of (kind, variant, ops)."""
    lines = ["%d %s %d %s" % (i, k, v, " ".join(ops)) for i, (k, v, ops) in enumerate(sessions)]
    recs = []
    for R, C in parallel(lambda part: run_stream(b, part, timeout=700), [lines[i::NCPU] for i in range(NCPU)]):
        for l in R:
            i, ev = l.split(" ", 1)
            k, v, ops = sessions[int(i)]
            r = {"i": int(i), "events": json.loads(ev), "lifo": k == "K"}
            if k == "E":
                keys = set(BASE_KEYS)
                for o in ops:
                    p = o[1:].split(",")
                    if len(p) > 1:
                        keys |= {x for x in range(int(p[1]) - 1, int(p[1]) + 2) if x >= 0}
                r["keys"] = sorted(keys)
            if r["events"]:
                recs.append(r)
        for begun, why, err in C:
            l = lines[int(begun.split()[0])] if begun else "? ?"
            check.violation(what + ":" + l.split(" ", 1)[1].replace(" ", "_"), "%s, operations %s: %s" % (what, l, why), {"log": err})
    for r in tlc_traces(check, module, recs, CFG, heap="3g"):
        l = lines[r["i"]].split(" ", 1)[1]
        check.violation(what + ":" + l.replace(" ", "_"), "%s, operations %s: not what it owes its user: %s" % (what, l, json.dumps(r["events"])[:2000]), {"record": r})
    for r in recs[len(recs) // 2:len(recs) // 2 + 2]:
        check.sample({"operations": lines[r["i"]], "events": r["events"][-2:]})


# ---------------------------------------------------------------- C01

HEAPS = [2, 2, 3, 4, 5, 12, 14, 22, 23, 30]


def heap_session(rng, n):
    ops, nxt = ["n0,%d" % rng.choice([0, 0, 3, 40])], 0
    spread = rng.choice([2, 5, 30, 1000])
    grow = rng.choice([0.45, 0.6, 0.75])
    for _ in range(n):
        s = rng.choice([0, 0, 0, 1, 2])
        x = rng.random()
        nxt += 1
        key = rng.randint(-spread, spread)
        if x < grow:
            o = rng.choice("ppeqQiLNN" if rng.random() < 0.4 else "ppeqQiL")
            ops.append("%s%d,%d,%d" % (o, s, nxt, key))
            if o == "N" and rng.random() < 0.8:
                for _ in range(rng.choice([0, 0, 1, 3])):
                    nxt += 1
                    ops.append("N%d,%d,%d" % (s, nxt, rng.randint(-spread, spread)))
                if rng.random() < 0.9:
                    ops.append("S%d" % s)
        elif x < 0.9:
            o = rng.choice("ooDDbEEIIRU")
            ops.append("%s%d,%d,%d" % (o, s, rng.randint(0, 30), rng.randint(0, 30) if o == "R" else key))
        else:
            o = rng.choice("cmwzCTXklurnF")
            t = rng.choice([0, 1, 2])
            ops.append({"c": "c%d,%d" % (s, t), "m": "m%d,%d" % (s, t), "w": "w%d,%d" % (s, t), "z": "z%d" % s if s else "X0", "C": "C%d" % s, "T": "T%d,%d" % (s, rng.randint(0, 50)),
                        "X": "X%d" % s, "k": "k%d,%d" % (s, rng.randint(0, 9)), "l": "l%d,%d" % (s, key), "u": "u%d,%d" % (s, key), "r": "r%d" % s,
                        "n": "n%d,%d" % (s, rng.choice([0, 5])), "F": "F%d,%d,%d" % (s, rng.randint(0, 12), rng.randint(0, 10 ** 6))}[o])
    return ops


def heap_exhaustive(rng, variant, n, most):
    """Every order of insertion of n keys, then every element erased in turn (by position), and all taken out."""
    perms = list(itertools.permutations(range(n))) if n <= 7 else [rng.sample(range(n), n) for _ in range(most)]
    if len(perms) > most:
        perms = rng.sample(perms, most)
    for k, p in enumerate(perms):
        key = [x // 2 for x in p] if k % 2 else list(p)
        ops = ["n0"] + ["p0,%d,%d" % (i + 1, key[i]) for i in range(n)]
        ops += ["E0,%d" % (k % n) if k % 3 else "I0,%d" % (k % n)]
        ops += ["o0" if k % 4 < 2 else "D0"] * (n - 1)
        yield ("H", variant, ops)


def c01(check):
    q, rng = check.quick, check.rng
    tlc_model(check, "MCHeap", MC_HEAP % ("Quick" if q else "Thorough"), "the k-ary array implements the heap (MCHeap, %s)" % ("quick" if q else "thorough"), workers=NCPU, heap="8g", timeout=800)
    b = container_binary(check)
    if not b:
        return
    sessions = []
    for k in range(1500 if q else 15000):
        sessions.append(("H", rng.choice(HEAPS), heap_session(rng, rng.choice([10, 25, 60] if q else [10, 25, 60, 150]))))
    for v in (2, 3, 4, 5, 12, 14, 30):
        for n in ((4, 6, 10) if q else (4, 5, 6, 7, 10, 17)):
            sessions += list(heap_exhaustive(rng, v, n, 24 if q else 720))
    run_sessions(check, b, "HeapTrace", "heap", sessions)


MC_HEAP = "SPECIFICATION Spec\nCONSTANT Bounds <- %s\nVIEW View\nINVARIANTS TypeOK SameItems HeapOrder TopIsLargest\nCHECK_DEADLOCK FALSE\n"


# ---------------------------------------------------------------- C02

def seq_session(rng, n):
    ops, nxt = ["n0"], 0
    grow = rng.choice([0.4, 0.55, 0.7])
    for _ in range(n):
        s = rng.choice([0, 0, 1, 2])
        x = rng.random()
        nxt += 1
        if x < grow:
            ops.append("%s%d,%d" % (rng.choice("pe"), s, nxt))
        elif x < 0.88:
            ops += ["o%d" % s] * rng.choice([1, 1, 1, 4])
        else:
            ops.append({"n": "n%d", "c": "c%d,%d", "m": "m%d,%d", "w": "w%d,%d", "z": "z%d", "C": "C%d"}[rng.choice("nccmmwwzC")].replace("%d,%d", "%d,%d" % (s, rng.choice([0, 1, 2]))).replace("%d", str(s)))
    return ops


def c02(check):
    q, rng = check.quick, check.rng
    b = container_binary(check)
    if not b:
        return
    sessions = []
    for k in range(1600 if q else 16000):
        sessions.append((rng.choice("QK"), rng.choice([0, 0, 1]), seq_session(rng, rng.choice([10, 25, 60] if q else [10, 25, 60, 200]))))
    alphabet = ["p0", "o0", "c1,0", "m1,0", "C0", "w0,1", "p1", "o1"]
    seqs = list(itertools.product(alphabet, repeat=4 if q else 5))
    if len(seqs) > (1500 if q else 30000):
        seqs = rng.sample(seqs, 1500 if q else 30000)
    for k, sq in enumerate(seqs):
        ops = ["n0", "n1", "p0,101", "p0,102", "p1,103"]
        ops += [o + ",%d" % (i + 1) if o[0] == "p" else o for i, o in enumerate(sq)] + ["p0,9", "o0", "o1", "o0"]
        sessions.append(("QK"[k % 2], 0, ops))
    run_sessions(check, b, "SeqTrace", "queue or stack", sessions)


# ---------------------------------------------------------------- C03

def set_session(rng, n, far=()):
    ops = ["n0,%d" % rng.choice([0, 0, 10, 64])]
    hi = rng.choice([5, 40, 70, 130, 1000])
    key = lambda: rng.choice([rng.randint(0, hi), rng.choice([0, 1, 31, 32, 63, 64, 65, 127, 128])]) if not far or rng.random() < 0.5 else rng.choice(far)
    for _ in range(n):
        s = rng.choice([0, 0, 0, 1, 2])
        x = rng.random()
        if x < 0.5:
            ops.append("p%d,%d,%d" % (s, key(), rng.choice([0, 0, 1, 2, 3])))
        elif x < 0.72:
            ops.append("x%d,%d" % (s, key()))
        else:
            o = rng.choice("tttCTkAArrrccmnzHX" if not far else "tTkAcmnzX")
            ops.append({"t": "t%d" % s, "C": "C%d" % s, "T": "T%d,%d" % (s, key()), "k": "k%d" % s, "A": "A%d,%d,%d" % (s, key(), rng.choice([0, 1, 16])),
                        "r": "r%d,%d,%d" % (s, key(), rng.choice([0, 0, 1])), "c": "c%d,%d" % (s, rng.choice([0, 1, 2])), "m": "m%d,%d" % (s, rng.choice([0, 1, 2])),
                        "n": "n%d,%d" % (s, rng.choice([0, 20])), "z": "z%d" % s if s else "t0", "H": "H%d,%d" % (s, rng.choice([0, 0, 1, 7])), "X": "X%d,%d" % (s, rng.choice([0, 1]))}[o])
    return ops


def c03(check):
    q, rng = check.quick, check.rng
    b = container_binary(check)
    if not b:
        return
    sessions = []
    for k in range(1600 if q else 16000):
        sessions.append(("E", k % 4, set_session(rng, rng.choice([8, 20, 50] if q else [8, 20, 50, 150]))))
    for k in range(24 if q else 240): # keys that no narrow type counts
        sessions.append(("E", k % 4, set_session(rng, 12, [65535, 65536, 65537, 70000, 99990, 131071 if q else 131072 * 8])))
    alphabet = ["p0,0", "p0,2", "p0,64", "x0,2", "x0,64", "t0", "r0,3", "r0,66,1", "C0", "T0,70", "k0", "A0,5", "m1,0", "c1,0", "H0,0"]
    seqs = list(itertools.product(alphabet, repeat=3 if q else 4))
    if len(seqs) > (1700 if q else 30000):
        seqs = rng.sample(seqs, 1700 if q else 30000)
    for k, sq in enumerate(seqs):
        sessions.append(("E", k % 4, ["n0"] + list(sq) + ["p0,1", "p1,65", "x0,0"]))
    run_sessions(check, b, "KeySetTrace", "existence_set", sessions)
