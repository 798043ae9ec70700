"""S08, S10, S11: sessions of searches on shared pools, judged by spec/Session.tla."""
import itertools
from vlib import *
from mazes import *
from solver_checks import CFG

MC = """SPECIFICATION Spec
CONSTANT %s
INVARIANTS TypeOK HeapBack
PROPERTIES AnswersStay CleanEnd
CHECK_DEADLOCK FALSE
"""


def mem_binary(check):
    """One program with every solver in every configuration."""
    objs = []
    for s in SOLVERS:
        fl = ["-O0"] + SAN + ["-DSOLVER=" + s]
        if s in JPS:
            fl.append("-DJPS")
        elif s in NOGRAPH:
            fl.append("-DNOGRAPH")
        objs.append(("mem-%s.o" % s, "mem_solver.cc", fl))
    b = build(check, objs)
    if len(b) != len(objs):
        return None
    return build(check, [("mem", "mem.cc", ["-O0"] + SAN, sorted(b.values()))]).get("mem")


def cfgs_of(s):
    return "bl" if s in NOGRAPH else "blg"


class Insts:
    def __init__(self):
        self.lines, self.info = [], []

    def grid(self, sz, cells, s, e, limit=10 ** 6, cap=0, hid=1, note=""):
        i = len(self.lines)
        cs, ce = coord(s, sz), coord(e, sz)
        self.lines.append("I %d c %d %d %d %d %d %d %s %d %d %d" % (i, sz[0], sz[1], cs[0], cs[1], ce[0], ce[1], "".join(map(str, cells)), limit, cap, hid))
        self.info.append({"kind": "c", "n": prod(sz), "note": note, "limit": limit})
        return i

    def graph(self, n, edges, s, e, limit=10 ** 6, cap=0):
        i = len(self.lines)
        self.lines.append("I %d g %d 1 %d 0 %d 0 %s %d %d 0" % (i, n, s, e, ",".join("%d:%d:%d" % x for x in edges) or "-", limit, cap))
        self.info.append({"kind": "g", "n": n, "note": "", "limit": limit})
        return i


def make_insts(rng, count, small):
    """A mix of instances; returns Insts. Those with at most `small` cells are given to every solver."""
    I = Insts()
    for k in range(count):
        if k % 4 == 3:
            n = rng.randint(3, 7)
            edges = [(u, v, rng.randint(1, 6)) for u in range(n) for v in range(u + 1, n) if rng.random() < 0.55]
            I.graph(n, edges, 0, n - 1, cap=rng.choice([0, 0, 40]))
        else:
            big = k % 4 == 2
            sz = (rng.randint(6, 14), rng.randint(6, 14)) if big else (rng.randint(2, 4), rng.randint(2, 3))
            cells = random_cells(rng, prod(sz), rng.choice([0.1, 0.25, 0.4]))
            s, e = rng.sample(range(prod(sz)), 2)
            if rng.random() < 0.85:
                cells[s] = cells[e] = 0
            lim = rng.choice([10 ** 6, 10 ** 6, 10 ** 6, 6, 10, 25]) if rng.random() < 0.5 else 10 ** 6
            # with heuristic 2 (Chebyshev) every configuration has a consistent one
            I.grid(sz, cells, s, e, limit=lim, cap=rng.choice([0, 0, 0, 200]), hid=rng.choice([0, 1, 2]))
    return I


def add_limited(rng, I, count):
    """Mazes with a low memory limit, for the searches that heed it."""
    for _ in range(count):
        sz = (rng.randint(3, 6), rng.randint(3, 5))
        cells = random_cells(rng, prod(sz), rng.choice([0, 0.1, 0.25]))
        s, e = rng.sample(range(prod(sz)), 2)
        cells[s] = cells[e] = 0
        I.grid(sz, cells, s, e, limit=rng.choice([4, 6, 8, 10, 12, 14, 17, 20, 25, 30]), hid=rng.choice([0, 1, 1, 2]))
        I.info[-1]["only"] = ("mgstar", "smastar", "osmastar")


def usable(s, c, info):
    if s not in info.get("only", (s,)):
        return False
    if (c == "g") != (info["kind"] == "g"):
        return False
    if s in EXPONENTIAL and info["n"] > 16:
        return False
    return True


def run_sessions(check, binary, I, sessions, what, shards=NCPU):
    """sessions: list of (pools, mode, k, commands). Returns {index: (events, outs)}; crashes are violations."""
    lines = ["%d %s %s %d %s" % (i, p, m, k, ";".join(c)) for i, (p, m, k, c) in enumerate(sessions)]
    res = {}

    def one(part):
        return run_stream(binary, part, (30,), timeout=700, prefix=I.lines)
    parts = [lines[i::shards] for i in range(shards)]
    for out, crashes in parallel(one, [p for p in parts if p]):
        for l in out:
            i, ev, outs = l.split(" ", 2)
            res[int(i)] = (json.loads(ev), json.loads(outs))
        for begun, why, err in crashes:
            i = int(begun.split()[0]) if begun else None
            s = sessions[i] if i is not None else None
            check.violation("session:" + (describe(I, s).replace(" ", "_") if s else "?"), "%s: session %s: %s" % (what, describe(I, s) if s else "?", why), {"session": s, "log": err})
    return res


def describe(I, s):
    p, m, k, cmds = s
    used = sorted({int(c.split(",")[3]) for c in cmds if c != "Z"})
    return "pools=%s fail=%s%d %s with %s" % (p, m, k, ";".join(cmds), " / ".join(I.lines[i][2:] for i in used))


def requests(sess):
    """The requests of a session, in the order in which the harness numbers them."""
    out = []
    for c in sess[3]:
        if c != "Z":
            n, cf, cl, i = c.lstrip("!").split(",")
            if (n, cf, int(i)) not in out:
                out.append((n, cf, int(i)))
    return out


def judge(check, I, sessions, res, normal, what, mem):
    recs, idx = [], []
    for i, (ev, outs) in sorted(res.items()):
        rq = requests(sessions[i])
        if not mem:
            ev = [e for e in ev if e[0] in (4, 5, 6)]
        recs.append({"i": i, "events": ev, "outs": outs, "normal": [{"req": j, "answer": normal[q]} for j, q in enumerate(rq) if q in normal]})
    # long traces first, so that shards are even
    recs.sort(key=lambda r: -len(r["events"]))
    for r in tlc_traces(check, "SessionTrace", recs, CFG, heap="3g"):
        s = sessions[r["i"]]
        check.violation("session:" + describe(I, s).replace(" ", "_"), "%s: session %s: answers %s, normally %s" % (what, describe(I, s), r["outs"], r["normal"]), {"record": r, "session": s})
    for r in recs[len(recs) // 2:len(recs) // 2 + 3]:
        check.sample({"session": describe(I, sessions[r["i"]]), "events": r["events"][:40], "answers": r["outs"]})


def reference(check, binary, I, reqs):
    """The answer to each request, when it is the first and only search on fresh pools."""
    sessions = [("D", "-", 0, ["%s,%s,1,%d" % q]) for q in reqs]
    res = run_sessions(check, binary, I, sessions, "single search")
    normal = {}
    for i, (ev, outs) in res.items():
        normal[reqs[i]] = outs[0]
    return normal


def all_requests(I):
    return [(s, c, i) for i, inf in enumerate(I.info) for s in SOLVERS for c in cfgs_of(s) if usable(s, c, inf)]


def s08(check):
    q, rng = check.quick, check.rng
    tlc_model(check, "MCSession", MC % ("Blocks = 2" if q else "Blocks = 3"), "Session", workers=4)
    b = mem_binary(check)
    if not b:
        return
    I = make_insts(rng, 24 if q else 80, 16)
    reqs = all_requests(I)
    normal = reference(check, b, I, reqs)
    rev = reference(check, b, I, reqs[::-1])
    for r in normal:
        if r in rev and rev[r] != normal[r]:
            check.violation("order:%s,%s:%s" % (r[0], r[1], I.lines[r[2]].replace(" ", "_")), "the answer to %s on %s is %s or %s, depending on what ran before" % (r[:2], I.lines[r[2]], normal[r], rev[r]))
    for r, a in normal.items():
        if not a.startswith("P") or "(" in a:
            check.violation("answer:%s,%s:%s" % (r[0], r[1], I.lines[r[2]].replace(" ", "_")), "%s on %s answers %s" % (r[:2], I.lines[r[2]], a))
    sessions = []
    for k in range(900 if q else 12000):
        cmds = []
        # several searches, on few instances, so that requests recur; cleanup left to the caller is made up for by Z
        pool = rng.sample(reqs, 3) if k % 3 else [r for r in rng.sample(reqs, min(200, len(reqs))) if r[0] == rng.choice(SOLVERS)][:3] or rng.sample(reqs, 2)
        armed = rng.random() < 0.5
        n = rng.randint(3, 7)
        hit = rng.randrange(n) if armed else -1
        for j in range(n):
            r = rng.choice(pool)
            cl = rng.random() < 0.6
            cmds.append(("!" if j == hit else "") + "%s,%s,%d,%d" % (r[0], r[1], cl, r[2]))
            if not cl:
                cmds.append("Z")
        mode = rng.choice("PU") if armed else "-"
        sessions.append((rng.choice("DTHR" if mode != "U" else "DTH"), mode, rng.choice([1, 2, 3, 5, 8, 13, 21, 40]) if armed else 0, cmds))
    for r in reqs if not q else rng.sample(reqs, min(len(reqs), 700)):
        # the same search twice, with cleanup and without
        cmd = "%s,%s,%d,%d"
        sessions.append((rng.choice("DTH"), "-", 0, [cmd % (r[0], r[1], 1, r[2]), cmd % (r[0], r[1], 0, r[2]), "Z", cmd % (r[0], r[1], 1, r[2])]))
    res = run_sessions(check, b, I, sessions, "repeated searches")
    judge(check, I, sessions, res, normal, "not repeatable", False)


def s11(check):
    q, rng = check.quick, check.rng
    tlc_model(check, "MCSession", MC % ("Blocks = 2" if q else "Blocks = 3"), "Session", workers=4)
    b = mem_binary(check)
    if not b:
        return
    I = make_insts(rng, 20 if q else 90, 16)
    add_limited(rng, I, 40 if q else 150)
    reqs = all_requests(I)
    sessions = []
    for r in reqs:
        for pools in ("R",) if q and rng.random() < 0.6 else ("R", rng.choice("DTH")):
            cmd = "%s,%s,%d,%d"
            cl = rng.random() < 0.7
            sessions.append((pools, "-", 0, [cmd % (r[0], r[1], cl, r[2])] + ([] if cl else ["Z"]) + ([cmd % (r[0], r[1], 1, r[2])] if rng.random() < 0.25 else [])))
    if q:
        # the longest traces are kept for the thorough run
        limited = [s for s in sessions if "only" in I.info[int(s[3][0].split(",")[3])]]
        others = [s for s in sessions if "only" not in I.info[int(s[3][0].split(",")[3])]]
        sessions = limited + rng.sample(others, min(len(others), 900))
    res = run_sessions(check, b, I, sessions, "memory traffic")
    if q:
        res = {i: x for i, x in res.items() if len(x[0]) <= 2500}
    judge(check, I, sessions, res, {}, "memory is not returned as it was taken", True)


def s10(check):
    q, rng = check.quick, check.rng
    tlc_model(check, "MCSession", MC % ("Blocks = 2" if q else "Blocks = 3"), "Session", workers=4)
    b = mem_binary(check)
    if not b:
        return
    I = make_insts(rng, 12 if q else 48, 16)
    add_limited(rng, I, 3 if q else 20)
    reqs = all_requests(I)
    normal = reference(check, b, I, reqs)
    # how many allocations does each search make?
    probes = [(p, m, 0, ["!%s,%s,1,%d" % r]) for r in reqs for p, m in (("R", "P"), ("D", "U"), ("T", "U"))]
    pres = run_sessions(check, b, I, probes, "search")
    sessions = []
    for i, (p, m, _, cmds) in enumerate(probes):
        if i not in pres:
            continue
        n = next(e[2] for e in pres[i][0] if e[0] == 6)
        ks = list(range(1, n + 1))
        lim = 6 if q else 60
        if len(ks) > lim:
            ks = ks[:2] + rng.sample(ks[2:], lim - 2)
        for k in ks:
            cmd = cmds[0][1:]
            mode = m if rng.random() < 0.75 else m.lower()
            other = rng.choice(reqs)
            tail = [cmd]
            if rng.random() < 0.3:
                tail.append("%s,%s,1,%d" % other)
            if rng.random() < 0.3:
                sessions.append((p, mode, k, [("!" + cmd).replace(",1,", ",0,", 1), "Z"] + tail))
            else:
                sessions.append((p, mode, k, ["!" + cmd] + tail))
    if q and len(sessions) > 2600:
        sessions = rng.sample(sessions, 2600)
    res = run_sessions(check, b, I, sessions, "failing allocation")
    if q:
        res = {i: x for i, x in res.items() if len(x[0]) <= 1500}
    judge(check, I, sessions, res, normal, "an allocation that failed did damage", True)
