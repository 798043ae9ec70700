"""Shared machinery: building harnesses from /repo, running them, running TLC, evidence, verdicts."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CHDR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

SOLVERS = ["astar", "best_first", "bfs", "dfs", "dijkstra", "eidastar", "eidbest_first", "eiddfs", "flood", "fringe",
           "gbest_first", "gbfs", "gdfs", "gjps", "gstar", "idastar", "idbest_first", "iddfs", "jps", "mgstar", "osmastar", "smastar"]
JPS = {"jps", "gjps"}
NOGRAPH = {"jps", "gjps", "eiddfs", "eidbest_first", "eidastar", "iddfs"}  # do not instantiate on graphs
EXPONENTIAL = {"idastar", "eidastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs", "smastar", "osmastar"}


class Check:
    """One run of one check: collects coverage and violations, and ends with the verdict."""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []
        self.bad = []          # (key, text, replay-object)
        self.known_hit = []
        self.rng = random.Random(SEED * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(prop)))
        self.tmp = tempfile.mkdtemp(prefix="chdr-%s-" % prop)
        self.known = known_findings(prop)

    def sample(self, x, n=4):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, key, text, replay=None):
        """key identifies the failing input/call site/history exactly, for the known-findings file."""
        for k, txt in self.known:
            if k == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.bad.append((key, text, replay))

    def finish(self):
        for k, txt in self.known:
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, txt))
        rc = 0
        if self.bad:
            rc = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, int(time.time() * 1000)))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": SEED,
                           "violations": [{"key": k, "what": t, "case": r} for k, t, r in self.bad[:20]], "total": len(self.bad)}, f, indent=1)
            for k, t, r in self.bad[:5]:
                print("  %s: %s" % (k[:160], t[:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s %s: %s states, %s traces, %.1fs" % (self.prop, "FAIL" if rc else "ok", self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        sys.stdout.flush()
        os._exit(rc)


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> key=<key> <text>' of known_findings.txt."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- building

_src_hash = None


def src_hash():
    global _src_hash
    if _src_hash is None:
        h = hashlib.sha256()
        for root in [os.path.join(REPO, "include")]:
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(open(p, "rb").read())
        for f in ("chdr.hpp", "stdafx.hpp"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                h.update(open(p, "rb").read())
        _src_hash = h.hexdigest()
    return _src_hash


STD = ["-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-pthread"]
SAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


def build(check, jobs):
    """jobs: list of (name, source file in harness/, flags[, objects to link]). A name that ends in .o is compiled only.
    Returns {name: path}; a failed build is a violation."""
    os.makedirs(BUILD, exist_ok=True)
    prune_builds()
    hh = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f.endswith(".h"):
            hh.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    hh = hh.hexdigest()

    def one(job):
        name, src, flags = job[:3]
        objs = list(job[3]) if len(job) > 3 else []
        s = os.path.join(VERIF, "harness", src)
        key = hashlib.sha256(("|".join([src_hash(), hh, hashlib.sha256(open(s, "rb").read()).hexdigest()] + flags + objs)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "%s-%s" % (name, key))
        if os.path.exists(out):
            os.utime(out)
            return name, out, None
        cmd = ["g++"] + STD + flags + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), s] + (["-c"] if name.endswith(".o") else objs) + ["-o", out + ".tmp"]
        for attempt in range(2):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode == 0:
                os.replace(out + ".tmp", out)
                return name, out, None
        return name, None, p.stdout
    res = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for name, out, err in ex.map(one, jobs):
            if err is not None:
                errs = [l for l in err.splitlines() if "error" in l][:3]
                check.violation("build:" + name, "the code no longer compiles for " + name + ": " + " / ".join(errs), {"log": err[-4000:]})
            else:
                res[name] = out
    return res


def prune_builds(limit=600):
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    if len(fs) > limit:
        fs.sort(key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
        for p in fs[:len(fs) - limit // 2]:
            try:
                os.remove(p)
            except OSError:
                pass


def parallel(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")


def run_stream(binary, lines, args=(), timeout=600, prefix=()):
    """Feeds lines to a harness which prints 'B <id...>' before and 'R <id...> ...' after each item.
    A crash or hang is attributed to the last item begun, and the harness is restarted after that line.
    Returns (list of R lines, list of (line index, B text, reason))."""
    results, crashes = [], []
    i = 0
    t_end = time.time() + timeout
    while i < len(lines):
        data = "\n".join(list(prefix) + lines[i:]) + "\n"
        with tempfile.TemporaryFile("w+", errors="replace") as fo, tempfile.TemporaryFile("w+", errors="replace") as fe:
            # A limit on its output, for a driver that runs wild.
            p = subprocess.Popen(["sh", "-c", 'ulimit -f 800000; exec "$0" "$@"', binary, *map(str, args)], stdin=subprocess.PIPE, stdout=fo, stderr=fe, text=True, errors="replace", env=ENV)
            late = ""
            try:
                p.communicate(data, timeout=max(5, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                late = "\n(timed out)"
            fo.seek(0)
            fe.seek(0)
            out, err = fo.read(), fe.read(4000000) + late
        begun = None
        for l in out.split("\n"):
            if l.startswith("B "):
                begun = l[2:]
            elif l.startswith("R "):
                results.append(l[2:])
                begun = None
        if p.returncode == 0:
            break
        reason = "signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode
        if p.returncode == -14:
            reason = "did not terminate (alarm)"
        m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|.*Assertion.*failed.*)", err)
        if m:
            reason += ": " + m.group(1)[:300]
        crashes.append((begun, reason, err[-2500:]))
        if len(crashes) > 4 or begun is None:
            break
        # resume after the line whose id is the first word of what was begun
        idn = begun.split()[0]
        j = next((k for k in range(i, len(lines)) if lines[k].split(" ", 1)[0] == idn), None)
        if j is None:
            break
        i = j + 1
    return results, crashes


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=(), cwd=SPEC, depth=None):
    """Runs TLC on spec/<module>.tla with the text cfg. Returns (rc, output, stats)."""
    d = tempfile.mkdtemp(prefix="chdr-tlc-")
    try:
        c = os.path.join(d, "c.cfg")
        open(c, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d,
               "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "-DTLA-Library=" + cwd,
               "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-workers", str(workers), "-deadlock", *extra, "-config", c, os.path.join(cwd, module + ".tla")]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, timeout=timeout, cwd=d)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        st = (0, 0)
        if m:
            st = (int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", "")))
        return rc, out, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


class MachineryError(Exception):
    pass


def tlc_model(check, module, cfg, label, expect_ok=True, **kw):
    """Exhaustive model checking of a specification. The spec itself failing is an error of the machinery."""
    rc, out, st = tlc(module, cfg, **kw)
    check.cov["states"] += st[0]
    check.cov["transitions"] += st[1]
    if rc == 124 and not check.quick and "is violated" not in out and "were violated" not in out and "Error:" not in out:
        check.cov.setdefault("models", []).append({"model": label + " (stopped after %s s, not exhausted)" % kw.get("timeout"), "states": st[0], "transitions": st[1]})
        return out
    if rc != 0:
        raise MachineryError("TLC on %s (%s) ended with %d:\n%s" % (module, label, rc, out[-3000:]))
    check.cov.setdefault("models", []).append({"model": label, "states": st[0], "transitions": st[1]})
    return out


def not_a_value(rc, out):
    """TLC could not evaluate the specification on what was recorded (as opposed to: ran out of memory or time)."""
    return rc not in (0, 12, 124) and "OutOfMemory" not in out and "StackOverflow" not in out and re.search(
        r"unable to fingerprint|Attempted to|was not in the domain|tried to access|evaluation of|The exception was a", out) is not None


def tlc_records(check, module, records, cfg="", shards=None, heap="2g", env=None, timeout=800, per_shard_min=40):
    """Validates records (one JSON object each) against spec/<module>.tla, which prints <<"BAD", index, ...>> for each
    record that the specification rejects and <<"DONE", n>> when it has looked at all of its records.
    Returns list of (record, [bad fields])."""
    if not records:
        return []
    k = shards or max(1, min(NCPU, len(records) // per_shard_min))
    parts = [records[i::k] for i in range(k)]

    def one(ip):
        i, part = ip
        f = os.path.join(check.tmp, "%s-%d-%d.ndjson" % (module, i, random.getrandbits(30)))
        with open(f, "w") as h:
            for r in part:
                h.write(json.dumps(r) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        rc, out, st = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
        if not_a_value(rc, out):
            # What the code did is no value of the kind that the specification speaks of: a verdict on that record.
            done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
            j = next((x for x in range(len(part)) if x + 1 not in done), None)
            if j is not None and len(part) > 1:
                rest = part[:j] + part[j + 1:]
                odd.append(part[j])
                return one((i, rest)) if len(odd) < 20 else (part[:0], 0, "", st)
            odd.append(part[0])
            return part[:0], 0, "", st
        return part, rc, out, st
    bads, odd = [], []
    for part, rc, out, st in parallel(one, list(enumerate(parts))):
        check.cov["states"] += st[0]
        check.cov["transitions"] += st[1]
        done = re.findall(r'<<"DONE", (\d+)>>', out)
        if rc != 0 or len(set(done)) != len(part):
            raise MachineryError("TLC on %s ended with %d, %d of %d records done:\n%s" % (module, rc, len(set(done)), len(part), out[-3000:]))
        check.cov["traces_validated_against_impl"] += len(part)
        for m in re.finditer(r'<<"BAD", (\d+)((?:, (?:"[^"]*"|-?\d+|TRUE|FALSE))*)>>', out):
            fs = [x.strip().strip('"') for x in m.group(2).split(",")[1:]]
            bads.append((part[int(m.group(1)) - 1], fs))
    return bads + [(r, ["0", "no value that the specification speaks of"]) for r in odd]


def tlc_traces(check, module, traces, cfg="", shards=None, heap="2g", env=None, timeout=800, per_shard_min=20):
    """Trace validation with search: spec/<module>.tla prints <<"DONE", t>> when some behaviour explains all of trace t,
    and <<"AT", t, l>> is printed (via a view of the deepest line) so that a rejection can be located.
    Returns list of (trace, deepest line explained)."""
    if not traces:
        return []
    k = shards or max(1, min(NCPU, len(traces) // per_shard_min))
    parts = [traces[i::k] for i in range(k)]

    def one(ip):
        i, part = ip
        f = os.path.join(check.tmp, "%s-%d-%d.ndjson" % (module, i, random.getrandbits(30)))
        with open(f, "w") as h:
            for r in part:
                h.write(json.dumps(r) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        rc, out, st = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
        if not_a_value(rc, out):
            at = re.findall(r'\bt = (\d+)', out)
            if at and int(at[-1]) <= len(part):
                odd.append(part[int(at[-1]) - 1])
                rest = part[:int(at[-1]) - 1] + part[int(at[-1]):]
                return one((i, rest)) if rest and len(odd) < 20 else (part[:0], set(), st)
        if rc != 0:
            raise MachineryError("TLC on %s ended with %d:\n%s" % (module, rc, out[-3000:]))
        done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
        return part, done, st
    rej, odd = [], []
    for part, done, st in parallel(one, list(enumerate(parts))):
        check.cov["states"] += st[0]
        check.cov["transitions"] += st[1]
        check.cov["traces_validated_against_impl"] += len(part)
        rej += [t for i, t in enumerate(part, 1) if i not in done]
    return rej + odd
