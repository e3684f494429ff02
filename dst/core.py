"""The runner every check goes through: seeded cases, statistics, minimisation, replay files, evidence.

A check is a class with
    pid, title, rule, real, stubs, assumptions   what it is and what it runs
    quick, thorough                              number of cases at each tier
    case(i, rng, tier) -> dict                   the i-th case; everything random about it is decided here
    run(case, work, st) -> [(signature, text)]   executes it; [] when the property held
    lighter(case)                                (optional) iterator of simpler cases, for minimisation
A case is plain data: running it again is exactly the same execution, and a replay file is a case.
"""
import ast
import collections
import errno
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import sys
import time
import traceback
from . import build
from .simrun import HarnessError, VERIF, Work, limits, sweep

REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
REGRESS = os.path.join(VERIF, "regress")


class Stats:
    """What one or many cases did."""
    def __init__(self):
        self.c = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.fp = hashlib.sha256()
        self.disturbed = None  # the execution whose schedule and faults decide the verdict
        self.skip = None

    def res(self, r, main=False):
        """account for one simulated execution"""
        h = r.h
        c = self.c
        c["runs"] += 1
        c["steps"] += h["steps"]
        c["switches"] += h["nswitch"]
        c["threads"] += h["nthreads"]
        c["sim_ns"] += h["simtime"]
        c["clock_reads"] += h["nclk"]
        c["ops"] += h["nops"]
        c["spurious_wakeups"] += h["nspur"]
        c["stalled_threads"] += h["nstall"]
        self.sets["interleavings"].add(h["ileave"])
        for l in r.log:
            if l.startswith("FAULT "):
                f = l.split(" ")
                name = {"S": "short", "N": "disk-full", "X": "dead-descriptor", "C": "kill-before", "D": "kill-after", "T": "torn-write-and-kill"}.get(f[2], f[2])
                if f[2] == "E":
                    name = errno.errorcode.get(int(f[4]), f[4])
                c["fault:" + f[1] + ":" + name] += 1
        self.fp.update(repr(r.fingerprint()).encode())
        if os.environ.get("VERIF_DEBUG"):
            self.__dict__.setdefault("recs", []).append(r)
        if main:
            self.disturbed = r
        return r

    def count(self, k, n=1):
        self.c[k] += n

    def add(self, name, x):
        self.sets[name].add(x)

    def merge(self, o):
        self.c.update(o["c"])
        for k, v in o["sets"].items():
            self.sets[k] |= v

    def dump(self):
        return {"c": dict(self.c), "sets": {k: set(v) for k, v in self.sets.items()}, "fp": self.fp.hexdigest()}


class Check:
    level = "exploration"
    assumptions = []
    needs = ()
    quick = 100
    thorough = 2000
    budget = {"quick": 420, "thorough": 6 * 3600}

    def prepare(self, tier):
        pass

    def lighter(self, case):
        return iter(())


def load(pid):
    m = importlib.import_module("dst.checks." + {"D": "compiler", "I": "files", "W": "witness", "J": "js", "R": "reader"}[pid[0]])
    return getattr(m, pid)()


# ------------------------------------------------------------------------------------------------ running cases
CHK = None
TIER = None
SEED = None


def init(pid, tier, seed):
    global CHK, TIER, SEED
    CHK, TIER, SEED = load(pid), tier, seed
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def make_case(chk, i, tier, seed):
    rng = random.Random("%s/%d/%d" % (chk.pid, seed, i))
    return chk.case(i, rng, tier)


def execute(chk, case):
    """-> (violations, stats); harness trouble is retried once"""
    for attempt in (0, 1):
        st = Stats()
        try:
            with Work(chk.pid) as w:
                v = chk.run(case, w, st)
            return v, st
        except HarnessError:
            if attempt:
                raise


def worker(job):
    i, case, twice = job
    try:
        if case is None:
            case = make_case(CHK, i, TIER, SEED)
        v, st = execute(CHK, case)
        d = st.dump()
        mism = 0
        if twice:
            v2, st2 = execute(CHK, case)
            mism = int(st2.fp.hexdigest() != d["fp"] or v2 != v)
            if mism and os.environ.get("VERIF_DEBUG"):
                for k, (a, b) in enumerate(zip(st.recs, st2.recs)):
                    if a.fingerprint() != b.fingerprint():
                        sys.stderr.write("case %d run %d: %s rc %s/%s out %s err %s log %s\n" % (
                            i, k, {n: (a.h[n], b.h[n]) for n in a.h if a.h[n] != b.h[n]}, a.rc, b.rc, a.out == b.out,
                            (a.err[-150:], b.err[-150:]) if a.err != b.err else True, [(x, y) for x, y in zip(a.log, b.log) if x != y][:3]))
        return i, case, v, d, twice, mism, None, st.skip
    except Exception:
        return i, case, [], Stats().dump(), False, 0, traceback.format_exc(), None


# ------------------------------------------------------------------------------------------------ known findings
def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------------------------------------ minimisation
def ddmin(items, test, deadline):
    """smallest sublist (1-minimal if time allows) for which test holds"""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        if len(items) == 1:
            if test([]):
                return []
            return items
        size = max(1, len(items) // n)
        some = False
        for k in range(0, len(items), size):
            if time.time() > deadline:
                return items
            rest = items[:k] + items[k + size:]
            if test(rest):
                items = rest
                n = max(n - 1, 2)
                some = True
                break
        if not some:
            if size == 1:
                return items
            n = min(len(items), n * 2)
    return items


def minimise(chk, case, sig, limit):
    deadline = time.time() + limit

    def fails(c):
        try:
            v, st = execute(chk, c)
        except Exception:
            return None
        return st if any(s == sig for s, _ in v) else None

    log = []
    st = fails(case)
    if st is None:
        return case, ["did not fail again"]
    # 1. simpler programs, inputs, options: whatever the check offers
    progress = True
    while progress and time.time() < deadline - limit * 0.5:
        progress = False
        for c in chk.lighter(case):
            if time.time() > deadline - limit * 0.5:
                break
            s = fails(c)
            if s is not None:
                case, st, progress = c, s, True
                break
    # 2. faults and clock jumps
    conf = case.get("conf", {})
    for key in ("fault", "jump"):
        if conf.get(key):
            n0 = len(conf[key])

            def test(x, key=key):
                return fails({**case, "conf": {**case["conf"], key: x}}) is not None
            best = ddmin(list(conf[key]), test, deadline)
            case = {**case, "conf": {**case["conf"], key: best}}
            log.append("%s list %d -> %d" % (key, n0, len(best)))
    # 3. the schedule: first as explicit deviations from the default policy, then fewer of them
    conf = case.get("conf", {})
    if conf.get("sched") in (2, 3):
        st = fails(case)
        plain = {**case, "conf": {k: v for k, v in conf.items() if k not in ("p", "pct", "seed", "spurious", "stall")} | {"sched": 1}}
        if fails(plain) is not None:
            case = plain
            log.append("schedule irrelevant: default policy fails too")
        elif st is not None and st.disturbed is not None and not st.disturbed.h["devover"]:
            dev = [list(d) for d in st.disturbed.dev]
            base = {k: v for k, v in conf.items() if k not in ("p", "pct", "spurious", "stall")}

            def mk(d):
                return {**case, "conf": {**base, "sched": 4, "dev": d}}
            if fails(mk(dev)) is not None:
                n0 = len(dev)
                dev = ddmin(dev, lambda d: fails(mk(d)) is not None, deadline)
                case = mk(dev)
                log.append("schedule deviations %d -> %d" % (n0, len(dev)))
            else:
                log.append("schedule kept as its seed")
    return case, log


def write_replay(chk, case, sig, text, log, tier, seed, i):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s.json" % (chk.pid, hashlib.sha256(json.dumps([case, sig], sort_keys=True, default=str).encode()).hexdigest()[:12])
    p = os.path.join(REPLAYS, name)
    with open(p, "w") as f:
        json.dump({"property": chk.pid, "signature": sig, "violation": text, "seed": seed, "case_index": i, "tier": tier,
                   "minimisation": log, "case": case}, f, indent=1, default=str)
    return p


def brief(case):
    """a case as it goes into the evidence: large parts cut"""
    s = json.dumps(case, default=str)
    return json.loads(s) if len(s) < 3000 else {k: (v if len(json.dumps(v, default=str)) < 800 else "(%d bytes)" % len(json.dumps(v, default=str)))
                                                for k, v in case.items()}


# ------------------------------------------------------------------------------------------------ the check itself
def main(pid, tier, seed):
    t0 = time.time()
    sweep()
    build.build_all()
    chk = load(pid)
    chk.prepare(tier)
    limits()
    t1 = time.time()
    jobs = []
    rd = os.path.join(REGRESS, pid)
    if os.path.isdir(rd):
        for k, f in enumerate(sorted(os.listdir(rd))):
            jobs.append((-1 - k, json.load(open(os.path.join(rd, f)))["case"], False))
    n = int(os.environ.get("VERIF_CASES", getattr(chk, tier)))
    every = max(2, n // 12)
    jobs += [(i, None, i % every == 0) for i in range(n)]
    deadline = t0 + chk.budget[tier]
    tot = Stats()
    viol, errors, samples = [], [], []
    done = rechecked = mism = skipped = 0
    skips = collections.Counter()
    kn = known(pid)
    knhit = collections.Counter()
    nontrivial = set()
    stop_at = None
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(int(os.environ.get("VERIF_JOBS", "8")), init, (pid, tier, seed)) as pool:
        it = pool.imap_unordered(worker, jobs, chunksize=1)
        left = len(jobs)
        while left:
            try:
                i, case, v, d, tw, mm, err, skip = it.next(timeout=max(1, (stop_at or deadline) - time.time()))
            except multiprocessing.TimeoutError:
                break
            left -= 1
            if err:
                errors.append((i, err))
                continue
            if skip:
                skipped += 1
                skips[skip] += 1
            done += 1
            tot.merge(d)
            rechecked += tw
            if mm:
                mism += 1
                sys.stderr.write("NOTE: case %d was not reproducible\n" % i)
            if not skip:
                nontrivial.add(d["fp"])
            if len(samples) < 3 and not skip and i >= 0:
                samples.append({"case": i, **brief(case)})
            for sig, text in v:
                hit = [w for r, w in kn if r.search(sig)]
                if hit:
                    knhit[hit[0]] += 1
                elif not any(s == sig for _, _, s, _ in viol):
                    viol.append((i, case, sig, text))
                    if stop_at is None:
                        stop_at = min(deadline, time.time() + (8 if tier == "quick" else 120))
            if time.time() > (stop_at or deadline):
                break
        pool.terminate()
    t2 = time.time()
    for w in knhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    out = []
    viol.sort(key=lambda x: x[0])
    for i, case, sig, text in viol[:3]:
        c, log = minimise(chk, case, sig, 90 if tier == "quick" else 900)
        try:
            v, _ = execute(chk, c)
            t = [x for s, x in v if s == sig]
        except Exception:
            t = []
        if not t:
            c, log, t = case, log + ["minimised form did not reproduce, kept the original"], [text]
        p = write_replay(chk, c, sig, t[0], log, tier, seed, i)
        out.append(p)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s: %s" % (sig, t[0][:1500]))
        sys.stdout.flush()
    evidence(chk, tier, seed, tot, done, len(jobs), nontrivial, samples, rechecked, mism, errors, skips, viol, knhit, t0, t1, t2)
    print("%s %s: %d cases, %d simulated executions, %d violation(s), %.0f s (build %.0f s)" % (
        pid, tier, done, tot.c["runs"], len(viol), time.time() - t0, t1 - t0))
    if viol:
        return 1
    if errors:
        sys.stderr.write("HARNESS: %d case(s) failed to run; first:\n%s\n" % (len(errors), errors[0][1]))
        if len(errors) > max(2, len(jobs) // 50):
            return 3
    if mism > 1:
        sys.stderr.write("HARNESS: %d of %d rechecked cases were not reproducible\n" % (mism, rechecked))
        return 4
    if done - skipped < len(jobs) // 3:
        sys.stderr.write("HARNESS: only %d of %d cases ran (%d skipped: %s)\n" % (done, len(jobs), skipped, dict(skips)))
        return 5
    return 0


def evidence(chk, tier, seed, tot, done, planned, nontrivial, samples, rechecked, mism, errors, skips, viol, knhit, t0, t1, t2):
    c = tot.c
    wall = max(t2 - t1, 1e-3)
    ev = {
        "property": chk.pid, "tier": tier, "seed": seed, "level": chk.level,
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(nontrivial),
            "rule": chk.rule + " A case is distinct and non-trivial when it ran to a verdict and no other case had the same "
                    "complete record of executions (exit status, output, scheduling statistics, operation and fault log).",
            "samples": samples,
            "cases_planned": planned, "simulated_runs": c["runs"], "runs_per_hour": int(c["runs"] * 3600 / wall),
            "seeds_per_hour": int(done * 3600 / wall),
            "simulated_seconds": c["sim_ns"] / 1e9, "scheduling_steps": c["steps"], "thread_switches": c["switches"],
            "threads_started": c["threads"], "tracked_file_operations": c["ops"], "clock_readings": c["clock_reads"],
            "faults_injected": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault:")},
            "distinct_interleavings": len(tot.sets["interleavings"]),
            "interleaving_measure": "hash of the sequence (thread, kind of synchronisation step) of an execution",
            "other_counts": {k: v for k, v in sorted(c.items()) if not k.startswith("fault:") and k not in (
                "runs", "steps", "switches", "threads", "sim_ns", "clock_reads", "ops")},
            "distinct": {k: len(v) for k, v in tot.sets.items() if k != "interleavings"},
            "determinism": {"cases_run_twice": rechecked, "different": mism},
            "real_code": chk.real, "stubs": chk.stubs,
            "skipped": dict(skips), "harness_errors": len(errors), "known_findings_seen": dict(knhit),
        },
        "assumptions": chk.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", chk.pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def replay(path):
    d = json.load(open(path))
    build.build_all()
    chk = load(d["property"])
    chk.prepare("quick")
    limits()
    fps = []
    for _ in range(2):
        v, st = execute(chk, d["case"])
        fps.append((st.fp.hexdigest(), v))
    print("two executions identical: %s" % (fps[0] == fps[1]))
    v = fps[0][1]
    for sig, text in v:
        print("  %s: %s" % (sig, text))
    if any(s == d["signature"] for s, _ in v):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced" + (" (but see above)" if v else ""))
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
