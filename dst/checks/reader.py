"""R01: the library's reader of constraint files."""
import errno
import os
import random
from .. import build, circ, formats
from ..core import Check
from ..simrun import HarnessError, run
from .compiler import LEVELS, REAL, pick
from .files import RERRS, is_output, place_fault, resolve

READ = {"sched": 0, "stepcap": 0}


def text(r):
    """what the reader must print for a file"""
    o = ["h %d %d %d %d %d %d %d %d" % (r.prime, r.n8, r.nwires, r.npubout, r.npubin, r.nprvin, r.nlabels, r.ncons)]
    for c in r.cons:
        o.append("c" + "".join(" |" + "".join(" %d:%d" % (k, l[k]) for k in sorted(l)) for l in c))
    o += ["s %d" % x for x in r.map]
    if r.gates_used is not None:
        o.append("U %d" % len(r.gates_used))
        o += ["u %s [%s]" % (n, ", ".join('"%d"' % x for x in ps)) for n, ps in r.gates_used]
        o.append("A %d" % len(r.gates_app))
        o += ["a %d [%s]" % (g, ", ".join(map(str, ss))) for g, ss in r.gates_app]
    return o + ["end"]


class R01(Check):
    pid = "R01"
    title = "Reading a constraint file fails cleanly or returns what was written"
    rule = ("Each case compiles one generated program and reads its constraint file with the library's reader: undisturbed, with short "
            "and interrupted reads, with failing opens, reads and seeks, cut at seeded and at structurally chosen bytes, and as left by "
            "compilers killed at seeded operations; the reader must return exactly the contents found by an independent strict reader "
            "in the complete file, or report an error; without a failure and a cut it must return them.")
    real = ["the constraint file reader and writer of constraint_writers, built from /repo (accessor hook for what was read)"] + REAL[:1]
    stubs = ["result of every file system call below the run's directory"]
    assumptions = ["a crash leaves a prefix of the operations on the file (no reordered or lost blocks: the format has no checksums)"]
    quick, thorough = 1500, 40000
    profiles = {"custom": 4, "mix": 2, "simp": 2, "par": 1, "big": 1}

    def prepare(self, tier):
        build.build_reader()

    def case(self, i, rng, tier):
        plans = []
        for _ in range(8):
            p = []
            x = rng.random()
            if x < .45:
                for _ in range(rng.choice([1, 2, 5, 20])):
                    f = {"g": rng.random(), "pos": rng.choice(["first", "last", "rand", "rand"]), "r": rng.random(), "on": ["read"]}
                    f.update(rng.choice([{"k": "S", "fr": rng.random() ** 3}, {"k": "S", "fr": rng.random()}, {"k": "E", "a": errno.EINTR}]))
                    p.append(f)
            else:
                p.append({"g": rng.random(), "pos": rng.choice(["first", "last", "rand", "rand"]), "r": rng.random(), "k": "E", "a": rng.choice(RERRS),
                          "on": rng.choice([["open-r"], ["read"], ["read"], ["read"], ["lseek"], ["lseek"]])})
            plans.append(p)
        return {"prog": {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles)}, "level": rng.choice(LEVELS), "plans": plans,
                "cuts": [[rng.choice(["any", "any", "edge", "edge", "tail", "count"]), rng.random(), rng.randrange(-2, 3)] for _ in range(8)],
                "crashes": [place_fault(rng, "CDTT", ["write", "lseek"]) for _ in range(3)]}

    def lighter(self, case):
        for k in ("plans", "cuts", "crashes"):
            n = len(case[k])
            size = n
            while size:
                for a in range(0, n, size):
                    if n:
                        yield {**case, k: case[k][:a] + case[k][a + size:]}
                size //= 2
        for j, p in enumerate(case["plans"]):
            if len(p) > 1:
                for k in range(len(p)):
                    yield {**case, "plans": case["plans"][:j] + [p[:k] + p[k + 1:]] + case["plans"][j + 1:]}
        for sp in circ.shrink(case["prog"]):
            yield {**case, "prog": sp}

    def read(self, w, st, root, faults=(), main=True):
        res = st.res(run([build.READER, "f.r1cs"], {**READ, "root": root, "fault": list(faults)}, w, root, timeout=60), main)
        t = res.out.decode("utf-8", "replace").split("\n")
        if res.rc == 0 and len(t) > 1 and t[-2] == "end":
            return res, t[:-1]
        if res.rc == 3:
            return res, None
        return res, False

    def judge(self, res, got, want, what, must):
        if got is False:
            return [("R01:crash", "%s: the reader ends with %s, status %s: %s" % (what, res.verdict, res.rc, res.err[-300:].decode("utf-8", "replace")))]
        if got is None:
            return [("R01:rejects", "%s: a complete file is rejected: %s" % (what, res.out[:200]))] if must else []
        if got[0] == "opaque":
            if not must:
                return []
            return []
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return [("R01:differs", "%s: read successfully as something else: record %d is %r, was written as %r" % (
                what, k, (got + ["-"])[k][:200], (want + ["-"])[k][:200]))]
        return []

    def run(self, case, w, st):
        prog, _ = circ.load(case["prog"])
        root = circ.write_program(w, prog)
        flags = ["--r1cs"] + case["level"] + ["-p", prog.prime]
        r = st.res(circ.compile_(w, "p.circom", flags, circ.BASE))
        if r.rc or r.verdict != "ended":
            st.skip = "rejected by the compiler"
            return []
        rfile = os.path.join(root, "out", "p.r1cs")
        with open(rfile, "rb") as f:
            b = f.read()
        R = formats.read_r1cs(b)
        want = text(R)
        st.count("constraints", R.ncons)
        st.count("with custom gates", R.gates_used is not None)
        place = w.sub("read")
        target = os.path.join(place, "f.r1cs")

        def put(x):
            with open(target, "wb") as f:
                f.write(x)

        put(b)
        res, got = self.read(w, st, place, main=False)
        v = self.judge(res, got, want, "undisturbed", True)
        if v:
            return v
        ops = [o for o in res.ops if o[2] == "f.r1cs"]
        for plan in case["plans"]:
            fs = resolve(plan, ops)
            if not fs:
                continue
            r2, got = self.read(w, st, place, fs)
            # a fault meant for a read can meet another operation, because retried reads shift the numbers
            transient = all(f[1] == "S" or f[2] == errno.EINTR for f in fs) and all(x.startswith("FAULT read ") for x in r2.faults)
            st.count("read ok" if got else "read error")
            v += self.judge(r2, got, want, "after %s" % (r2.faults,), transient)
        edges = self.edges(b)
        for how, x, off in case["cuts"]:
            k = {"any": int(x * len(b)), "edge": edges[int(x * len(edges))] + off, "tail": len(b) - 1 - int(x * 12),
                 "count": edges[int(x * len(edges))] + 4 + off}[how]
            k = max(0, min(len(b) - 1, k))
            put(b[:k])
            r2, got = self.read(w, st, place)
            st.count("cut ok" if got else "cut error")
            v += self.judge(r2, got, want, "cut to %d of %d bytes" % (k, len(b)), False)
        wops = [o for o in r.ops if is_output(o[2])]
        for f in case["crashes"]:
            fs = resolve([f], wops)
            if not fs:
                continue
            os.unlink(rfile) if os.path.exists(rfile) else None
            rc = st.res(circ.compile_(w, "p.circom", flags, {**circ.BASE, "fault": fs}), True)
            if rc.verdict != "crash" or not os.path.exists(rfile):
                continue
            with open(rfile, "rb") as h:
                left = h.read()
            put(left)
            r2, got = self.read(w, st, place)
            st.count("after crash ok" if got else "after crash error")
            v += self.judge(r2, got, want, "left by a compiler killed by %s (%d of %d bytes)" % (rc.faults, len(left), len(b)), left == b)
        return v

    def edges(self, b):
        """where records begin: the header, sections, and what is in them"""
        e = [0, 4, 8]
        pos = 12
        n = int.from_bytes(b[8:12], "little")
        for _ in range(n):
            size = int.from_bytes(b[pos + 4:pos + 12], "little")
            e += [pos, pos + 4, pos + 12, pos + 12 + 8 * (size // 16)]
            pos += 12 + size
        return [x for x in e if x < len(b)]
