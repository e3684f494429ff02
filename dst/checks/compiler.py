"""D01-D04: the compiler's results under every schedule, hash seed, clock and memory content."""
import re
from .. import circ, equiv, formats, layout
from ..build import CIRCOM
from ..core import Check
from ..field import PRIMES
from ..simrun import run

REAL = ["circom compiler (all crates, unmodified binary built from /repo)", "Rust standard library threads, mutexes, channels",
        "threadpool crate", "glibc above the interposed calls"]
STUBS = ["thread scheduler, mutex/condvar/futex waiting", "wall and monotonic clocks", "getrandom (hash seeds)", "CPU count",
         "directory order", "contents of fresh and recycled memory"]
PARSED = ["--r1cs", "--sym", "--json", "--simplification_substitution"]
CODE = ["--c", "--wat", "--wasm"]
LEVELS = [["--O0"], ["--O1"], ["--O1"], ["--O2"], ["--O2"], ["--O2"], ["--O2round", "0"], ["--O2round", "1"], ["--O2round", "2"], ["--O2round", "3"],
          ["--O1", "--use_old_simplification_heuristics"], ["--O2", "--use_old_simplification_heuristics"]]


def sched(rng, deep=False):
    """a random way of scheduling threads"""
    x = rng.random()
    s = {"seed": rng.randrange(1, 1 << 30)}
    if x < 0.65:
        s.update(sched=2, p=rng.choice([30, 300, 1500, 6000, 20000, 50000]))
        if rng.random() < .4:  # threads stalled where they synchronise
            s["stall"] = "%d,%d" % (rng.choice([3000, 15000, 40000]), rng.choice([20, 200, 5000]))
    else:
        s.update(sched=3, pct="%d,%d" % (rng.choice([1, 2, 3, 5]), rng.choice([300, 1500, 6000])))
    return s


def world(rng):
    """everything else a compilation might see differently"""
    return {"hash": rng.randrange(1, 1 << 30), "ncpu": rng.choice([1, 2, 3, 4, 8, 16, 64]), "junk": rng.randrange(1, 256),
            "clk": "%d,%d" % (rng.choice([0, 10 ** 9, 1700000000 * 10 ** 9, 4102444800 * 10 ** 9]), rng.choice([0, 1, 1000, 10 ** 6, 10 ** 9]))}


def pick(rng, weights):
    ks = list(weights)
    return rng.choices(ks, [weights[k] for k in ks])[0]


class Compile(Check):
    real, stubs = REAL, STUBS
    profiles = {"simp": 5, "mix": 2, "par": 1, "custom": 1, "big": 2}

    def lighter(self, case):
        if case.get("place"):
            yield {**case, "place": 0}
        if case.get("layout") is not None:
            yield {**case, "layout": None}
        for sp in circ.shrink(case["prog"]):
            yield {**case, "prog": sp}

    def place(self, w, case):
        prog, pairs = circ.load(case["prog"])
        root = w.sub("root")
        if case.get("layout") is not None:
            files, main, lf, _, _ = layout.spread(prog, case["layout"])
        else:
            files, main, lf = {"p.circom": prog.text()}, "p.circom", []
        layout.write(root, files)
        import os
        os.makedirs(os.path.join(root, "out"), exist_ok=True)
        return prog, pairs, root, main, lf

    def go(self, w, main, flags, conf, st, is_main=False):
        r = circ.compile_(w, main, flags, conf)
        return st.res(r, is_main)


def outputs(root):
    import os
    return circ.tree(os.path.join(root, "out"))


def diffs(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def describe_diff(a, b, names):
    out = []
    for n in names[:3]:
        x, y = a.get(n), b.get(n)
        if x is None or y is None:
            out.append("%s exists only in %s" % (n, "the second" if x is None else "the first"))
        else:
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            out.append("%s differs at byte %d (%d and %d bytes): %r / %r" % (n, k, len(x), len(y), x[max(0, k - 20):k + 30], y[max(0, k - 20):k + 30]))
    return "; ".join(out)


class D01(Compile):
    pid = "D01"
    title = "Compilation is byte-reproducible"
    rule = ("Each case compiles one generated program (and option set) twice: once in a fixed world, once under a seeded random "
            "thread schedule, hash seed, CPU count, directory order, clock and memory contents, often also as another process number, "
            "in another directory and environment with other file times; the two output trees, exit "
            "status and standard output must be identical.")
    quick, thorough = 1200, 40000

    def case(self, i, rng, tier):
        prof = pick(rng, self.profiles)
        c = {"prog": {"seed": rng.randrange(1 << 30), "profile": prof}, "layout": rng.randrange(1 << 30) if rng.random() < .3 else None,
             "flags": PARSED + (CODE if rng.random() < (0.15 if prof in ("big", "simp") else 0.6) else []) + rng.choice(LEVELS)}
        for f, q in (("--inspect", .15), ("--no_asm", .15), ("--no_init", .15)):
            if rng.random() < q:
                c["flags"] = c["flags"] + [f]
        if rng.random() < .3:
            c["flags"] = c["flags"] + ["--sanity_check", str(rng.randrange(4))]
        conf = dict(circ.BASE)
        x = rng.random()
        if x < 0.8:
            conf.update(sched(rng))
        if x < 0.2 or x > 0.5:
            conf.update(world(rng), pid=rng.randrange(2, 1 << 22))
            if rng.random() < .5:
                c["place"] = rng.randrange(1 << 30)
        c["conf"] = conf
        if rng.random() < 0.08:
            c["broken"] = rng.randrange(1 << 30)
        return c

    def run(self, case, w, st):
        prog, _, root, main, lf = self.place(w, case)
        flags = case["flags"] + lf + ["-p", prog.prime]
        if case.get("broken"):
            damage(root, main, case["broken"])
        r0 = self.go(w, main, flags, circ.BASE, st)
        a = outputs(root)
        import shutil
        shutil.rmtree(root + "/out")
        import os
        os.makedirs(root + "/out")
        if case.get("place"):
            st.count("elsewhere")
            root, r1 = elsewhere(w, root, main, flags, case["conf"], case["place"])
            st.res(r1, True)
        else:
            r1 = self.go(w, main, flags, case["conf"], st, True)
        b = outputs(root)
        if r0.rc and not case.get("broken"):
            st.skip = "rejected by the compiler"
        st.count("accepted" if r0.rc == 0 else "rejected")
        v = []
        if r1.verdict not in ("ended",):
            v.append(("D01:" + r1.verdict, "the compiler did not finish: %s" % r1.verdict))
        elif r0.rc != r1.rc:
            v.append(("D01:verdict", "exit status %s in the reference world, %s in the other; stderr: %s" % (
                r0.rc, r1.rc, circ.strip_ansi(r1.err)[-300:])))
        else:
            d = diffs(a, b)
            if d:
                v.append(("D01:bytes", describe_diff(a, b, d)))
            elif r0.out != r1.out and r0.rc == 0 and "--inspect" not in case["flags"]:
                v.append(("D01:stdout", "standard output differs: %r / %r" % (r0.out[-300:], r1.out[-300:])))
        return v


def elsewhere(w, root, main, flags, conf, seed):
    """the same compilation for another user, in another environment and directory, of files with other times"""
    import os
    import random
    rng = random.Random(seed)
    name = lambda: "".join(rng.choice("abcXYZ_- .19") for _ in range(rng.randint(1, 12))).strip(" .-") or "d"
    env = {"USER": name(), "LOGNAME": name(), "HOSTNAME": name(), "HOME": "/" + name(), "TMPDIR": "/" + name(), "SHELL": "/bin/" + name(),
           "LANG": rng.choice(["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP"]), "LC_ALL": rng.choice(["C", "POSIX", "de_DE.UTF-8"]),
           "TZ": rng.choice(["UTC", "Asia/Kolkata", "America/St_Johns"]), "COLUMNS": str(rng.choice([1, 40, 300])),
           "RAYON_NUM_THREADS": str(rng.choice([1, 3, 9])), "SOURCE_DATE_EPOCH": str(rng.randrange(1 << 31)),
           "LONG": "x" * rng.choice([1, 100, 10000])}
    env = {k: v for k, v in env.items() if rng.random() < .7}
    conf = dict(conf)
    absolute = [f for f in flags if f.startswith("/")]
    new = root
    if not absolute:
        new = w.sub(os.path.join(*["elsewhere"] + [name() for _ in range(rng.randint(1, 3))] + ["root"]))
        os.rmdir(new)
        os.rename(root, new)
    for dp, _, fn in os.walk(new):
        for f in fn:
            t = rng.randrange(1, 1 << 32)
            os.utime(os.path.join(dp, f), (t, t), follow_symlinks=False)
    r = run([CIRCOM, main] + flags + ["-o", "out"], {**conf, "root": new}, w, new, timeout=180, env=env)
    old, wd = root.replace(w.dir, "$W").encode(), new.replace(w.dir, "$W").encode()
    r.out, r.err = r.out.replace(wd, old), r.err.replace(wd, old)
    return new, r


def damage(root, main, seed):
    """break the program in some way a compiler must reject"""
    import os
    import random
    rng = random.Random(seed)
    p = os.path.join(root, main)
    t = open(p).read()
    k = rng.randrange(5)
    if k == 0:
        t = t.replace(" <== ", " <== undeclared + ", 1)
    elif k == 1:
        t = t[:len(t) * 2 // 3]
    elif k == 2:
        t = t.replace("component main", "component main2")
    elif k == 3:
        t = 'include "nowhere.circom";\n' + t
    else:
        t = t.replace("signal output", "signal uotput", 1)
    open(p, "w").write(t)


def compile_pair(self, case, w, st, extra=()):
    """unsimplified compilation in the fixed world and the case's own; -> (prog, pairs, tree0, r0, tree1, r1)"""
    prog, pairs, root, main, lf = self.place(w, case)
    import os
    import shutil
    r0 = self.go(w, main, ["--r1cs", "--sym", "--O0"] + lf + ["-p", prog.prime], circ.BASE, st)
    a = outputs(root)
    shutil.rmtree(root + "/out")
    os.makedirs(root + "/out")
    r1 = self.go(w, main, case["flags"] + lf + ["-p", prog.prime], case["conf"], st, True)
    return prog, pairs, a, r0, outputs(root), r1


def acyclic(subs):
    """every chain of substitutions ends in signals that are still there"""
    done = set()
    for s0 in subs:
        path, stack = set(), [(s0, None)]
        while stack:
            s, it = stack.pop()
            if it is None:
                if s in done:
                    continue
                if s in path:
                    return s
                path.add(s)
                it = iter([x for x in subs[s] if x in subs])
            nxt = next(it, None)
            if nxt is None:
                path.discard(s)
                done.add(s)
            else:
                stack.append((s, it))
                stack.append((nxt, None))
    return None


class D02(Compile):
    pid = "D02"
    title = "Simplification preserves the constraint system"
    rule = ("Each case compiles one generated program without simplification and, under a seeded random schedule, with it, and "
            "decides by exact linear algebra over the field whether the written system together with the substitution log is "
            "equivalent to the unsimplified one, and whether the public interface kept its wires.")
    quick, thorough = 1600, 60000
    levels = LEVELS[1:]

    def case(self, i, rng, tier):
        sp = {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles)}
        if rng.random() < 0.3:
            sp["more"] = rng.randrange(1 << 30)
        return {"prog": sp, "layout": None,
                "flags": ["--r1cs", "--sym", "--simplification_substitution"] + rng.choice(self.levels),
                "conf": {**circ.BASE, **sched(rng), **world(rng)}}

    def run(self, case, w, st):
        prog, pairs, a, r0, b, r1 = compile_pair(self, case, w, st)
        if r0.rc:
            st.skip = "rejected by the compiler"
            return []
        if r1.rc or r1.verdict != "ended":
            return [("D02:fails", "simplification fails where the unsimplified compilation succeeds: status %s (%s), %s" % (
                r1.rc, r1.verdict, circ.strip_ansi(r1.err)[-300:]))]
        p = prog.p
        R0 = formats.read_r1cs(a["p.r1cs"])
        try:
            R1 = formats.read_r1cs(b["p.r1cs"])
            subs = formats.read_subst(b["p_substitutions.json"])
        except (formats.Bad, ValueError) as e:
            return [("D02:format", str(e))]
        st.count("constraints before", R0.ncons)
        st.count("constraints after", R1.ncons)
        st.count("substitutions", len(subs))
        lab = lambda R: [tuple({R.map[k]: x for k, x in lc.items()} for lc in c) for c in R.cons]
        e = equiv.compare(lab(R0), lab(R1), subs, p)
        if e:
            return [("D02:" + e.split(":")[0].split(" ")[0], e)]
        gone = set(subs)
        keep = set(R1.map)
        if gone & keep:
            return [("D02:both", "signal %d is substituted and still a wire" % min(gone & keep))]
        c = acyclic(subs)
        if c is not None:
            return [("D02:cycle", "the substitution of signal %d depends on itself" % c)]
        # interface
        n = 1 + R0.npubout + R0.npubin
        if (R1.npubout, R1.npubin) != (R0.npubout, R0.npubin) or R1.map[:n] != R0.map[:n]:
            return [("D02:interface", "public wires %s became %s" % (R0.map[:n], R1.map[:n]))]
        pv = R0.map[n:n + R0.nprvin]
        left = [l for l in pv if l in keep]
        if R1.map[n:n + len(left)] != left or R1.nprvin != len(left):
            return [("D02:interface", "private inputs %s became %s (header says %d)" % (pv, R1.map[n:n + len(left)], R1.nprvin))]
        names = {}
        for l, _, _, nm in formats.read_sym(b["p.sym"]):
            names[l] = nm
        v = interface(prog, R1, names, left, pv)
        if v:
            return [("D02:interface", v)]
        g0, g1 = gates(R0), gates(R1)
        if g0 != g1:
            return [("D02:gates", "custom gate applications changed: %s / %s" % (g0, g1))]
        return []


def gates(R):
    """custom gate applications in terms of labels (the file has wires)"""
    return R.gates_used, [(g, [R.map[x] for x in l]) for g, l in R.gates_app or []]


def interface(prog, R, names, left, pv):
    """wires of the public interface carry the declared names, in the declared order"""
    from ..lang import Interp
    it = Interp(prog)
    outs = ["main." + l for _, ls in it.main_decls("output") for l in ls]
    pub = prog.main[2]
    pi = ["main." + l for b, ls in it.main_decls("input") for l in ls if b in pub]
    pr = ["main." + l for b, ls in it.main_decls("input") for l in ls if b not in pub]
    got = [names.get(l) for l in R.map[1:1 + len(outs) + len(pi)]]
    if (R.npubout, R.npubin) != (len(outs), len(pi)):
        return "%d public outputs and %d public inputs; declared %d and %d" % (R.npubout, R.npubin, len(outs), len(pi))
    if got != outs + pi:
        return "public wires are %s; declared %s" % (got, outs + pi)
    if [names.get(l) for l in pv] != pr:
        return "private input wires are %s; declared %s" % ([names.get(l) for l in pv], pr)


class D03(Compile):
    pid = "D03"
    title = "Compilation does not depend on the wall clock"
    rule = ("Each case compiles one program in a fixed world and again with a wall clock that stands still, jumps forwards and is "
            "set back at seeded points between two readings; exit status and every output byte must be the same.")
    quick, thorough = 1000, 30000
    stubs = STUBS
    assumptions = ["The monotonic clock never goes back (the operating system guarantees it), so only the wall clock does here."]

    def case(self, i, rng, tier):
        c = {"prog": {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles)}, "layout": rng.randrange(1 << 30) if rng.random() < .2 else None,
             "flags": PARSED + (CODE if rng.random() < 0.3 else []) + rng.choice(LEVELS)}
        conf = {**circ.BASE, "clk": "%d,%d" % (rng.choice([0, 5, 10 ** 9, 1700000000 * 10 ** 9]), rng.choice([0, 0, 1, 1000, 10 ** 9]))}
        j = []
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            j.append([rng.choice([1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 60)]),
                      rng.choice([-1, -1000, -10 ** 9, -3600 * 10 ** 9, -10 ** 18, 10 ** 9, 86400 * 10 ** 9, 10 ** 18])])
        conf["jump"] = j
        if rng.random() < 0.3:
            conf["jumpp"] = rng.choice([6000, 30000])
            conf["seed"] = rng.randrange(1, 1 << 30)
        c["conf"] = conf
        return c

    def run(self, case, w, st):
        prog, _, root, main, lf = self.place(w, case)
        flags = case["flags"] + lf + ["-p", prog.prime]
        r0 = self.go(w, main, flags, circ.BASE, st)
        a = outputs(root)
        if r0.rc:
            st.skip = "rejected by the compiler"
            return []
        import os
        import shutil
        shutil.rmtree(root + "/out")
        os.makedirs(root + "/out")
        r1 = self.go(w, main, flags, case["conf"], st, True)
        st.count("clock readings in disturbed runs", r1.h["nclk"])
        st.count("clock jumps planned", len(case["conf"]["jump"]))
        if r1.rc or r1.verdict != "ended":
            return [("D03:fails", "status %s (%s) under a moving clock: %s" % (r1.rc, r1.verdict, circ.strip_ansi(r1.err)[-400:]))]
        d = diffs(a, outputs(root))
        if d:
            return [("D03:bytes", describe_diff(a, outputs(root), d))]
        return []


class D04(Compile):
    pid = "D04"
    title = "Artifacts of one compilation agree with each other"
    rule = ("Each case compiles one program at one level under a seeded random schedule and cross-checks the files against each "
            "other, against the format, and against the counts the compiler printed.")
    quick, thorough = 1600, 60000

    def case(self, i, rng, tier):
        fl = rng.choice(LEVELS)
        return {"prog": {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles)}, "layout": None,
                "flags": ["--r1cs", "--sym", "--json"] + (["--simplification_substitution"] if rng.random() < .5 else [])
                + (["--wasm", "--c"] if rng.random() < 0.15 else []) + fl,
                "conf": {**circ.BASE, **sched(rng), **world(rng)}}

    def run(self, case, w, st):
        prog, pairs, root, main, lf = self.place(w, case)
        r = self.go(w, main, case["flags"] + lf + ["-p", prog.prime], case["conf"], st, True)
        if r.rc:
            return circ.refusal(self.pid, r, st)
        t = outputs(root)
        try:
            e = agree(prog, pairs, t, circ.strip_ansi(r.out), case["flags"])
        except (formats.Bad, ValueError, KeyError, IndexError) as x:
            e = "%s: %s" % (type(x).__name__, x)
        return [("D04:" + re.sub(r"[\d\W]+", "-", e)[:50], e)] if e else []


def agree(prog, pairs, t, out, flags):
    p = prog.p
    R = formats.read_r1cs(t["p.r1cs"])
    if R.prime != p:
        return "prime in the constraint file is %d" % R.prime
    if R.n8 != (p.bit_length() + 63) // 64 * 8:
        return "field size %d" % R.n8
    if len(R.map) != R.nwires or R.ncons != len(R.cons):
        return "counts in the header"
    J = formats.read_json_constraints(t["p_constraints.json"], p)
    key = lambda c: tuple(tuple(sorted(lc.items())) for lc in c)
    if sorted(map(key, J)) != sorted(map(key, R.cons)):
        return "the constraint listing has %d constraints, the binary file %d, and they differ" % (len(J), len(R.cons))
    sym = formats.read_sym(t["p.sym"])
    labels = [s[0] for s in sym]
    if labels != list(range(1, len(sym) + 1)):
        return "labels in the symbol table are not 1..n in order"
    if R.nlabels != len(sym) + 1:
        return "header has %d labels, the symbol table %d signals" % (R.nlabels, len(sym))
    pos = {}
    for l, wi, comp, name in sym:
        if wi >= 0:
            if wi in pos:
                return "wire %d twice in the symbol table" % wi
            pos[wi] = l
    if set(pos) != set(range(1, R.nwires)):
        return "wires in the symbol table are not those of the binary file (%d, header %d)" % (len(pos), R.nwires)
    for wi, l in pos.items():
        if R.map[wi] != l:
            return "wire %d is label %d in the binary file and %d in the symbol table" % (wi, R.map[wi], l)
    names = {s[3]: s[0] for s in sym}
    if len(names) != len(sym):
        return "a name occurs twice in the symbol table"
    for k in pairs[0][1] or {}:
        if k not in names:
            return "signal %s of the program is not in the symbol table" % k
    owner = getattr(pairs[0][1], "owner", {})
    ofcomp, ofnum = {}, {}
    for l, wi, comp, name in sym:
        if name in owner:
            o, t = owner[name]
            if ofcomp.setdefault(o, comp) != comp:
                return "signals of component %s have different component numbers" % o
            if ofnum.setdefault(comp, t) != t:
                return "components of templates %s and %s have the same component number" % (t, ofnum[comp])
    num = lambda pat: int(re.search(pat, out).group(1))
    lin = sum(1 for a, b, c in R.cons if not a and not b)
    got = {"non-linear": num(r"non-linear constraints: (\d+)"), "linear": num(r"\n *linear constraints: (\d+)"),
           "public inputs": num(r"public inputs: (\d+)"), "public outputs": num(r"public outputs: (\d+)"),
           "wires": num(r"wires: (\d+)"), "labels": num(r"labels: (\d+)")}
    want = {"non-linear": R.ncons - lin, "linear": lin, "public inputs": R.npubin, "public outputs": R.npubout, "wires": R.nwires,
            "labels": R.nlabels}
    for k in want:
        if got[k] != want[k]:
            return "reported %s: %d, in the files: %d" % (k, got[k], want[k])
    m = re.search(r"private inputs: (\d+)(?: \((\w+) belong)?", out)
    pv = int(m.group(2)) if m.group(2) and m.group(2) != "none" else (0 if m.group(2) else int(m.group(1)))
    if pv != R.nprvin:
        return "reported private inputs in the witness: %d, in the file: %d" % (pv, R.nprvin)
    byname = {s[0]: s[3] for s in sym}
    n = 1 + R.npubout + R.npubin
    e = interface(prog, R, byname, None, [names["main." + x] for x in private(prog)])
    if e:
        return e
    if [byname[l] for l in R.map[n:n + R.nprvin]] != ["main." + x for x in private(prog) if names["main." + x] in set(R.map)]:
        return "private inputs are not the wires after the public ones"
    if "p_substitutions.json" in t:
        subs = formats.read_subst(t["p_substitutions.json"])
        val = {names[k]: x for k, x in (pairs[0][1] or {}).items() if k in names}
        val[0] = 1
        for s, lc in subs.items():
            if any(not 0 <= k < R.nlabels for k in lc):
                return "the substitution of signal %d uses signals that do not exist" % s
            if all(k in val for k in [s, *lc]) and (val[s] - sum(c * val[k] for k, c in lc.items())) % p:
                return "the substitution of signal %d is false for a valid input" % s
        for s in subs:
            if not 1 <= s < R.nlabels:
                return "substituted signal %d does not exist" % s
            if s in set(R.map):
                return "signal %d is substituted and still a wire" % s
    if "p_cpp/p.dat" in t:
        d = t["p_cpp/p.dat"]
        import struct
        for k, l in enumerate(R.map):
            at = 256 * 24 + 8 * k
            if struct.unpack_from("<Q", d, at)[0] != l:
                return "witness map of the C++ data file differs at wire %d" % k
    return None


def private(prog):
    from ..lang import Interp
    return [l for b, ls in Interp(prog).main_decls("input") for l in ls if b not in prog.main[2]]
