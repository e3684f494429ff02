"""W01-W06: the generated witness programs under every schedule, thread limit, bad input and I/O failure."""
import errno
import json
import os
import random
import shutil
import struct
from .. import circ, cpp, formats
from ..core import Check
from ..field import PRIMES, Undefined
from ..gen import nest_inputs
from ..lang import Failure, Interp
from ..simrun import run
from .compiler import pick, sched
from .files import resolve

REAL = ["the C++ code circom generates for the circuit, main.cpp, calcwit.cpp and the field library it ships, unmodified except that the "
        "thread limit NMUTEXES can be set per run", "libstdc++ threads, mutexes and condition variables, nlohmann json, GMP",
        "the circom compiler built from /repo (undisturbed here)"]
STUBS = ["thread scheduler, mutex and condition variable waiting, thread creation", "contents of fresh and released memory",
         "file operations below the run's directory"]
LIMITS = [1, 1, 2, 2, 3, 4, 6, 32, 0]


def prime_for(rng):
    x = rng.random()
    return "bn128" if x < .45 else "goldilocks" if x < .75 else rng.choice(list(PRIMES))


def level(rng):
    return rng.choice([["--O0"], ["--O0"], ["--O1"], ["--O1"], ["--O2"], ["--O2round", "2"]])


def conf_for(rng, tsan):
    c = {"stepcap": 60000000, **sched(rng), "tsan": int(tsan), "limit": rng.choice(LIMITS), "ncpu": rng.choice([1, 2, 8]),
         "junk": rng.randrange(1, 256)}
    if c["sched"] == 3:
        c["pct"] = "%d,%d" % (rng.choice([1, 2, 3, 5, 8]), rng.choice([3000, 20000, 100000, 300000]))
    else:
        c["p"] = rng.choice([10, 100, 500, 2000, 8000, 30000])
        if rng.random() < .6:  # threads stalled where they synchronise
            c["stall"] = "%d,%d" % (rng.choice([1000, 5000, 15000, 30000]), rng.choice([100, 1000, 10000, 10 ** 6]))
    if rng.random() < .3:
        c["spurious"] = rng.choice([50, 500, 5000])
    if rng.random() < .15:
        c["bin"] = 1
    return c


class Witness(Check):
    """one generated program, compiled once and then executed under many schedules"""
    real, stubs = REAL, STUBS
    profiles = {"par": 8, "mix": 2}
    nruns = {"quick": 10, "thorough": 30}
    ninputs = 2
    instrument = 1.0
    tsan = .5

    def case(self, i, rng, tier):
        asm = rng.random() >= self.instrument
        p = prime_for(rng)
        flags = ["--c", "--r1cs", "--sym"] + ([] if asm and p != "goldilocks" else ["--no_asm"]) + level(rng)
        if rng.random() < .3:
            flags += ["--sanity_check", str(rng.choice([0, 1, 2, 2]))]
        return {"prog": {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles), "prime": p,
                         "size": rng.choice([1, 1, 1, 2]), "ninputs": self.ninputs},
                "flags": flags, "opt": 0 if rng.random() < .9 else 1, "asm": asm,
                "runs": [{"conf": conf_for(rng, not asm and rng.random() < self.tsan), "input": rng.randrange(self.ninputs)}
                         for _ in range(self.nruns[tier])]}

    def lighter(self, case):
        if "runs" in case and len(case["runs"]) > 1:
            for r in case["runs"]:
                yield {**case, "runs": [r]}
        elif "runs" in case:
            c = {k: v for k, v in case.items() if k != "runs"}
            yield {**c, **case["runs"][0]}
        else:
            for k, v in (("opt", 0), ("asm", False)):
                if case.get(k) != v and case["conf"].get("tsan") is not None:
                    yield {**case, k: v}
            for k in ("spurious", "junk"):
                if k in case["conf"]:
                    yield {**case, "conf": {a: b for a, b in case["conf"].items() if a != k}}
            for sp in circ.shrink(case["prog"], self.ninputs):
                yield {**case, "prog": sp}

    def prepare_program(self, case, w, st):
        """-> what to report if the compiler rejects it, else (prog, pairs, root of the compilation)"""
        prog, pairs = self.load(case)
        root = circ.write_program(w, prog)
        r = circ.compile_(w, "p.circom", case["flags"] + ["-p", prog.prime], circ.BASE)
        st.res(r)
        if r.rc != 0:
            if self.pid == "W01":
                return circ.refusal(self.pid, r, st)
            st.skip = "rejected by the compiler"
            return []
        return prog, pairs, root

    def load(self, case):
        return circ.load(case["prog"], self.ninputs)

    def runs(self, case):
        return case["runs"] if "runs" in case else [{k: case[k] for k in ("conf", "input", "bad", "plan", "old") if k in case}]

    def run(self, case, w, st):
        got = self.prepare_program(case, w, st)
        if isinstance(got, list):
            return got
        prog, pairs, root = got
        out = os.path.join(root, "out")
        try:
            cpp.external(os.path.join(out, "p_cpp"), prog)
            exe = cpp.build(w, os.path.join(out, "p_cpp"), "p", case["opt"], not case["asm"])
        except cpp.NotCompilable as e:
            return [(self.pid + ":build", "the generated C++ does not compile: %s" % e)]
        if os.getpid() % 16 == 0:
            cpp.purge()
        self.exe = exe
        with open(os.path.join(out, "p.r1cs"), "rb") as f:
            R = formats.read_r1cs(f.read())
        with open(os.path.join(out, "p.sym"), "rb") as f:
            sym = formats.read_sym(f.read())
        wroot = cpp.place(w, exe, os.path.join(out, "p_cpp", "p.dat"))
        return self.judge(case, w, st, prog, pairs, R, sym, wroot)

    def judge(self, case, w, st, prog, pairs, R, sym, wroot):
        v, seen = [], {}
        for r in self.runs(case):
            vals, ref = pairs[r["input"] % len(pairs)]
            if ref is None:
                st.skip = "input not valid"
                continue
            self.inputs(wroot, vals, prog)
            args = ("in.json", "w.wtns")
            if r["conf"].get("bin") and prog.prime == "goldilocks":
                args = ("in.bin", "w.wtns")
                self.binary(wroot, vals, sym)
                st.count("binary_inputs")
            res = st.res(cpp.execute(w, wroot, {k: v for k, v in r["conf"].items() if k != "bin"}, args), True)
            st.count("limit_%s" % (r["conf"].get("limit") or "default"))
            st.count("parallel_threads", res.h["nthreads"] - 1)
            v += self.verdict(res, wroot, prog, ref, R, sym, st, seen, r["input"] % len(pairs))
            if v:
                break
        return v

    def inputs(self, wroot, vals, prog):
        with open(os.path.join(wroot, "in.json"), "w") as f:
            json.dump(nest_inputs(vals, prog), f)
        p = os.path.join(wroot, "w.wtns")
        if os.path.lexists(p):
            os.unlink(p)


    def binary(self, wroot, vals, sym):
        """the other input format of the 64-bit program: the values in the order of the signals"""
        with open(os.path.join(wroot, "in.bin"), "wb") as f:
            for lab, wire, comp, name in sorted(sym):
                if name.startswith("main.") and name[5:] in vals:
                    f.write(struct.pack("<Q", vals[name[5:]]))


def tail(res):
    return "status %s, stderr %r" % (res.rc, res.err.decode("utf-8", "replace")[-200:])


def wrong(b, prog, ref, R, sym, st=None):
    """what is wrong with a witness file, or None"""
    try:
        q, wv = formats.read_wtns(b)
    except (formats.Bad, Exception) as e:
        return "unreadable: %s" % e
    if q != prog.p:
        return "its prime is %d" % q
    if len(wv) != R.nwires:
        return "%d values for %d wires" % (len(wv), R.nwires)
    if wv[0] != 1:
        return "value 0 is %d" % wv[0]
    n = 0
    for lab, wire, comp, name in sym:
        if wire >= 0 and name in ref:
            n += 1
            if wv[wire] != ref[name]:
                return "signal %s is %d, must be %d" % (name, wv[wire], ref[name])
    if st is not None:
        st.count("values_compared", n)
        st.count("constraints_checked", len(R.cons))
    k = formats.unsatisfied(R.cons, wv, prog.p)
    if k is not None:
        return "constraint %d is not satisfied" % k
    return None


def witness_file(wroot):
    p = os.path.join(wroot, "w.wtns")
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


class W01(Witness):
    pid = "W01"
    title = "The C++ witness is schedule-independent and correct"
    rule = ("Each case is one generated program with mostly parallel components, compiled by circom and g++ once and executed under "
            "several seeded schedules, thread limits and memory contents; the witness file must hold the reference interpreter's value "
            "of every signal, satisfy every constraint, and be the same in every execution.")
    quick, thorough = 220, 12000
    instrument = .8

    def verdict(self, res, wroot, prog, ref, R, sym, st, seen, k):
        if res.verdict != "ended" or res.rc != 0:
            return [("W01:none", "no witness for a valid input: %s, %s" % (res.verdict, tail(res)))]
        b = witness_file(wroot)
        if b is None:
            return [("W01:none", "no witness file although the status is 0")]
        bad = wrong(b, prog, ref, R, sym, st)
        if bad:
            return [("W01:wrong", "the witness is wrong: %s" % bad)]
        if seen.setdefault(k, b) != b:
            return [("W01:differs", "two executions gave different witness files")]
        return []


class W02(Witness):
    pid = "W02"
    title = "The C++ witness computation always terminates"
    rule = ("Each case is one generated program with parallel components, executed under several seeded schedules, mostly with small "
            "thread limits; every execution must end, that is, never reach a state where all threads wait, within a step bound that is "
            "far above what a fair schedule needs.")
    quick, thorough = 220, 12000
    tsan = 0
    nruns = {"quick": 40, "thorough": 60}
    profiles = {"par": 10, "mix": 1}

    def verdict(self, res, wroot, prog, ref, R, sym, st, seen, k):
        if res.verdict in ("deadlock", "stepcap", "timeout"):
            return [("W02:" + res.verdict, "the witness computation did not end: %s with %d threads alive at most, limit %s; %s" % (
                res.verdict, res.h["maxlive"], "", " | ".join(res.log[-6:])[:600]))]
        st.count("waits", res.h["nwaits"])
        return []


class W03(Witness):
    pid = "W03"
    title = "Parallel witness code is free of data races"
    rule = ("Each case is one generated program with parallel components, executed under several seeded schedules; a vector-clock "
            "detector over every memory access of the generated code, its run-time files and the field library must see no two "
            "unsynchronised conflicting accesses, no access to released memory and none outside an object on the heap.")
    quick, thorough = 220, 12000
    tsan = 1
    assumptions = ["accesses inside GMP and the C and C++ libraries are seen only as the calls' memory transfers"]

    def verdict(self, res, wroot, prog, ref, R, sym, st, seen, k):
        v = []
        if res.h["nraces"]:
            l = res.lines("RACE")[0].split(" ")
            f = dict(x.split("=") for x in l[2:])
            v.append(("W03:race", "%d racing accesses; first: %s, thread %s in %s, thread %s in %s" % (
                res.h["nraces"], l[1], f["tid"], cpp.symbol(self.exe, f["pc"]), f["other"], cpp.symbol(self.exe, f["opc"]))))
        elif res.h["nuaf"]:
            l = res.lines("BADACCESS")[0].split(" ")
            f = dict(x.split("=") for x in l[3:])
            v.append(("W03:" + l[1], "%d accesses to %s memory; first: %s in %s by thread %s" % (
                res.h["nuaf"], l[1], l[2], cpp.symbol(self.exe, f["pc"]), f["tid"])))
        elif res.rc is not None and res.rc < 0 and res.rc != -6:
            v.append(("W03:crash", "the program crashed: %s" % tail(res)))
        return v


# ------------------------------------------------------------------------------------------------ failures
NODE = shutil.which("node") or "/usr/bin/node"
NODECONF = {"sched": 0, "stepcap": 0}


def node_place(w, out):
    """the generated JavaScript outside the tracked directory, the module in it"""
    js = w.sub("js")
    for f in sorted(os.listdir(os.path.join(out, "p_js"))):
        if f.endswith(".js"):
            shutil.copy(os.path.join(out, "p_js", f), js)
    return js


def node_run(w, wroot, js, conf, args=("p.wasm", "in.json", "w.wtns")):
    return run([NODE, os.path.join(js, "generate_witness.js")] + list(args), {**NODECONF, **conf, "root": wroot, "only": wroot}, w, wroot, timeout=60)


class Failing(Witness):
    """programs built once for both generators, then executed with something wrong; cases list them under "runs" """
    ninputs = 2
    tsan = 0
    js = .5
    pairs_needed = 1

    def case(self, i, rng, tier):
        c = Witness.case(self, i, rng, tier)
        node = rng.random() < self.js
        if node:
            c["flags"] = c["flags"] + ["--wasm"]
        for r in c["runs"]:
            r["conf"].pop("tsan")
            if node and rng.random() < .5:
                r["conf"] = {"node": 1}
            self.spoil(r, rng)
        return c

    bin = False

    def go(self, w, st, wroot, r, main=True, faults=(), args=None):
        conf = {**r["conf"], "fault": list(faults)}
        usebin = conf.pop("bin", 0)
        if conf.pop("node", 0):
            st.count("node_runs")
            return st.res(node_run(w, wroot, self.jsdir, conf, *([args] if args else [])), main)
        return st.res(cpp.execute(w, wroot, conf, args or ("in.bin" if usebin and self.bin else "in.json", "w.wtns")), main)

    def judge(self, case, w, st, prog, pairs, R, sym, wroot):
        out = w.path("root", "out")
        self.jsdir = None
        if "--wasm" in case["flags"]:
            self.jsdir = node_place(w, out)
            shutil.copy(os.path.join(out, "p_js", "p.wasm"), os.path.join(wroot, "p.wasm"))
        v = []
        for r in self.runs(case):
            if r["conf"].get("node") and not self.jsdir:
                continue
            v += self.one(case, r, w, st, prog, pairs, R, sym, wroot)
            if v:
                break
        return v

    def who(self, r):
        return "node" if r["conf"].get("node") else "cpp"


def flat(vals):
    """names of the input signals without their indices, with the keys that belong to each"""
    import re
    g = {}
    for k in vals:
        g.setdefault(re.sub(r"(\[\d+\])+$", "", k), []).append(k)
    return g


def bad_json(vals, kind, rng):
    """the text of an input file that must be rejected, or None if this kind does not apply"""
    j = nest_inputs(vals)
    if kind == "empty":
        return "{}" if vals else None
    if kind == "unknown":
        name = rng.choice(["zz", "main", "in_", "a.b", "", "x[0]", "q[1].r"]) + "_nosuch"
        j[name] = rng.choice([str(rng.randrange(9)), [str(rng.randrange(9))], ["1", "2"]])
        if rng.random() < .5:  # at the front
            j = {name: j.pop(name), **j}
        return json.dumps(j)
    if kind in ("truncated", "garbage"):
        t = json.dumps(j)
        if kind == "truncated":
            return t[:rng.randrange(len(t))]
        k = rng.randrange(len(t) + 1)
        return rng.choice(["", "{", "nul", t[:k] + "\x01" + t[k:] if k < len(t) else "", "[" + t])
    g = flat(vals)
    if not g:
        return None
    base = rng.choice(sorted(g))
    # walk to the parent of that signal
    import re
    toks = [int(a[1:-1]) if a[0] == "[" else a for a in re.findall(r"[^.\[\]]+|\[\d+\]", base)]
    cur = j
    for t in toks[:-1]:
        cur = cur[t]
    last = toks[-1]
    if kind == "missing":
        del cur[last]
    elif kind == "renamed":
        cur[last + rng.choice(["_", "0", "x"])] = cur.pop(last)
    elif kind == "notnumber":
        x = cur[last]
        b = rng.choice(["abc", "0xg1", "1e", "--3", "1 2", None, "0b12", "0o8", "", "0x", "0b", "0o", "-", " ", "1.5", 1.5, 4.5, -0.5, True, False,
                        "12a", "a1", ":", "1:", "/", "1/2", "0xG", "0x1g", "1_000", "0o18", "0b2", "ff", "1e3", "1.0", "1,5", "NaN", "0x-1", "1n", "0x 1",
                        "0b1x", "1;", "@", "0x@", "0x:", "--", "1-", "9" * 70 + "x", "0b1" + "0" * 70 + "2"])
        if isinstance(x, list):
            while isinstance(x[0], list):
                x = x[-1]
            x[rng.randrange(len(x))] = b
        else:
            cur[last] = b
    elif kind == "short":
        x = cur[last]
        if not isinstance(x, list):
            cur[last] = []
        else:
            while isinstance(x[0], list) and rng.random() < .7:
                x = rng.choice(x)
            x.pop(rng.randrange(len(x)))
    elif kind == "extra":
        x = cur[last]
        if not isinstance(x, list):
            cur[last] = [x, rng.choice([x, "0", "7"])]
        else:
            while isinstance(x[0], list):
                x = rng.choice(x)
            x.insert(rng.randrange(len(x) + 1), rng.choice(["0", "5", x[0]]))
    return json.dumps(j)


BAD = {"missing": 3, "renamed": 2, "short": 3, "extra": 3, "unknown": 3, "empty": 1, "notnumber": 2, "truncated": 1, "garbage": 1,
       "violate": 12}


def demand(prog, good, bad, seed):
    """Adds to some template a check that `good` passes everywhere and `bad` fails somewhere. -> description or None"""
    import copy
    rng = random.Random("demand/%s" % seed)
    for _ in range(12):
        names = sorted(n for n in prog.templates if not prog.templates[n].get("custom"))
        if rng.random() < .6 and any(prog.templates[n]["parallel"] for n in names):
            names = [n for n in names if prog.templates[n]["parallel"]]
        t = rng.choice(names)
        body = prog.templates[t]["body"]
        sigs = []
        for k, s in enumerate(body):
            if s[0] == "sig":
                if not s[3]:
                    sigs.append((k, [(".", s[2])], s[1]))
                elif all(d[0] == "n" and d[1] > 0 for d in s[3]):
                    sigs.append((k, [(".", s[2])] + [("[", ("n", rng.randrange(d[1]))) for d in s[3]], s[1]))
            elif s[0] in ("<==", "<--") and s[1] and len(s[1]) == 1 and s[1][0][0] == ".":
                pass
        if not sigs:
            continue
        k, ref, kind = rng.choice(sigs)
        at = len(body)
        if kind == "input" and rng.random() < .6:
            # input signals are known from the start: check before everything that follows the declarations
            at = max(i for i, s in enumerate(body) if s[0] in ("sig", "bus")) + 1
        probe = copy.deepcopy(prog)
        probe.templates[t]["body"][at:at] = [("sig", "", "zprobe", [], []), ("<--", [(".", "zprobe")], ("s", ref))]
        try:
            vb = {v for n, v in Interp(probe).run(bad).items() if n.endswith(".zprobe")}
            vg = {v for n, v in Interp(probe).run(good).items() if n.endswith(".zprobe")}
        except (Failure, Undefined, RuntimeError):
            continue
        diff = sorted(vb - vg)
        if not diff:
            continue
        v = rng.choice(diff)
        hit = ("b", "==", ("s", ref), ("n", v))
        one = ("t", hit, ("n", 1), ("n", 0))
        mode = rng.random()
        if mode < .3:
            body[at:at] = [("assert", ("b", "!=", ("s", ref), ("n", v)))]
            how = "assert"
        elif mode < .45:  # in a function
            prog.functions["zfun"] = {"params": ["x", "y"], "body": [
                ("var", "r", [], ("n", 0)),
                ("for", "i", ("n", 0), ("n", 3), [
                    ("if", ("b", "==", ("v", "i", []), ("n", rng.randrange(3))), [("assert", ("b", "!=", ("v", "x", []), ("v", "y", [])))], None),
                    ("set", "r", [], "+=", ("v", "x", []))]),
                ("ret", ("v", "r", []))]}
            prog.order.insert(0, ("f", "zfun"))
            call = ("call", "zfun", [("s", ref), ("n", v)])
            if rng.random() < .5:
                body[at:at] = [("log", [("str", "zcheck of"), ("s", ref), call, ("str", "done")])]
                how = "assert in a log"
            else:
                body[at:at] = [("sig", "", "zcheck", [], []), ("<--", [(".", "zcheck")], call)]
                how = "assert in a function"
        elif mode < .65:
            body[at:at] = [("sig", "", "zcheck", [], []), ("<--", [(".", "zcheck")], one), ("===", ("s", [(".", "zcheck")]), ("n", 0))]
            how = "constraint"
        else:  # one element of an array
            k = rng.choice([2, 3, 3, 5])
            j = rng.choice([0, k - 1, rng.randrange(k)])
            el = lambda n, i: [(".", n), ("[", ("n", i))]
            new = [("sig", "", "zc", [("n", k)], []), ("sig", "", "zz", [("n", k)], [])]
            for i in range(k):
                base = ("n", i * 7)
                new.append(("<--", el("zc", i), ("b", "+", base, one) if i == j else base))
                new.append(("<==", el("zz", i), base))
            l, r = ("s", [(".", "zc")]), ("s", [(".", "zz")])
            how = "array constraint"
            if rng.random() < .6:  # what another component gives
                d = [("sig", "input", "in", [("n", k)], []), ("sig", "output", "out", [("n", k)], [])]
                asg = [("<==", el("out", i), ("s", el("in", i))) for i in range(k)]
                rng.shuffle(asg)
                prog.templates["Zecho"] = {"params": [], "parallel": False, "custom": False,
                                           "body": d + (asg if rng.random() < .7 else [("<==", [(".", "out")], ("s", [(".", "in")]))])}
                prog.order.insert(0, ("t", "Zecho"))
                new += [("compinst", "zd", rng.random() < .6, "Zecho", []), ("<==", [(".", "zd"), (".", "in")], l)]
                l = ("s", [(".", "zd"), (".", "out")])
                how += " on the output of a component"
            if rng.random() < .5:
                l, r = r, l
            new.append(("===", l, r))
            body[at:at] = new
        return how + (" in a parallel template" if prog.templates[t]["parallel"] else "")
    return None


class W04(Failing):
    pid = "W04"
    title = "Bad inputs and failed assertions never yield a witness"
    rule = ("Each case is one generated program, with a check added somewhere that one input passes and another fails; the C++ program "
            "(under seeded schedules, thread limits and memory contents) and the Node.js program are given inputs that violate it or are "
            "incomplete, oversized, misnamed or malformed: each must end with non-zero status and leave no witness file, and the good "
            "input must give the correct witness.")
    quick, thorough = 260, 12000

    def spoil(self, r, rng):
        r["bad"] = [pick(rng, BAD) if rng.random() < .9 else None, rng.randrange(1 << 30)]

    def case(self, i, rng, tier):
        c = Failing.case(self, i, rng, tier)
        c["demand"] = rng.randrange(1 << 30)
        # level 0 leaves the checks of constraints out
        if "--sanity_check" in c["flags"]:
            k = c["flags"].index("--sanity_check")
            c["flags"][k + 1] = str(max(1, int(c["flags"][k + 1])))
        return c

    def load(self, case):
        prog, pairs = circ.load(case["prog"], 2)
        self.how = None
        if len(pairs) > 1 and pairs[0][1] is not None and pairs[1][1] is not None:
            self.how = demand(prog, pairs[0][0], pairs[1][0], case["demand"])
            if self.how:
                # names do not move; the good input's reference gains the new signals
                pairs = [(pairs[0][0], Interp(prog).run(pairs[0][0])), (pairs[1][0], None)]
        return prog, pairs

    def one(self, case, r, w, st, prog, pairs, R, sym, wroot):
        kind, seed = r["bad"]
        rng = random.Random("bad/%s" % seed)
        vals, ref = pairs[0]
        if ref is None:
            st.skip = "input not valid"
            return []
        self.inputs(wroot, vals, prog)
        if kind == "violate":
            if not self.how:
                return []
            self.inputs(wroot, pairs[1][0], prog)
        elif kind:
            t = bad_json(vals, kind, rng)
            if t is None:
                return []
            with open(os.path.join(wroot, "in.json"), "w") as f:
                f.write(t)
        res = self.go(w, st, wroot, r)
        b = witness_file(wroot)
        st.count("bad:" + (kind or "none") + (":" + self.how.replace(" ", "-") if kind == "violate" else ""))
        if kind is None:
            if res.verdict != "ended" or res.rc != 0:
                return [("W04:rejects", "%s: no witness for a valid input: %s, %s" % (self.who(r), res.verdict, tail(res)))]
            bad = "no witness file" if b is None else wrong(b, prog, ref, R, sym, st)
            return [("W04:good", "%s: the witness is wrong: %s" % (self.who(r), bad))] if bad else []
        what = "%s (%s)" % (kind, self.how) if kind == "violate" else kind
        if res.verdict != "ended" or res.rc == 0:
            return [("W04:accepted:" + self.who(r), "%s: status %s (%s) for a bad input: %s; witness file %s" % (
                self.who(r), res.rc, res.verdict, what, "absent" if b is None else "of %d bytes" % len(b)))]
        if b is not None:
            return [("W04:file:" + self.who(r), "%s: failed on a bad input (%s) but left a witness file of %d bytes" % (self.who(r), what, len(b)))]
        return []


WERR = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG]
OERR = [errno.EACCES, errno.EROFS, errno.EMFILE, errno.ENOSPC, errno.ENOENT, errno.EISDIR, errno.EIO, errno.EPERM]
RERR = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ENOMEM, errno.EPERM, errno.ENFILE]


class W05(Failing):
    pid = "W05"
    title = "A witness generator that reports success wrote the witness"
    rule = ("Each case is one generated program run through both witness generators with failures injected into the creation, writes "
            "and closing of the witness file (errors, full disk, short writes, kill), sometimes over an older file; status zero is only "
            "allowed with the complete, correct witness in place, and a run with only short transfers must succeed.")
    quick, thorough = 260, 12000
    profiles = {"par": 2, "mix": 3, "simp": 3, "cheap": 1}

    def spoil(self, r, rng):
        plan = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice("EEENNSSCT")
            on = rng.choice([["create", "open-w"], ["write"], ["write"], ["close"]]) if k in "EC" else ["write"]
            f = {"g": 0, "pos": rng.choice(["first", "last", "rand"]), "r": rng.random(), "k": k, "on": on}
            if k == "E":
                f["a"] = rng.choice(OERR if on[0] == "create" else WERR)
            elif k in "NST":
                f["fr"] = rng.choice([0, rng.random(), .999])
            plan.append(f)
        r["plan"] = plan
        r["old"] = rng.choice([None, None, None, "longer", "shorter", "dir"])
        if rng.random() < .06:
            r["old"] = "usage"

    def one(self, case, r, w, st, prog, pairs, R, sym, wroot):
        vals, ref = pairs[r["input"] % len(pairs)]
        if ref is None:
            st.skip = "input not valid"
            return []
        # undisturbed
        self.inputs(wroot, vals, prog)
        r0 = self.go(w, st, wroot, r, False)
        b0 = witness_file(wroot)
        if r0.rc != 0 or r0.verdict != "ended" or b0 is None:
            return [("W05:none", "%s: no witness without any fault: %s, %s" % (self.who(r), r0.verdict, tail(r0)))]
        self.inputs(wroot, vals, prog)
        p = os.path.join(wroot, "w.wtns")
        if r["old"] == "usage":  # the output is not named
            a = ("p.wasm", "in.json") if r["conf"].get("node") else ("in.json",)
            res = self.go(w, st, wroot, r, True, args=a)
            return [("W05:usage:" + self.who(r), "%s: status 0 without an output file being named" % self.who(r))] if res.rc == 0 else []
        if r["old"] == "dir":
            os.mkdir(p)
        elif r["old"]:
            with open(p, "wb") as f:
                f.write(b0 + b0 if r["old"] == "longer" else b0[:len(b0) // 2])
        ops = [o for o in r0.ops if o[2] == "w.wtns"]
        faults = resolve(r["plan"], ops)
        # where the file exists the operation that creates it has another name, at the same number
        res = self.go(w, st, wroot, r, True, faults)
        try:
            if res.rc == 0:
                if r["old"] == "dir":
                    return [("W05:success:" + self.who(r), "%s: status 0 although a directory stands where the witness file belongs" % self.who(r))]
                b = witness_file(wroot)
                bad = "it is absent" if b is None else wrong(b, prog, ref, R, sym, st)
                if bad is None and b != b0:
                    bad = "%d bytes instead of %d" % (len(b), len(b0))
                if bad:
                    return [("W05:success:" + self.who(r), "%s: status 0 although %s left no complete witness: %s" % (
                        self.who(r), "; ".join(res.faults) or "the older file", bad))]
            elif res.verdict in ("deadlock", "stepcap", "timeout"):
                return [("W05:hang", "%s: did not end: %s" % (self.who(r), res.verdict))]
            elif r["old"] != "dir" and all(f[1] == "S" for f in faults):
                return [("W05:transient", "%s: failed although transfers were only short: %s; %s" % (self.who(r), "; ".join(res.faults), tail(res)))]
        finally:
            if r["old"] == "dir":
                os.rmdir(p)
        return []


class W06(Failing):
    pid = "W06"
    title = "A damaged or unreadable input never yields a wrong witness"
    rule = ("Each case is one generated program run through both witness generators with its data file, module or input file missing, "
            "truncated at a seeded byte, or failing to open, stat, map or read, with threads refused or reads cut short; the status is "
            "zero only with the complete and correct witness, and truncated or missing files always end in failure.")
    quick, thorough = 260, 12000
    profiles = {"par": 3, "mix": 5, "simp": 1}

    def spoil(self, r, rng):
        node = r["conf"].get("node")
        k = rng.choice(["trunc", "trunc", "trunc", "gone", "io", "io", "io", "dir", "short", "short"] + ([] if node else ["thread", "thread"]))
        f = rng.choice(["p.wasm", "p.wasm", "in.json"] if node else ["p.dat", "p.dat", "p.dat", "in.json", "in.bin"])
        r["bad"] = [k, f, rng.random(), rng.choice(["any", "any", "page", "tail"])]
        r["plan"] = []
        if k == "io":
            on = rng.choice([["open-r"], ["read"], ["read"]] if f == "in.json" or node else [["open-r"], ["fstat"], ["mmap"], ["mmap"]])
            r["plan"] = [{"g": 0, "pos": rng.choice(["first", "last"]), "r": 0, "k": "E", "on": on, "a": rng.choice(RERR)}]
        elif k == "short":
            r["conf"]["auto"] = "%d:%s" % (rng.choice([20000, 40000, 60000]), rng.choice(["s", "1", "s1"]))
        elif k == "thread":
            r["conf"]["threadfail"] = [rng.randrange(1, 6) for _ in range(rng.choice([1, 1, 2]))]
        if k != "thread" and not node and rng.random() < .7:
            r["conf"]["junk"] = rng.randrange(1, 256)

    def one(self, case, r, w, st, prog, pairs, R, sym, wroot):
        kind, name, x, how = r["bad"]
        vals, ref = pairs[r["input"] % len(pairs)]
        if ref is None:
            st.skip = "input not valid"
            return []
        self.inputs(wroot, vals, prog)
        self.bin = False
        if name == "in.bin":
            if prog.prime != "goldilocks" or not vals:
                return []
            self.bin = True
            self.binary(wroot, vals, sym)
            r = {**r, "conf": {**r["conf"], "bin": 1}}
        path = os.path.join(wroot, name)
        keep = path + ".keep"
        faults = []
        if kind == "io":
            r0 = self.go(w, st, wroot, r, False)
            if r0.rc != 0 or r0.verdict != "ended":
                return [("W06:none", "%s: no witness without any fault: %s, %s" % (self.who(r), r0.verdict, tail(r0)))]
            self.inputs(wroot, vals, prog)
            faults = resolve(r["plan"], [o for o in r0.ops if o[2] == name])
            if not faults:
                return []
        os.rename(path, keep)
        try:
            with open(keep, "rb") as f:
                b = f.read()
            must_fail = True
            if kind == "trunc":
                n = len(b)
                k = n - 1 - int(min(x, .999) * min(n, 40)) if how == "tail" else int(x * n) if how == "any" else int(x * (n // 4096 + 1)) * 4096
                k = max(0, min(k, n - 1))
                with open(path, "wb") as f:
                    f.write(b[:k])
                what = "%s truncated at byte %d of %d" % (name, k, n)
            elif kind == "gone":
                what = "%s missing" % name
            elif kind == "dir":
                os.mkdir(path)
                what = "%s is a directory" % name
            else:
                with open(path, "wb") as f:
                    f.write(b)
                must_fail = kind == "io"
                what = kind
            if name == "in.json" and kind == "trunc":
                try:
                    json.loads(b[:k])
                    must_fail = False
                except ValueError:
                    pass
            os.chmod(path, 0o644) if os.path.isfile(path) else None
            res = self.go(w, st, wroot, r, True, faults)
            what = what + (" " + "; ".join(res.faults) if res.faults else "")
            out = witness_file(wroot)
            st.count("damage:%s:%s" % (kind, name if kind != "thread" else ""))
            if res.verdict in ("deadlock", "stepcap", "timeout"):
                return [("W06:hang", "%s: did not end: %s, %s" % (self.who(r), res.verdict, what))]
            if must_fail and res.rc == 0:
                return [("W06:success:" + self.who(r), "%s: status 0 although %s; the witness is %s" % (
                    self.who(r), what, "absent" if out is None else wrong(out, prog, ref, R, sym) or "correct"))]
            if res.rc == 0 or out is not None:
                bad = "absent" if out is None else wrong(out, prog, ref, R, sym, st)
                if bad:
                    return [("W06:wrong:" + self.who(r), "%s: a wrong witness was written (status %s) with %s: %s" % (self.who(r), res.rc, what, bad))]
            if kind == "short" and res.rc != 0:
                return [("W06:transient", "%s: failed although transfers were only short: %s; %s" % (self.who(r), what, tail(res)))]
        finally:
            if os.path.isdir(path):
                os.rmdir(path)
            os.replace(keep, path)
        return []
