"""J01: one witness calculator, any history of calls."""
import hashlib
import json
import os
import random
import re
from .. import circ, formats
from ..core import Check
from ..gen import nest_inputs
from ..lang import Interp, Failure
from ..build import CIRCOM
from ..field import PRIMES, Undefined
from ..simrun import VERIF, HarnessError, run
from .compiler import pick
from .witness import NODE, bad_json, demand, level, node_place, prime_for, wrong

DRIVER = os.path.join(VERIF, "sim", "node_sim.js")


class J01(Check):
    pid = "J01"
    title = "A witness calculator's result does not depend on its history"
    rule = ("Each case is one generated program compiled to WASM and several seeded scripts, each run in one Node.js process: tens of "
            "calls of the three result forms on one or two calculators with valid, violating, incomplete, malformed and half-way "
            "abandoned inputs, one after another or overlapping with starts at seeded microtasks, sometimes after thousands of failing "
            "calls or with little memory left to grow; every call must give exactly what a fresh calculator gives, and for valid "
            "inputs that is the reference interpreter's witness.")
    real = ["the WASM module circom generates and the witness_calculator.js it ships, unmodified", "V8 and its promise machinery",
            "the circom compiler built from /repo (undisturbed here)"]
    stubs = ["the order and the microtask at which calls start (decided by the script)", "limit on the module's memory", "console.log (recorded)"]
    assumptions = ["the calculator's code runs on one thread, as in every JavaScript host"]
    quick, thorough = 300, 15000
    profiles = {"mix": 5, "par": 1, "simp": 1, "cheap": 1}
    nruns = {"quick": 3, "thorough": 8}
    ninputs = 3

    def case(self, i, rng, tier):
        bads = [pick(rng, {"missing": 3, "short": 2, "extra": 2, "unknown": 2, "renamed": 1, "empty": 1, "notnumber": 4}) for _ in range(4)]
        runs = []
        for _ in range(self.nruns[tier]):
            style = rng.choice(["serial", "serial", "overlap", "overlap", "mixed"])
            runs.append({"style": style, "seed": rng.randrange(1 << 30), "calls": rng.choice([6, 15, 30, 60]),
                         "calcs": rng.choice([1, 1, 1, 2]), "pbad": rng.choice([0, .3, .5, .8]),
                         "pages": "" if not runs else pick(rng, {"": 6, "peak": 2, "tight": 2}), "frac": rng.random(),
                         "forms": rng.random() < .7})
        c = {"prog": {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles), "prime": prime_for(rng),
                      "size": rng.choice([1, 1, 1, 2]), "ninputs": self.ninputs},
             "flags": ["--wasm", "--r1cs", "--sym"] + level(rng), "demand": rng.randrange(1 << 30),
             "bads": [[b, rng.randrange(1 << 30)] for b in bads], "runs": runs}
        if rng.random() < .12:
            c["heavy"] = rng.choice([4000, 25000, 60000])
            c["runs"] = [{**runs[0], "calls": 6}, {**runs[1], "pages": pick(rng, {"peak": 3, "tight": 2})}]
        return c

    def lighter(self, case):
        if len(case["runs"]) > 2:
            for k in range(1, len(case["runs"])):
                yield {**case, "runs": [case["runs"][0], case["runs"][k]]}
            return
        if len(case["runs"]) > 1:
            for r in case["runs"]:
                yield {**case, "runs": [r]}
            if len(case["runs"][0].get("ops", [1])):
                yield {**case, "runs": [{**case["runs"][0], "ops": []}, case["runs"][1]]}
        first, r = case["runs"][:-1], case["runs"][-1]
        if "ops" not in r:
            yield {**case, "runs": first + [{**r, "ops": self.script(r)}]}
        else:
            n = len(r["ops"])
            size = max(1, n // 2)
            while size:
                for k in range(0, n, size):
                    o = r["ops"][:k] + r["ops"][k + size:]
                    yield {**case, "runs": first + [{**r, "ops": o}]}
                size //= 2
        if r.get("pages"):
            yield {**case, "runs": first + [{**r, "pages": ""}]}
        if r["calcs"] > 1 and "ops" in r:
            yield {**case, "runs": first + [{**r, "calcs": 1, "ops": [([o[0], o[1], 0] + o[3:]) if o[0] == "start" else ["init", 0] if o[0] == "init" else o for o in r["ops"]]}]}
        if not case.get("heavy"):
            for sp in circ.shrink(case["prog"], self.ninputs):
                yield {**case, "prog": sp}

    def script(self, r):
        """the sequence of operations of a run: input numbers are taken modulo what there is"""
        rng = random.Random("script/%s" % r["seed"])
        ops, open_, n = [], [], 0
        while n < r["calls"]:
            bad = rng.random() < r["pbad"]
            ops.append(["start", n, rng.randrange(r["calcs"]), rng.choice("wwbt"), (3 + rng.randrange(64)) if bad else rng.randrange(3),
                        rng.choice([0, 0, 0, 1]), pick(rng, {0: 6, 1: 3, 2: 1, 3: 2}) if r.get("forms") else 0])
            if r.get("forms") and rng.random() < .15:
                ops.append(["other", rng.choice("wbt"), *[str(rng.getrandbits(rng.choice([3, 20, 70, 256]))) for _ in range(3)]])
            open_.append(n)
            n += 1
            style = r["style"] if r["style"] != "mixed" else rng.choice(["serial", "overlap"])
            if style == "serial":
                if rng.random() < .05:
                    ops.append(["init", rng.randrange(r["calcs"])])
                for k in open_:
                    ops.append(["await", k])
                open_ = []
            else:
                x = rng.random()
                if x < .03:
                    ops.append(["init", rng.randrange(r["calcs"])])
                elif x < .35:
                    ops.append(["tick", rng.choice([1, 1, 2, 3, 5, 8])])
                elif x < .5 and open_:
                    ops.append(["await", open_.pop(rng.randrange(len(open_)))])
                if len(open_) > 6:
                    ops.append(["all"])
                    open_ = []
        return ops

    def run(self, case, w, st):
        prog, pairs = circ.load(case["prog"], self.ninputs)
        pairs = [p for p in pairs if p[1] is not None]
        if not pairs:
            st.skip = "input not valid"
            return []
        good = [v for v, _ in pairs]
        bad = []
        heavy = self.make_heavy(prog, good, case) if case.get("heavy") else None
        if heavy is not None:
            good = [v for v in good if v is not heavy]
            bad.append(json.dumps(nest_inputs(heavy, prog)))
            st.count("heavy")
        elif len(good) > 1:
            how = demand(prog, good[0], good[-1], case["demand"])
            if how:
                bad.append(json.dumps(nest_inputs(good.pop(), prog)))
                st.count("violating")
        refs = []
        for v in good:
            try:
                refs.append((v, Interp(prog).run(v)))
            except (Failure, Undefined):
                bad.append(json.dumps(nest_inputs(v, prog)))
        if not refs:
            st.skip = "input not valid"
            return []
        nviol = len(bad)
        for kind, seed in case["bads"]:
            rng = random.Random("bad/%s" % seed)
            t = bad_json(refs[rng.randrange(len(refs))][0], kind, rng)
            if t is not None:
                bad.append(t)
        root = circ.write_program(w, prog)
        r = circ.compile_(w, "p.circom", case["flags"] + ["-p", prog.prime], circ.BASE)
        st.res(r)
        if r.rc != 0:
            return circ.refusal(self.pid, r, st)
        out = os.path.join(root, "out")
        js = node_place(w, out)
        with open(os.path.join(out, "p.r1cs"), "rb") as f:
            R = formats.read_r1cs(f.read())
        with open(os.path.join(out, "p.sym"), "rb") as f:
            sym = formats.read_sym(f.read())
        texts = [json.dumps(nest_inputs(v, prog)) for v, _ in refs] + bad
        ng = len(refs)
        v = []
        base = None
        for rr in case["runs"]:
            ops = [list(o) for o in rr["ops"]] if "ops" in rr else self.script(rr)
            n = 0
            fresh = set()
            for o in ops:
                if o[0] == "start":
                    k = o[4]
                    o[4] = k % ng if k < 3 or len(texts) == ng else ng + (k - 3) % (len(texts) - ng)
                    if len(o) > 6 and o[4] >= ng:
                        o[6] &= 1  # a malformed number fails another way as a BigInt
                    fresh.add("%s/%d/%d" % (o[3], o[4], o[5]))
            live = {o[1] for o in ops if o[0] == "start"}
            ops = [o for o in ops if o[0] != "await" or o[1] in live]
            fresh |= {"%s/%d/0" % (m, k) for m in "wbt" for k in range(ng)}
            if case.get("heavy") and heavy is not None:
                ops = [["repeat", k, "w", ng, 60] for k in range(rr["calcs"])] + ops
            sc = {"inputs": texts, "fresh": sorted(fresh), "calcs": rr["calcs"], "ops": ops}
            if any(o[0] == "other" for o in ops):
                sc["other"], oprime = self.other(w, prog, st)
            sf = w.path("script.json")
            with open(sf, "w") as f:
                json.dump(sc, f)
            extra = []
            limited = False
            if rr.get("pages") and base:
                # with this much memory a fresh calculator succeeds on everything, or (tight) maybe only on some
                limit = base[1] if rr["pages"] == "peak" else base[0] + int(rr["frac"] * (base[1] - base[0]))
                limited = limit < base[1]
                extra = ["--wasm-max-mem-pages=%d" % limit]
                st.count("memory_" + rr["pages"])
            res = st.res(run([NODE] + extra + [DRIVER, os.path.join(js, "witness_calculator.js"), os.path.join(out, "p_js", "p.wasm"), sf],
                             {"sched": 0, "stepcap": 0}, w, w.dir, timeout=240), True)
            m = re.search(r"(CompileError|LinkError): [^\n]{0,200}", res.err.decode(errors="replace"))
            if res.rc == 3 and m:
                return [("J01:module", "no calculator can be made of the generated module: " + m.group(0))]
            if res.rc != 0:
                raise HarnessError("driver failed: rc=%s %r" % (res.rc, res.err[-400:]))
            d = json.loads(res.out)
            base = base or (int(d["initial"]), int(d["peak"]))
            st.add("interleavings", int(hashlib.sha256(" ".join(d["events"]).encode()).hexdigest()[:15], 16))
            st.count("calls", len(live))
            st.count("calls_" + rr["style"], len(live))
            v = self.others(d, ops, oprime, st) if "other" in sc else []
            if v and limited:
                v = []
            v = v or self.compare(d, ops, prog, refs, ng, nviol, texts, R, sym, st, limited)
            if v:
                break
        return v

    def other(self, w, prog, st):
        """the module of another small circuit over another field -> (its path, its prime's name)"""
        name = "goldilocks" if prog.prime != "goldilocks" else "bn128"
        if not os.path.exists(w.path("other/other_js/other.wasm")):
            d = w.sub("other")
            with open(os.path.join(d, "other.circom"), "w") as f:
                f.write("pragma circom 2.0.0;\ntemplate O() { signal input x; signal input y[2]; signal output o;\n"
                        "assert(x != 7); o <== x*y[0] + y[1]; }\ncomponent main = O();\n")
            r = run([CIRCOM, "other.circom", "--wasm", "-p", name, "-o", "."], {**circ.BASE, "root": d}, w, d, timeout=60)
            st.res(r)
            if r.rc != 0:
                raise HarnessError("the other circuit does not compile: %r" % r.err[-300:])
        return w.path("other/other_js/other.wasm"), name

    def others(self, d, ops, prime, st):
        p = PRIMES[prime]
        n8 = (p.bit_length() + 63) // 64 * 8
        for o, r in zip([o for o in ops if o[0] == "other"], d["other"]):
            st.count("calls_other_circuit")
            m, (x, y, z) = o[1], [int(v) % p for v in o[2:]]
            if x == 7:
                if "err" not in (r or {}):
                    return [("J01:other", "a calculator of another circuit in the same process accepts a bad input")]
                continue
            want = [1, (x * y + z) % p, x, y, z]
            raw = b"".join(v.to_bytes(n8, "little") for v in want)
            want = [str(v) for v in want] if m == "w" else raw.hex() if m == "b" else formats.wtns(p, want).hex()
            if r is None or r.get("ok") != want:
                return [("J01:other", "a calculator of another circuit in the same process gives a wrong result: %s" % str(r)[:300])]
        return []

    def compare(self, d, ops, prog, refs, ng, nviol, texts, R, sym, st, limited):
        n8 = (prog.p.bit_length() + 63) // 64 * 8
        for key, r in sorted(d["fresh"].items()):
            m, k, s = key.split("/")
            k = int(k)
            if k < ng:
                if "err" in r and limited and "memory" in r["err"]:
                    st.count("out_of_memory")
                    continue
                if "err" in r:
                    return [("J01:fresh", "a fresh calculator rejects a valid input: %s" % r["err"][:300])]
                try:
                    if m == "w":
                        b = formats.wtns(prog.p, [int(x) for x in r["ok"]])
                    elif m == "b":
                        raw = bytes.fromhex(r["ok"])
                        b = formats.wtns(prog.p, [int.from_bytes(raw[j:j + n8], "little") for j in range(0, len(raw), n8)])
                    else:
                        b = bytes.fromhex(r["ok"])
                except (ValueError, TypeError):
                    return [("J01:form", "result %s of a fresh calculator is not of its form" % m)]
                bad = wrong(b, prog, refs[k][1], R, sym, st)
                if bad:
                    return [("J01:fresh", "result %s of a fresh calculator is wrong: %s" % (m, bad))]
            elif "ok" in r:
                return [("J01:accepts", "a fresh calculator accepts a bad input: %s" % texts[k][:300])]
        if d["changed"]:
            return [("J01:alias", "%d results changed after they were returned" % d["changed"])]
        want = []
        for o in ops:
            if o[0] != "start":
                continue
            key = "%s/%d/%d" % (o[3], o[4], o[5])
            f = d["fresh"][key]
            want += f["log"]
            got = d["results"][o[1]] if o[1] < len(d["results"]) else None
            if got is None:
                return [("J01:lost", "call %d never ended" % o[1])]
            if {k: got.get(k) for k in ("ok", "err")} != {k: f.get(k) for k in ("ok", "err")}:
                what = "accepted" if "err" in f and "ok" in got else "failed: %s" % got["err"][:200] if "ok" in f and "err" in got else (
                    "another message: %r instead of %r" % (got["err"][:300], f["err"][:200]) if "err" in f else "another witness")
                sig = "J01:message" if "err" in f and "err" in got else "J01:result"
                return [(sig, "call %d (%s of a %s input, %d calls in all) differs from a fresh calculator's: %s" % (
                    o[1], {"w": "witness", "b": "binary witness", "t": "witness file"}[o[3]], "valid" if o[4] < ng else "bad",
                    sum(1 for x in ops if x[0] == "start"), what))]
        if sorted(want) != sorted(d["log"]) and len(d["log"]) < 3900:
            return [("J01:log", "what the calls logged differs from what fresh calculators log: %r instead of %r" % (
                sorted(d["log"])[:5], sorted(want)[:5]))]
        return []

    def make_heavy(self, prog, good, case):
        """gives main a function with a large frame that fails for one of the inputs -> that input"""
        m = prog.templates[prog.main[0]]["body"]
        ins = [s for s in m if s[0] == "sig" and s[1] == "input" and not s[3]]
        for s in ins:
            if len(good) > 1 and good[0][s[2]] != good[-1][s[2]] and all(g[s[2]] != good[-1][s[2]] for g in good[:-1]):
                n = case["heavy"]
                prog.functions["fheavy"] = {"params": ["x"], "body": [
                    ("var", "a", [("n", n)], None),
                    ("set", "a", [("n", 1)], "=", ("v", "x", [])),
                    ("for", "i", ("n", 0), ("n", 3), [("set", "a", [("v", "i", [])], "=", ("b", "+", ("v", "x", []), ("v", "i", [])))]),
                    ("assert", ("b", "!=", ("v", "x", []), ("n", good[-1][s[2]]))),
                    ("ret", ("b", "*", ("v", "a", [("n", 2)]), ("v", "a", [("n", 1)])))]}
                prog.order.insert(0, ("f", "fheavy"))
                at = max(i for i, x in enumerate(m) if x[0] in ("sig", "bus") and x[1] in ("input", "output")) + 1
                m[at:at] = [("sig", "", "zheavy", [], []), ("<--", [(".", "zheavy")], ("call", "fheavy", [("s", [(".", s[2])])]))]
                return good[-1]
        return None
