"""I01-I07: the compiler against a file system that fails, crashes, dribbles and remembers."""
import errno
import os
import random
import re
import shutil
from .. import circ, formats, layout
from .compiler import CODE, LEVELS, PARSED, REAL, Compile, damage, describe_diff, diffs, outputs, pick, sched, world
from ..field import PRIMES

STUBS = ["result of every file system call below the run's directory (injected errors, short transfers, disk full, kill)",
         "thread scheduler, clocks, hash seeds, CPU count, directory order"]
ERRS = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EROFS, errno.EMFILE, errno.EFBIG, errno.EPERM]
RERRS = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ELOOP, errno.ESTALE, errno.EPERM]
MUT = ("create", "open-w", "write", "lseek", "mkdir", "unlink", "rmdir", "truncate", "rename-from", "rename-to", "fsync", "link", "symlink")
PROFILES = {"mix": 4, "par": 2, "custom": 1, "simp": 3}


def flags_for(rng, need=None):
    fl = [f for f in PARSED + CODE if rng.random() < 0.5]
    if not fl:
        fl = [rng.choice(PARSED + CODE)]
    if need:
        fl += [f for f in need if f not in fl]
    fl = fl + rng.choice(LEVELS)
    for f, p in (("--no_asm", .3), ("--inspect", .1), ("--no_init", .1)):
        if rng.random() < p:
            fl.append(f)
    if rng.random() < .3:
        fl += ["--sanity_check", str(rng.randrange(4))]
    return fl


def program_for(rng):
    return {"seed": rng.randrange(1 << 30), "profile": pick(rng, PROFILES)}


def is_output(path):
    return path == "out" or path.startswith("out/")


def resolve(plan, ops):
    """symbolic faults -> faults at operation numbers. ops: those eligible, as recorded in the undisturbed run"""
    out = []
    for f in plan:
        groups = {}
        for o in ops:
            if o[1] in f["on"] or (f["on"] == ["*"]):
                groups.setdefault((o[1], o[2]), []).append(o)
        if not groups:
            continue
        g = groups[sorted(groups)[int(f["g"] * len(groups))]]
        o = g[0] if f["pos"] == "first" else g[-1] if f["pos"] == "last" else g[int(f["r"] * len(g))]
        a = f.get("a", 0)
        if f["k"] in "NST":
            a = min(int(f.get("fr", 0) * o[3]), max(o[3] - 1, 0))
            if f["k"] == "S":
                a = max(a, 1)
        out.append([o[0], f["k"], a])
    return out


def place_fault(rng, kinds, on, errs=ERRS):
    k = rng.choice(kinds)
    f = {"g": rng.random(), "pos": rng.choice(["first", "last", "rand", "rand"]), "r": rng.random(), "k": k, "on": on}
    if k in "EX":
        f["a"] = rng.choice(errs)
    elif k in "NST":
        f["fr"] = rng.choice([0, rng.random(), rng.random(), .999])
    return f


def fresh_out(root):
    shutil.rmtree(os.path.join(root, "out"))
    os.makedirs(os.path.join(root, "out"))


class Files(Compile):
    real, stubs = REAL, STUBS

    def base_case(self, rng, layouts=.15, need=None, threads=.25):
        conf = dict(circ.BASE)
        if rng.random() < threads:
            conf.update(sched(rng))
        conf["hash"] = rng.randrange(1, 1 << 30)
        return {"prog": program_for(rng), "layout": rng.randrange(1 << 30) if rng.random() < layouts else None,
                "flags": flags_for(rng, need), "conf": conf}

    def lighter(self, case):
        ps = case.get("plans")
        if ps and len(ps) > 1:
            for p in ps:
                yield {**case, "plans": [p]}
        elif ps and len(ps[0]) > 1:
            for k in range(len(ps[0])):
                yield {**case, "plans": [ps[0][:k] + ps[0][k + 1:]]}
        for f in ("--no_asm", "--inspect", "--no_init", "--use_old_simplification_heuristics", "--wasm", "--wat", "--c", "--json", "--sym",
                  "--simplification_substitution", "--r1cs"):
            if f in case["flags"]:
                yield {**case, "flags": [x for x in case["flags"] if x != f]}
        if case["conf"].get("sched", 1) != 1:
            yield {**case, "conf": {**{k: v for k, v in case["conf"].items() if k not in ("p", "pct", "seed")}, "sched": 1}}
        yield from Compile.lighter(self, case)

    def reference(self, case, w, st):
        """the undisturbed compilation -> None if this program is not accepted"""
        self.prog, self.pairs, self.root, self.main, lf = self.place(w, case)
        self.fl = case["flags"] + lf + ["-p", self.prog.prime]
        r = self.go(w, self.main, self.fl, case["conf"], st)
        if r.rc or r.verdict != "ended":
            st.skip = "rejected by the compiler"
            return None
        return r, outputs(self.root)

    def again(self, case, w, st, faults=(), **conf):
        fresh_out(self.root)
        return self.go(w, self.main, self.fl, {**case["conf"], "fault": list(faults), **conf}, st, True)


def incomplete(ref, got):
    """names of reference outputs that are missing or different"""
    return sorted(k for k in ref if got.get(k) != ref[k])


def ext(name):
    return os.path.basename(name.rstrip("/")).replace("p_", "").split(".")[-1] if name.startswith("out/") else os.path.splitext(name)[1] or name


def announced(out, tree):
    """output files the compiler has claimed to have written, in terms of tree's names"""
    t = circ.strip_ansi(out)
    got = []
    lines = t.split("\n")
    for k, l in enumerate(lines):
        if k == len(lines) - 1:
            break  # not a complete line
        m = re.match(r"(?:Written successfully|Constraints written in): (.*)$", l)
        if m:
            names = re.split(r", | and ", m.group(1).strip())
            d = os.path.dirname(names[0])
            for n in names:
                n = n if "/" in n else os.path.join(d, n)
                got.append(os.path.relpath(n, "out"))
        if l.strip() == "Everything went okay":
            got += [n for n in tree if not n.endswith("/")]
    return got


class I01(Files):
    pid = "I01"
    title = "A compilation that reports success wrote everything"
    rule = ("Each case compiles one generated program undisturbed and then several times with injected failures (error, full disk, "
            "descriptor failing from some write on, on every kind of output call, from one to three per run); whenever the exit "
            "status is zero every output must be byte for byte that of the undisturbed run.")
    quick, thorough = 800, 30000

    def case(self, i, rng, tier):
        c = self.base_case(rng)
        plans = []
        for _ in range(5):
            p = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                p.append(place_fault(rng, "EEENNX" if rng.random() < .8 else "E", list(MUT) if rng.random() < .75 else
                                     rng.choice([["create", "open-w"], ["lseek"], ["mkdir"], ["stat", "unlink", "opendir", "readdir", "rmdir"], ["write"]])))
            plans.append(p)
        c["plans"] = plans
        return c

    def run(self, case, w, st):
        x = self.reference(case, w, st)
        if not x:
            return []
        r0, ref = x
        ops = [o for o in r0.ops if is_output(o[2]) or o[2] == "<stdout>"]
        v = []
        for plan in case["plans"]:
            fs = resolve(plan, ops)
            if not fs:
                continue
            r = self.again(case, w, st, fs)
            st.count("reported success" if r.rc == 0 else "reported failure")
            if r.verdict not in ("ended", "crash"):
                v.append(("I01:" + r.verdict, "the compiler did not finish (%s) after %s" % (r.verdict, r.faults)))
            elif r.rc == 0:
                bad = incomplete(ref, outputs(self.root))
                if bad:
                    v.append(("I01:incomplete:" + ext(bad[0]), "exit status 0, but %s; injected: %s" % (
                        describe_diff(ref, outputs(self.root), bad), r.faults)))
        return v


class I02(Files):
    pid = "I02"
    title = "No output is announced before it is complete"
    rule = ("Each case compiles one generated program undisturbed and then several times with a kill right after an announcement, a kill "
            "at another operation, or a failure of a later output; every file announced in what was printed must already have its "
            "final content.")
    quick, thorough = 800, 30000

    def case(self, i, rng, tier):
        c = self.base_case(rng, threads=.15)
        plans = []
        for _ in range(5):
            x = rng.random()
            if x < .5:
                f = {"g": 0, "pos": rng.choice(["rand", "rand", "last"]), "r": rng.random(), "k": "D", "on": ["stdout"]}
            elif x < .75:
                f = place_fault(rng, "CDT", ["*"])
            else:
                f = place_fault(rng, "EENX", list(MUT))
            plans.append([f])
        c["plans"] = plans
        return c

    def run(self, case, w, st):
        x = self.reference(case, w, st)
        if not x:
            return []
        r0, ref = x
        ops = [(k, "stdout" if p == "<stdout>" else kind, p, n, c) for k, kind, p, n, c in r0.ops if is_output(p) or p == "<stdout>"]
        v = []
        names = announced(r0.out, ref)
        st.count("announcements checked", len(names))
        lost = [n for n in names if n not in ref]
        if lost:
            v.append(("I02:absent", "an undisturbed compilation announces %s, which it does not write" % lost))
        for plan in case["plans"]:
            fs = resolve(plan, ops)
            if not fs:
                continue
            r = self.again(case, w, st, fs)
            got = outputs(self.root)
            names = [n for n in announced(r.out, ref) if n in ref]
            st.count("announcements checked", len(names))
            st.count("killed" if r.verdict == "crash" else "survived")
            bad = [n for n in names if got.get(n) != ref[n]]
            if bad:
                v.append(("I02:early:" + ext(bad[0]), "announced as written, but %s; injected: %s" % (describe_diff(ref, got, bad), r.faults)))
        return v


class I03(Files):
    pid = "I03"
    title = "Transient I/O conditions are transparent"
    rule = ("Each case compiles one generated program undisturbed and then several times with short and interrupted reads and writes at a "
            "seeded rate on sources, outputs and standard output, plus interruptions of opens; status, output and files must be the same.")
    quick, thorough = 700, 30000

    def case(self, i, rng, tier):
        c = self.base_case(rng, layouts=.3, threads=.15)
        c["plans"] = []
        for k in range(4):
            # one or the other: the operations are renumbered by the first short transfer
            p = [{"auto": "%d:%s" % (rng.choice([1500, 6000, 20000, 40000]), rng.choice(["s", "1", "i", "si", "s1i", "s1"])), "seed": rng.randrange(1, 1 << 30)}]
            if rng.random() < .3:
                p = [place_fault(rng, "S", ["read", "write"]) if rng.random() < .5 else
                     {"g": rng.random(), "pos": "rand", "r": rng.random(), "k": "E", "a": errno.EINTR, "on": ["open-r", "open-w", "create", "read", "write"]}]
            c["plans"].append(p)
        return c

    def run(self, case, w, st):
        x = self.reference(case, w, st)
        if not x:
            return []
        r0, ref = x
        v = []
        for plan in case["plans"]:
            conf = {}
            for f in plan:
                if "auto" in f:
                    conf = {"auto": f["auto"]}
                    if "seed" not in case["conf"]:
                        conf["seed"] = f["seed"]
            r = self.again(case, w, st, resolve([f for f in plan if "auto" not in f], r0.ops), **conf)
            if r.rc or r.verdict != "ended":
                v.append(("I03:fails", "status %s (%s) under transient conditions: %s" % (r.rc, r.verdict, circ.strip_ansi(r.err)[-300:])))
                continue
            d = diffs(ref, outputs(self.root))
            if d:
                v.append(("I03:bytes:" + ext(d[0]), describe_diff(ref, outputs(self.root), d)))
            elif r.out != r0.out:
                v.append(("I03:stdout", "standard output differs: %r / %r" % (r0.out[-200:], r.out[-200:])))
        return v


class I04(Files):
    pid = "I04"
    title = "An unreadable source never changes the program"
    rule = ("Each case compiles one generated program as a single file and spread over files, directories, links and libraries with decoys; "
            "the constraint files must be the same; then again several times with failing opens, resolves, stats and reads of "
            "sources, decoys and directories: exit status zero only with the identical outputs.")
    quick, thorough = 900, 30000

    def case(self, i, rng, tier):
        c = self.base_case(rng, layouts=1, threads=0)
        c["flags"] = ["--r1cs", "--sym", "--json"] + (["--wat"] if rng.random() < .2 else []) + rng.choice(LEVELS)
        c["plans"] = [[place_fault(rng, "E", rng.choice([["open-r"], ["read"], ["realpath"], ["stat"], ["open-r", "read", "realpath", "stat", "fstat", "readlink"]]), RERRS)
                       for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(5)]
        c["blind"] = rng.random() < .3
        return c

    def lighter(self, case):
        for c in Files.lighter(self, case):
            if c.get("layout") is not None:
                yield c

    def run(self, case, w, st):
        v = []
        x = Files.reference(self, {**case, "layout": None}, w, st)
        if not x:
            return []
        one = x[1]
        if "--sym" not in case["flags"]:
            case = {**case, "flags": case["flags"] + ["--sym"]}
        x = Files.reference(self, case, w, st)
        if not x:
            st.skip = None
            return [("I04:layout", "accepted as one file, rejected when spread over several (layout %s)" % case["layout"])]
        r0, ref = x
        # anonymous components are named after their place in their file, and what is named differently is numbered
        # differently: then the programs are compared by the signals they have
        nm = lambda t: [x[3] for x in formats.read_sym(t["p.sym"])] if "p.sym" in t else []
        n1, n2 = nm(one), nm(ref)
        if n1 == n2:
            d = [k for k in ("p.r1cs", "p.sym", "p_constraints.json") if one.get(k) != ref.get(k)]
        else:
            plain = lambda l: sorted(re.sub(r"_\d+_\d+(?=[.\[])", "", x) for x in l)
            d = ["p.sym"] if plain(n1) != plain(n2) else []
            st.count("compared by signals only")
        if d:
            return [("I04:other", "spread over files, the program compiles to something else: %s" % describe_diff(one, ref, d))]
        ops = [o for o in r0.ops if not is_output(o[2]) and o[2][0] != "<"]
        st.count("source operations", len(ops))
        for plan in case["plans"]:
            fs = resolve(plan, ops)
            if not fs:
                continue
            r = self.again(case, w, st, fs)
            st.count("reported success" if r.rc == 0 else "reported failure")
            if r.verdict != "ended":
                v.append(("I04:" + r.verdict, "the compiler did not finish after %s" % r.faults))
            elif r.rc == 0:
                d = diffs(ref, outputs(self.root))
                if d:
                    v.append(("I04:bytes", "exit status 0 with another program after %s: %s" % (r.faults, describe_diff(ref, outputs(self.root), d))))
        if case["blind"]:
            v += self.permanent(case, w, st, ref)
        return v

    def permanent(self, case, w, st, ref):
        """a source whose contents are not text, or which is a dangling link: an error, not another file"""
        rng = random.Random("perm/%s" % case["layout"])
        files, main, lf, decoys, sources = layout.spread(self.prog, case["layout"])
        f = rng.choice(sources)
        p = os.path.join(self.root, f)
        with open(p, "rb") as h:
            t = h.read()
        k = rng.randrange(len(t))
        with open(p, "wb") as h:
            h.write(t[:k] + b"\xff\xfe" + t[k:])
        r = self.again(case, w, st)
        with open(p, "wb") as h:
            h.write(t)
        st.count("unreadable contents")
        if r.rc == 0:
            return [("I04:contents", "%s is not valid text, yet the compiler succeeds" % f)]
        return []


class I05(Files):
    pid = "I05"
    title = "Recompiling after a crash or over old outputs recovers"
    rule = ("Each case runs one to three earlier compilations (of other programs or options, undisturbed, failing, or killed at a seeded "
            "point) into a directory and then one undisturbed compilation; its outputs must be those it gives in an empty directory.")
    quick, thorough = 700, 30000

    def case(self, i, rng, tier):
        c = self.base_case(rng, threads=.1)
        h = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            h.append({"prog": c["prog"] if rng.random() < .35 else program_for(rng), "flags": flags_for(rng, need=[f for f in c["flags"] if f in PARSED + CODE] if rng.random() < .6 else None),
                      "lose": rng.randrange(1 << 30) if rng.random() < .6 else None,
                      "plan": [place_fault(rng, "CDTT" if x < .6 else "ENX", list(MUT))] if x < .75 else []})
        c["history"] = h
        return c

    def lighter(self, case):
        h = case["history"]
        if len(h) > 1:
            for k in range(len(h)):
                yield {**case, "history": h[:k] + h[k + 1:]}
        for k in range(len(h)):
            if h[k]["plan"]:
                yield {**case, "history": h[:k] + [{**h[k], "plan": []}] + h[k + 1:]}
        yield from Files.lighter(self, case)

    def run(self, case, w, st):
        x = self.reference(case, w, st)
        if not x:
            return []
        r0, ref = x
        fresh_out(self.root)
        for h in case["history"]:
            prog, _ = circ.load(h["prog"])
            d = os.path.join(self.root, "old")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "p.circom"), "w") as f:
                f.write(prog.text())
            fl = h["flags"] + ["-p", prog.prime]
            faults = []
            if h["plan"]:
                dry = self.go(w, "old/p.circom", fl, circ.BASE, st)
                faults = resolve(h["plan"], [o for o in dry.ops if is_output(o[2])])
            r = self.go(w, "old/p.circom", fl, {**circ.BASE, "fault": faults}, st, True)
            if r.verdict == "crash" and h.get("lose") is not None:
                st.count("files damaged by power loss", lose(os.path.join(self.root, "out"), random.Random("lose/%s" % h["lose"])))
            st.count("earlier: " + ("killed" if r.verdict == "crash" else "failed" if r.rc else "succeeded"))
        st.count("leftover files", len(outputs(self.root)))
        r = self.go(w, self.main, self.fl, case["conf"], st, True)
        if r.rc or r.verdict != "ended":
            return [("I05:fails", "succeeds in an empty directory, status %s (%s) over what was left: %s" % (r.rc, r.verdict, circ.strip_ansi(r.err)[-300:]))]
        got = outputs(self.root)
        bad = incomplete(ref, got)
        if bad:
            return [("I05:bytes:" + ext(bad[0]), "over what was left: %s" % describe_diff(ref, got, bad))]
        # generated program directories hold nothing but what this compilation wrote
        for d in ("p_cpp/", "p_js/"):
            if d in ref:
                extra = sorted(k for k in got if k.startswith(d) and k not in ref)
                if extra:
                    return [("I05:stale:" + d, "%s is left in the generated directory" % extra)]
        return []


def lose(d, rng):
    """the machine goes down: what was never synced may be missing, cut, or full of zeros"""
    n = 0
    for dp, dn, fn in sorted(os.walk(d)):
        for f in sorted(fn):
            p = os.path.join(dp, f)
            k = rng.randrange(6)
            size = os.path.getsize(p)
            if k == 0:
                os.unlink(p)
            elif k == 1:
                os.truncate(p, 0)
            elif k == 2:
                os.truncate(p, rng.randrange(size + 1))
            elif k == 3:
                a = rng.randrange(size + 1)
                with open(p, "r+b") as h:
                    h.seek(a)
                    h.write(bytes(size - a))
            n += k < 4
    return n


class I06(Files):
    pid = "I06"
    title = "Compilation touches only its own outputs"
    rule = ("Each case puts bystander files, directories and links around the sources and outputs, compiles an accepted or rejected program, "
            "undisturbed or with injected failures, and compares the whole tree before and after; attempts to change anything outside "
            "the run's directory are stopped and counted as violations.")
    quick, thorough = 900, 30000

    def case(self, i, rng, tier):
        c = self.base_case(rng, layouts=.5, threads=.1)
        c["bystanders"] = rng.randrange(1 << 30)
        if rng.random() < .45:
            c["broken"] = rng.randrange(1 << 30)
        c["plans"] = [[]]
        for _ in range(2):
            x = rng.random()
            c["plans"].append([place_fault(rng, "E", ["open-r", "read", "realpath", "stat"], RERRS)] if x < .3 else
                              [place_fault(rng, "CTENX", list(MUT) + ["opendir", "readdir", "stat"])])
        return c

    def run(self, case, w, st):
        x = self.reference(case, w, st)
        if not x:
            return []
        r0, ref = x
        ops = [o for o in r0.ops if o[2][0] != "<"]
        root = self.root
        if case.get("broken") is not None:
            if not spoil(root, self.main, self.prog, case["broken"]):
                st.skip = "nothing to spoil"
                return []
        rng = random.Random("by/%s" % case["bystanders"])
        v = []
        for plan in case["plans"]:
            shutil.rmtree(root + "/out")
            shutil.rmtree(w.path("outside"), ignore_errors=True)
            bystanders(root, w.path("outside"), random.Random("by/%s" % case["bystanders"]), case["flags"])
            before, before2 = circ.tree(root), circ.tree(w.path("outside"))
            r = self.go(w, self.main, self.fl, {**case["conf"], "fault": resolve(plan, ops)}, st, True)
            after, after2 = circ.tree(root), circ.tree(w.path("outside"))
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            st.count("accepted" if r.rc == 0 else "rejected or failed")
            st.count("bystander entries", len(before))
            if r.h["nescape"]:
                v.append(("I06:escape", "tried to change something outside the directory: %s" % r.lines("ESCAPE")[:3]))
            if before2 != after2:
                v.append(("I06:outside", "changed behind a link: %s" % diffs(before2, after2)[:3]))
            if case.get("broken") is not None:
                if r.rc == 0:
                    v.append(("I06:accepted", "an invalid program is accepted (change %s)" % case["broken"]))
                elif changed:
                    v.append(("I06:rejected-wrote", "the program is rejected, yet %s changed" % changed[:5]))
                continue
            allowed = {"out/" + k for k in ref} | {"out/p_js/p.wat" if "--wasm" in case["flags"] else None}
            own = [d for d, fl in (("out/p_cpp/", ["--c"]), ("out/p_js/", ["--wasm", "--wat"])) if any(f in case["flags"] for f in fl)]
            wrong = [k for k in changed if k not in allowed and not any(k.startswith(d) for d in own)]
            if wrong:
                v.append(("I06:touched", "%s changed; requested %s; injected %s" % (wrong[:5], case["flags"], r.faults)))
        return v


def spoil(root, main, prog, seed):
    """make the program invalid in one of many ways; False if this way does not apply"""
    rng = random.Random("spoil/%s" % seed)
    p = os.path.join(root, main)
    t = open(p).read()
    k = rng.randrange(10)
    m = prog.main[0]
    head = "component main"
    i = t.rindex(head)
    if k == 0:
        t2 = inject(t, m, "component spoil = SpoilT(); spoil.a <== 1;")
        t = t2[:t2.rindex(head)] + "template SpoilT() { signal input a; signal output b; b <== a*a*a; }\n" + t2[t2.rindex(head):]
    elif k == 1:
        t = inject(t, m, "signal spoil; spoil <== undeclared_thing + 1;")
    elif k == 2:
        t = inject(t, m, "var spoil = 1; spoil[0] = 1;")
    elif k == 3:
        t = inject(t, m, "component spoil = NoSuchTemplate();")
    elif k == 4:
        t = t[:i]
    elif k == 5:
        t = 'include "nowhere.circom";\n' + t
    elif k == 6:
        t = t[:len(t) * rng.randrange(2, 9) // 10 ]
        if head in t:
            return False
    elif k == 7:
        t = inject(t, m, "signal spoil[2]; spoil[0] <== 1; spoil[0] <== 2;")
    elif k == 8:
        t = inject(t, m, "assert(1 == 2);")
    else:
        t = inject(t, m, "signal spoil; spoil === 1; signal spoil;")
    open(p, "w").write(t)
    return True


def inject(t, name, stmt):
    i = re.search(r"template (?:\w+ )*%s\(" % name, t)
    # `template NAME(args) [modifiers] {`
    j = t.index("{", i.end())
    return t[:j + 1] + " " + stmt + t[j + 1:]


def bystanders(root, outside, rng, flags):
    """things the compiler has no business with"""
    def put(p, b):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)
    o = os.path.join(root, "out")
    os.makedirs(o, exist_ok=True)
    put(os.path.join(outside, "precious.txt"), b"precious")
    put(os.path.join(outside, "dir", "main.cpp"), b"not yours")
    names = ["p.circom", "p.r1cs.old", "q.r1cs", "p.r1cs", "p.sym", "p_constraints.json", "p_substitutions.json", "p.wasm", "p.wat", "p.cpp", "p.dat", "input.json",
             "p", "p_js.txt", "P.sym", ".hidden", "p.r1cs~", "p_cpp.bak/main.cpp", "p_js/witness.wtns", "p_js/p.wtns", "p_cpp/p", "p_cpp/sub/x.o", "p_js/sub/y", "q_js/q.wasm", "q_cpp/q.cpp", "p_js/p.wat", "p_js/p.wasm"]
    for n in names:
        if rng.random() < .45:
            put(os.path.join(o, n), ("bystander %s %d" % (n, rng.randrange(100))).encode())
    for n in ("notes.txt", "p.sym", "p.r1cs", "p_js/keep", "p_cpp/keep"):
        if rng.random() < .3 and not os.path.lexists(os.path.join(root, n)):
            put(os.path.join(root, n), b"bystander")
    for d in ("p_cpp", "p_js"):
        if os.path.isdir(os.path.join(o, d)) and rng.random() < .4:
            os.symlink(os.path.join(outside, "dir"), os.path.join(o, d, "link"))
            os.symlink(os.path.join(outside, "precious.txt"), os.path.join(o, d, "flink"))
    if rng.random() < .3:
        os.symlink(os.path.join(outside, "precious.txt"), os.path.join(o, "link"))


class I07(Files):
    pid = "I07"
    title = "A refused worker thread does not corrupt the result"
    rule = ("Each case compiles one generated program undisturbed and then several times with refused thread creations, an arbitrary CPU "
            "count, a failing allocation, under seeded schedules; the compiler must end, and with status zero only with the "
            "identical outputs.")
    quick, thorough = 700, 30000
    profiles = {"simp": 6, "mix": 1, "big": 3}

    def case(self, i, rng, tier):
        lv = rng.choice([l for l in LEVELS if l[0].startswith("--O2")] if rng.random() < .8 else LEVELS)
        c = {"prog": {"seed": rng.randrange(1 << 30), "profile": pick(rng, self.profiles)}, "layout": None,
             "flags": PARSED + (CODE if rng.random() < .1 else []) + lv, "conf": dict(circ.BASE)}
        plans = []
        for _ in range(4):
            p = {"ncpu": rng.choice([1, 2, 3, 4, 7, 16, 64, 200])}
            if rng.random() < .7:
                p.update(sched(rng))
            x = rng.random()
            if x < .35:
                p["threadfail"] = sorted({rng.choice([1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 60)]) for _ in range(rng.choice([1, 1, 2, 3]))})
            elif x < .55:
                p["threadfailfrom"] = rng.choice([1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 80)])
            elif x < .75:
                p["allocfrac"] = rng.choice([rng.random(), rng.random() ** 3])
            elif x < .85:
                p["spurious"] = rng.choice([2000, 20000])
            plans.append(p)
        c["plans"] = plans
        return c

    def lighter(self, case):
        ps = case["plans"]
        if len(ps) > 1:
            for p in ps:
                yield {**case, "plans": [p]}
        else:
            for k in ps[0]:
                if k in ("p", "seed", "pct"):
                    continue
                yield {**case, "plans": [{a: b for a, b in ps[0].items() if a != k}]}
        yield from Compile.lighter(self, case)

    def run(self, case, w, st):
        x = self.reference(case, w, st)
        if not x:
            return []
        r0, ref = x
        v = []
        for p in case["plans"]:
            conf = {k: x for k, x in p.items() if k != "allocfrac"}
            if "allocfrac" in p:
                conf["allocfail"] = 1 + int(p["allocfrac"] * r0.h["nalloc"])
            r = self.again(case, w, st, (), **conf)
            st.count("reported success" if r.rc == 0 else "reported failure")
            if r.verdict != "ended":
                v.append(("I07:" + r.verdict, "the compiler did not finish: %s; %s" % (r.verdict, (r.faults + r.lines("THREAD"))[:12])))
            elif r.rc == 0:
                d = diffs(ref, outputs(self.root))
                if d:
                    v.append(("I07:bytes", "exit status 0 with other outputs after %s: %s" % (r.faults[:5], describe_diff(ref, outputs(self.root), d))))
            elif not r.faults:
                v.append(("I07:fails", "fails with %s CPUs and no fault: %s" % (p["ncpu"], circ.strip_ansi(r.err)[-300:])))
        return v
