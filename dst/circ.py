"""Compiling generated programs with the simulated compiler, and judging what comes out."""
import ast
import json
import os
import random
import re
from . import formats
from .build import CIRCOM
from .field import PRIMES
from .gen import Gen, nest_inputs
from .lang import Interp, Failure
from .field import Undefined
from .simrun import run

BASE = {"sched": 1, "hash": 1, "ncpu": 4, "pid": 4242, "clk": "1700000000000000000,1000", "stepcap": 150000000}


def make(seed, profile, prime=None, size=None, ninputs=1, tries=30):
    """(program, [(inputs, reference values)]) - deterministic in its arguments"""
    for a in range(20):
        g = Gen("%s/%d" % (seed, a), profile, prime, size)
        prog = g.program()
        rng = random.Random("in/%s/%d" % (seed, a))
        got = []
        for _ in range(tries):
            try:
                v = g.inputs(rng)
                r = Interp(prog).run(v)
                if len(r) > 5000:
                    break
                got.append((v, r))
                if len(got) == ninputs:
                    return g, prog, got
            except (Failure, Undefined, RuntimeError):
                pass
    raise RuntimeError("generator found no satisfiable program for %s" % seed)


def compile_(work, src, flags, conf, out="out", cwd=None, timeout=180, env=None):
    """src: path relative to cwd. Everything happens below work.dir/root."""
    root = work.path("root")
    return run([CIRCOM, src] + flags + ["-o", out], {**conf, "root": root}, work, cwd or root, timeout=timeout, env=env)


def write_program(work, prog, name="p.circom"):
    root = work.sub("root")
    os.makedirs(os.path.join(root, "out"))
    with open(os.path.join(root, name), "w") as f:
        f.write(prog.text())
    return root


def tree(d):
    """{relative path: bytes} of a directory; symlinks and directories are recorded too"""
    r = {}
    for dp, dn, fn in os.walk(d):
        for x in dn:
            r[os.path.relpath(os.path.join(dp, x), d) + "/"] = b""
        for x in fn:
            p = os.path.join(dp, x)
            if os.path.islink(p):
                r[os.path.relpath(p, d)] = b"->" + os.readlink(p).encode()
            else:
                with open(p, "rb") as f:
                    r[os.path.relpath(p, d)] = f.read()
    return r


def strip_ansi(b):
    import re
    return re.sub(r"\x1b\[[0-9;]*m", "", b.decode("utf-8", "replace"))


# ------------------------------------------------------------------------------------------------ programs in cases
def spec(prog, inputs):
    """a program and inputs as plain data"""
    return {"ast": repr((prog.prime, prog.templates, prog.functions, prog.buses, prog.main, prog.order)), "inputs": inputs}


def load(sp, ninputs=1):
    """(program, [(inputs, reference values)]) of a program in a case"""
    if "ast" in sp:
        from .lang import Program
        prime, t, f, b, m, o = ast.literal_eval(sp["ast"])
        prog = Program(prime)
        prog.templates, prog.functions, prog.buses, prog.main, prog.order = t, f, b, m, o
        pairs = []
        want = set(Interp(prog).main_inputs())
        for v in sp["inputs"]:
            v = {k: x for k, x in v.items() if k in want}  # a minimised program may have lost some
            try:
                pairs.append((v, Interp(prog).run(v)))
            except (Failure, Undefined):
                pairs.append((v, None))
        return prog, pairs
    g, prog, pairs = make(sp["seed"], sp["profile"], sp.get("prime"), sp.get("size"), max(ninputs, sp.get("ninputs", 1)))
    if sp.get("more"):
        constrain(prog, random.Random(sp["more"]))
        pairs = [(v, None) for v, _ in pairs]
    return prog, pairs


def constrain(prog, rng):
    """further linear constraints on the signals of the main template, which no witness need satisfy"""
    body = prog.templates[prog.main[0]]["body"]
    sig = []
    for s in body:
        if s[0] == "sig":
            if not s[3]:
                sig.append([(".", s[2])])
            elif len(s[3]) == 1 and s[3][0][0] == "n" and s[3][0][1]:
                sig.append([(".", s[2]), ("[", ("n", rng.randrange(s[3][0][1])))])
    if not sig:
        return
    few = [rng.choice(sig) for _ in range(rng.choice([1, 1, 2, 3]))]
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        k = rng.random()
        a = ("s", rng.choice(few))
        c = ("n", rng.choice([0, 1, 2, 5, 7]))
        if k < .5:
            body.append(("===", a, c))
        elif k < .7:
            body.append(("===", a, ("s", rng.choice(few if rng.random() < .5 else sig))))
        else:
            body.append(("===", a, ("b", "+", ("b", "*", c, ("s", rng.choice(sig))), ("n", rng.choice([0, 1, 3])))))


def shrink(sp, ninputs=1):
    """simpler programs: fewer statements, no unused definitions"""
    import copy
    prog, pairs = load(sp, ninputs)
    ins = [v for v, _ in pairs]
    used = set(re.findall(r"\w+", prog.text(main=True, defs=[])))
    txt = {n: prog.emit_def(k, n) for k, n in prog.order}
    need, todo = set(), [n for _, n in prog.order if n in used]
    while todo:
        n = todo.pop()
        if n not in need:
            need.add(n)
            w = set(re.findall(r"\w+", txt[n]))
            todo += [x for _, x in prog.order if x in w]

    def clone():
        q = copy.deepcopy(prog)
        return q
    drop = [(k, n) for k, n in prog.order if n not in need]
    if drop:
        q = clone()
        q.order = [x for x in q.order if tuple(x) not in drop]
        for k, n in drop:
            ({"t": q.templates, "f": q.functions, "b": q.buses}[k]).pop(n)
        yield spec(q, ins)

    def bodies(q):
        for d in (q.templates, q.functions):
            for n in d:
                yield d[n]["body"]
    names = [list(bodies(prog))]

    def paths(b, pre):
        for i in reversed(range(len(b))):
            yield pre + [i]
            s = b[i]
            if s[0] == "for":
                yield from paths(s[4], pre + [i, 4])
            elif s[0] == "if":
                yield from paths(s[2], pre + [i, 2])
                if s[3]:
                    yield from paths(s[3], pre + [i, 3])
    nb = len(names[0])
    order = list(range(nb))
    order.sort(key=lambda k: -len(names[0][k]))

    def cut(b, path, n=1):
        if len(path) == 1:
            return b[:path[0]] + b[path[0] + n:]
        i, f = path[0], path[1]
        s = list(b[i])
        s[f] = cut(s[f], path[2:], n)
        return b[:i] + [tuple(s)] + b[i + 1:]
    for k in order:
        for chunk in (8, 3):
            L = len(names[0][k])
            for i in range(max(0, L - chunk), -1, -chunk):
                if L >= chunk * 2:
                    q = clone()
                    b = list(bodies(q))[k]
                    b[:] = cut(b, [i], chunk)
                    yield spec(q, ins)
        for path in paths(names[0][k], []):
            q = clone()
            b = list(bodies(q))[k]
            b[:] = cut(b, path)
            yield spec(q, ins)


def refusal(pid, r, st):
    """what to report when the compiler does not accept a generated program: nothing if it says why, an error that
    may be one (it also evaluates, for example, divisions by zero in branches that are never taken)"""
    m = re.search(r"panicked at ([\w/.-]+:\d+)", strip_ansi(r.err))
    if not m and r.rc == 1 and r.verdict == "ended":
        st.skip = "rejected by the compiler"
        return []
    return [("%s:refused:%s" % (pid, m.group(1) if m else r.verdict), "the compiler fails on a valid program: %s, status %s, %s" % (
        r.verdict, r.rc, strip_ansi(r.err)[m.start() if m else -300:][:300]))]
