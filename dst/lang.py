"""A subset of the circom language as Python data, with a printer and a reference interpreter.

Expressions   ('n', int) ('v', name, [index exprs]) ('s', ref) ('b', op, l, r) ('u', op, e) ('t', c, a, b)
              ('call', f, [args]) ('arr', [exprs]) ('tag', signal, tag) ('str', text) (only in log)
Signal refs   [('.', name), ('[', expr), ...]   first step is always a name
Statements    ('var', name, [dims], expr|None) ('set', name, [idx], op, expr)
              ('sig', kind, name, [dims], tags) ('bus', kind, busname, [args], name, [dims])
              ('comp', name, [dims]) ('inst', ref, parallel, template, [args]) ('compinst', name, parallel, template, args)
              ('<==', ref, e) ('<--', ref, e) ('===', e, e) ('for', var, lo, hi, body) ('if', c, body, else|None)
              ('while', c, body) ('assert', e) ('log', [e]) ('ret', e) ('settag', signal, tag, e)
              ('anon', lhs, parallel, template, args, [e])
"""
from .field import PRIMES, binop, unop, Undefined


class Failure(Exception):
    """An assertion or constraint of the program does not hold."""


class Program:
    def __init__(self, prime="bn128"):
        self.prime = prime
        self.templates = {}  # name -> dict(params, body, parallel, custom)
        self.functions = {}  # name -> dict(params, body)
        self.buses = {}  # name -> dict(params, body)
        self.main = None  # (template, [ints], [public])
        self.order = []  # emission order of definitions
        self.features = set()

    @property
    def p(self):
        return PRIMES[self.prime]

    def hollow_inputs(self):
        """[(name, dimensions)] of the inputs of the main component that have no elements"""
        r = []
        for s in self.templates[self.main[0]]["body"]:
            if s[0] == "sig" and s[1] == "input" and ("n", 0) in s[3]:
                r.append((s[2], [d[1] for d in s[3]]))
        return r

    # ------------------------------------------------------------------ printing
    def text(self, defs=None, main=True, includes=()):
        out = ["pragma circom 2.2.0;"]
        if any(t.get("custom") for t in self.templates.values()):
            out.append("pragma custom_templates;")
        for i in includes:
            out.append('include "%s";' % i)
        for kind, name in self.order if defs is None else defs:
            out.append(self.emit_def(kind, name))
        if main:
            t, args, pub = self.main
            par = "parallel " if self.__dict__.get("main_parallel") else ""
            out.append("component main %s= %s%s(%s);" % (
                "{public [%s]} " % ",".join(pub) if pub else "", par, t, ",".join(map(str, args))))
        return "\n".join(out) + "\n"

    def emit_def(self, kind, name):
        if kind == "t":
            t = self.templates[name]
            head = "template %s%s%s(%s)" % ("custom %s" % ("extern_c " if t.get("extern") else "") if t.get("custom") else "", "parallel " if t.get("parallel") else "",
                                           name, ",".join(t["params"]))
            return head + " {\n" + block(t["body"], 1) + "}\n"
        if kind == "f":
            f = self.functions[name]
            return "function %s(%s) {\n" % (name, ",".join(f["params"])) + block(f["body"], 1) + "}\n"
        b = self.buses[name]
        return "bus %s(%s) {\n" % (name, ",".join(b["params"])) + block(b["body"], 1) + "}\n"


def ex(e):
    k = e[0]
    if k == "n":
        return str(e[1])
    if k == "v":
        return e[1] + "".join("[%s]" % ex(i) for i in e[2])
    if k == "s":
        return rf(e[1])
    if k == "b":
        return "(%s %s %s)" % (ex(e[2]), e[1], ex(e[3]))
    if k == "u":
        return "(%s%s)" % (e[1], ex(e[2]))
    if k == "t":
        return "(%s ? %s : %s)" % (ex(e[1]), ex(e[2]), ex(e[3]))
    if k == "call":
        return "%s(%s)" % (e[1], ",".join(map(ex, e[2])))
    if k == "arr":
        return "[%s]" % ",".join(map(ex, e[1]))
    if k == "tag":
        return "%s.%s" % e[1:]
    if k == "str":
        return '"%s"' % e[1]
    raise ValueError(e)


def rf(r):
    s = ""
    for k, v in r:
        s += ("." + v if s else v) if k == "." else "[%s]" % ex(v)
    return s


def st(s, ind):
    t = "    " * ind
    k = s[0]
    if k == "var":
        return t + "var %s%s%s;\n" % (s[1], "".join("[%s]" % ex(d) for d in s[2]), " = " + ex(s[3]) if s[3] else "")
    if k == "set":
        return t + "%s%s %s %s;\n" % (s[1], "".join("[%s]" % ex(d) for d in s[2]), s[3], ex(s[4]))
    if k == "sig":
        tags = "{%s} " % ",".join(s[4]) if s[4] else ""
        return t + "signal %s%s%s%s;\n" % (s[1] + " " if s[1] else "", tags, s[2], "".join("[%s]" % ex(d) for d in s[3]))
    if k == "bus":
        return t + "%s%s(%s) %s%s;\n" % (s[1] + " " if s[1] else "", s[2], ",".join(map(ex, s[3])), s[4],
                                        "".join("[%s]" % ex(d) for d in s[5]))
    if k == "comp":
        return t + "component %s%s;\n" % (s[1], "".join("[%s]" % ex(d) for d in s[2]))
    if k == "inst":
        return t + "%s = %s%s(%s);\n" % (rf(s[1]), "parallel " if s[2] else "", s[3], ",".join(map(ex, s[4])))
    if k == "compinst":
        return t + "component %s = %s%s(%s);\n" % (s[1], "parallel " if s[2] else "", s[3], ",".join(map(ex, s[4])))
    if k in ("<==", "<--"):
        return t + "%s %s %s;\n" % (rf(s[1]), k, ex(s[2]))
    if k == "===":
        return t + "%s === %s;\n" % (ex(s[1]), ex(s[2]))
    if k == "for":
        return t + "for (var %s = %s; %s < %s; %s++) {\n" % (s[1], ex(s[2]), s[1], ex(s[3]), s[1]) + block(
            s[4], ind + 1) + t + "}\n"
    if k == "while":
        return t + "while (%s) {\n" % ex(s[1]) + block(s[2], ind + 1) + t + "}\n"
    if k == "if":
        r = t + "if (%s) {\n" % ex(s[1]) + block(s[2], ind + 1) + t + "}"
        if s[3]:
            r += " else {\n" + block(s[3], ind + 1) + t + "}"
        return r + "\n"
    if k == "assert":
        return t + "assert(%s);\n" % ex(s[1])
    if k == "log":
        return t + "log(%s);\n" % ",".join(map(ex, s[1]))
    if k == "settag":
        return t + "%s.%s = %s;\n" % (s[1], s[2], ex(s[3]))
    if k == "ret":
        return t + "return %s;\n" % ex(s[1])
    if k == "anon":
        call = "%s%s(%s)(%s)" % ("parallel " if s[2] else "", s[3], ",".join(map(ex, s[4])), ",".join(map(ex, s[5])))
        lhs = s[1]
        if len(lhs) == 1:
            return t + "%s <== %s;\n" % (rf(lhs[0]), call)
        return t + "(%s) <== %s;\n" % (",".join("_" if l is None else rf(l) for l in lhs), call)
    if k == "raw":
        return t + s[1] + "\n"
    raise ValueError(s)


def block(b, ind):
    return "".join(st(s, ind) for s in b)


# ---------------------------------------------------------------------------------------------- interpreter
class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Inst:
    def __init__(self, tname, args):
        self.tname = tname
        self.args = args
        self.sig = {}  # leaf path -> value
        self.leaves = {}  # base name -> [leaf paths]
        self.kind = {}  # base name -> input/output/''
        self.sub = {}  # path -> Inst
        self.need = None
        self.tag = {}  # base name -> {tag: value}
        self.ran = False
        self.anon = []


class Values(dict):
    """value of each signal; `owner` has its component and the template of that"""

    def __init__(self):
        super().__init__()
        self.owner = {}


class Interp:
    """Reference evaluation. Values of all signals by qualified name end up in `values`."""

    def __init__(self, prog, fuel=2000000):
        self.g = prog
        self.p = prog.p
        self.fuel = fuel
        self.values = Values()
        self.nanon = 0
        self.violations = []
        self.compile_fail = False

    # inputs: {leaf path: int}, e.g. {"in[0]": 3}
    def run(self, inputs):
        t, args, _ = self.g.main
        m = self.instantiate(t, [a % self.p for a in args])
        self.inst = m
        for k in self.input_leaves(m):
            m.sig[k] = inputs[k] % self.p
        self.execute(m)
        self.collect("main", m)
        return self.values

    def main_inputs(self):
        t, args, _ = self.g.main
        m = self.instantiate(t, [a % self.p for a in args])
        return self.input_leaves(m)

    def main_decls(self, kind):
        t, args, _ = self.g.main
        m = self.instantiate(t, [a % self.p for a in args])
        return [(b, m.leaves[b]) for b in m.leaves if m.kind[b] == kind]

    def input_leaves(self, m):
        return [l for b in m.leaves if m.kind[b] == "input" for l in m.leaves[b]]

    def collect(self, pre, m):
        for k, v in m.sig.items():
            self.values[pre + "." + k] = v
            self.values.owner[pre + "." + k] = (pre, m.tname)
        for k, s in m.sub.items():
            self.collect(pre + "." + k, s)

    def bus_leaves(self, bname, args):
        b = self.g.buses[bname]
        env = dict(zip(b["params"], args))
        out = []
        for s in b["body"]:
            if s[0] == "sig":
                dims = [self.ev(d, env, None) for d in s[3]]
                out += [s[2] + i for i in indices(dims)]
            else:
                dims = [self.ev(d, env, None) for d in s[5]]
                sub = self.bus_leaves(s[2], [self.ev(a, env, None) for a in s[3]])
                out += [s[4] + i + "." + l for i in indices(dims) for l in sub]
        return out

    def declare(self, m, s, env):
        if s[0] == "sig":
            dims = [self.ev(d, env, m) for d in s[3]]
            m.leaves[s[2]] = [s[2] + i for i in indices(dims)]
            m.kind[s[2]] = s[1]
        else:
            dims = [self.ev(d, env, m) for d in s[5]]
            sub = self.bus_leaves(s[2], [self.ev(a, env, m) for a in s[3]])
            m.leaves[s[4]] = [s[4] + i + "." + l for i in indices(dims) for l in sub]
            m.kind[s[4]] = s[1]

    def instantiate(self, tname, args):
        t = self.g.templates[tname]
        m = Inst(tname, args)
        env = dict(zip(t["params"], args))
        for s in t["body"]:  # interface declarations are at the top level of the template, first
            if s[0] in ("sig", "bus") and s[1] in ("input", "output"):
                self.declare(m, s, env)
        m.need = set(self.input_leaves(m))
        return m

    def execute(self, m):
        m.ran = True
        t = self.g.templates[m.tname]
        env = dict(zip(t["params"], m.args))
        self.block(t["body"], env, m)

    def check_ready(self, m):
        if not m.ran and all(l in m.sig for l in m.need):
            self.execute(m)

    # returns (instance, path)
    def place(self, ref, env, m):
        cur, path = m, ""
        i = 0
        while i < len(ref):
            k, v = ref[i]
            if k == ".":
                path += ("." + v) if path else v
            else:
                path += "[%d]" % self.ev(v, env, m)
            i += 1
            if cur is m and path in m.sub and i < len(ref) and ref[i][0] == ".":
                cur = m.sub[path]
                path = ""
        return cur, path

    def leaves_of(self, inst, path):
        base = path.split("[")[0].split(".")[0]
        ls = inst.leaves[base]
        if path in ls:
            return [path]
        r = [l for l in ls if l == path or l.startswith(path + "[") or l.startswith(path + ".")]
        return r  # none for an array without elements

    def read(self, ref, env, m):
        inst, path = self.place(ref, env, m)
        ls = self.leaves_of(inst, path)
        if inst is m:
            for l in ls:
                if l not in inst.sig and inst.kind[path.split("[")[0].split(".")[0]] == "":
                    inst.sig[l] = 0  # assigned on other executions only
        vs = [inst.sig[l] for l in ls]
        return vs[0] if len(vs) == 1 and ls[0] == path else vs

    def write(self, ref, val, env, m):
        inst, path = self.place(ref, env, m)
        ls = self.leaves_of(inst, path)
        vals = flat(val)
        assert len(vals) == len(ls), (path, len(vals), len(ls))
        for l, v in zip(ls, vals):
            assert l not in inst.sig, "assigned twice " + l
            inst.sig[l] = v
        if inst is not m:
            self.check_ready(inst)

    def ev(self, e, env, m):
        k = e[0]
        if k == "n":
            return e[1] % self.p
        if k == "v":
            v = env[e[1]]
            for i in e[2]:
                v = v[self.ev(i, env, m)]
            return v
        if k == "s":
            return self.read(e[1], env, m)
        if k == "b":
            self.fuel -= 1
            if self.fuel < 0:
                raise RuntimeError("fuel")
            a = self.ev(e[2], env, m)
            # the language evaluates both operands
            return binop(e[1], a, self.ev(e[3], env, m), self.p)
        if k == "u":
            return unop(e[1], self.ev(e[2], env, m), self.p)
        if k == "t":
            return self.ev(e[2], env, m) if self.ev(e[1], env, m) else self.ev(e[3], env, m)
        if k == "call":
            f = self.g.functions[e[1]]
            env2 = dict(zip(f["params"], [self.ev(a, env, m) for a in e[2]]))
            try:
                self.block(f["body"], env2, None)
            except Ret as r:
                return r.v
            raise RuntimeError("no return")
        if k == "arr":
            return [self.ev(x, env, m) for x in e[1]]
        if k == "tag":
            return m.tag[e[1]][e[2]]
        if k == "str":
            return 0
        raise ValueError(e)

    def block(self, b, env, m):
        for s in b:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        self.fuel -= 1
        if self.fuel < 0:
            raise RuntimeError("fuel")
        k = s[0]
        if k == "var":
            dims = [self.ev(d, env, m) for d in s[2]]
            env[s[1]] = self.ev(s[3], env, m) if s[3] else zeros(dims)
        elif k == "set":
            v = self.ev(s[4], env, m)
            if s[2]:
                a = env[s[1]]
                idx = [self.ev(i, env, m) for i in s[2]]
                for i in idx[:-1]:
                    a = a[i]
                a[idx[-1]] = v if s[3] == "=" else binop(s[3][:-1], a[idx[-1]], v, self.p)
            else:
                env[s[1]] = v if s[3] == "=" else binop(s[3][:-1], env[s[1]], v, self.p)
        elif k in ("sig", "bus"):
            if s[1] not in ("input", "output"):
                self.declare(m, s, env)
        elif k == "comp":
            pass
        elif k in ("inst", "compinst"):
            if k == "inst":
                _, path = self.place(s[1], env, m)
            else:
                path = s[1]
            c = self.instantiate(s[3], [self.ev(a, env, m) for a in s[4]])
            m.sub[path] = c
            self.check_ready(c)
        elif k == "anon":
            c = self.instantiate(s[3], [self.ev(a, env, m) for a in s[4]])
            m.anon.append(c)
            ins = [b for b in c.leaves if c.kind[b] == "input"]
            for b, e in zip(ins, s[5]):
                for l, v in zip(c.leaves[b], flat(self.ev(e, env, m))):
                    c.sig[l] = v
            self.check_ready(c)
            outs = [b for b in c.leaves if c.kind[b] == "output"]
            for l, b in zip(s[1], outs):
                if l is not None:
                    vs = [c.sig[x] for x in c.leaves[b]]
                    self.write(l, vs, env, m)
        elif k == "settag":
            m.tag.setdefault(s[1], {})[s[2]] = self.ev(s[3], env, m)
        elif k in ("<==", "<--"):
            if k == "<==" and s[2][0] == "s":  # signals hand their tags over
                (i, a), (j, b) = self.place(s[1], env, m), self.place(s[2][1], env, m)
                a, b = (x.split("[")[0].split(".")[0] for x in (a, b))
                if i is not m and b in j.tag:
                    i.tag.setdefault(a, {}).update(j.tag[b])
            self.write(s[1], self.ev(s[2], env, m), env, m)
        elif k == "===":
            a, b = flat(self.ev(s[1], env, m)), flat(self.ev(s[2], env, m))
            if a != b:
                raise Failure("===")
        elif k == "assert":
            if not self.ev(s[1], env, m):
                raise Failure("assert")
        elif k == "for":
            i = self.ev(s[2], env, m)
            env = dict_child(env)
            env[s[1]] = i
            while env[s[1]] < self.ev(s[3], env, m):
                self.block(s[4], env, m)
                env[s[1]] += 1
        elif k == "while":
            while self.ev(s[1], env, m):
                self.block(s[2], env, m)
        elif k == "if":
            if self.ev(s[1], env, m):
                self.block(s[2], env, m)
            elif s[3]:
                self.block(s[3], env, m)
        elif k == "log":
            for e in s[1]:
                self.ev(e, env, m)
        elif k == "ret":
            raise Ret(self.ev(s[1], env, m))
        elif k == "raw":
            pass
        else:
            raise ValueError(s)


def dict_child(env):
    return env  # generated programs never shadow, so one flat scope is enough


def zeros(dims):
    if not dims:
        return 0
    return [zeros(dims[1:]) for _ in range(dims[0])]


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


def indices(dims):
    r = [""]
    for d in dims:
        r = [a + "[%d]" % i for a in r for i in range(d)]
    return r
