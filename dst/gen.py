"""Seeded generator of circom programs, built from the data structures of lang.py."""
import random
from .lang import Program, Interp, Failure
from .field import PRIMES, Undefined


def N(x): return ("n", x)
def V(x, *i): return ("v", x, [N(j) if isinstance(j, int) else j for j in i])
def B(op, a, b): return ("b", op, a, b)
def R(*steps):
    """R('c', 0, '.out', V('i')) -> reference"""
    r = []
    for s in steps:
        if isinstance(s, str):
            r.append((".", s.lstrip(".")))
        else:
            r.append(("[", N(s) if isinstance(s, int) else s))
    return r
def S(*steps): return ("s", R(*steps))
def add(*es):
    e = es[0]
    for x in es[1:]:
        e = B("+", e, x)
    return e
def mul(a, b): return B("*", a, b)
def sub(a, b): return B("-", a, b)


class T:
    """What callers need to know about a template: name, number of parameters and interface."""
    def __init__(self, name, nparams, ins, outs, argf=None, parallel=False, weight=1, cost=1, dims_by_arg=False):
        self.name, self.nparams, self.ins, self.outs = name, nparams, ins, outs
        self.argf = argf or (lambda rng: [rng.choice([1, 2, 3, 4]) for _ in range(nparams)])
        self.parallel = parallel
        self.weight = weight
        self.cost = cost
        self.dims_by_arg = dims_by_arg

    def sigs(self, which, args):
        return [(n, [d if isinstance(d, int) else args[d[0]] + d[1] for d in dims], bus) for n, dims, bus in which]


def leaves(name_dims_bus, buses):
    n, dims, bus = name_dims_bus
    r = [[n]]
    for d in dims:
        r = [x + [i] for x in r for i in range(d)]
    if bus:
        r = [x + list(l) for x in r for l in buses[bus]]
    return r


def rename_var(x, v, e):
    """statement or expression x with e for the variable v"""
    if isinstance(x, tuple):
        if x[:2] == ("v", v):
            return e
        return tuple(rename_var(y, v, e) for y in x)
    if isinstance(x, list):
        return [rename_var(y, v, e) for y in x]
    return x


class Gen:
    def __init__(self, seed, profile="mix", prime=None, size=None):
        self.rng = random.Random("gen/%s/%s" % (profile, seed))
        self.profile = profile
        rng = self.rng
        if prime is None:
            prime = rng.choice(["bn128"] * 4 + list(PRIMES)) if profile != "cheap" else "bn128"
        self.prog = Program(prime)
        self.p = self.prog.p
        self.uid = 0
        self.lib = []
        self.buses = {}  # name -> list of leaf step tuples
        self.par = {"par": 0.6, "mix": 0.25, "simp": 0.0, "seq": 0.0}.get(profile, 0.2)
        self.size = size or rng.choice([1, 1, 2, 2, 3])
        self.checks = []

    def fresh(self, s="s"):
        self.uid += 1
        return "%s%d" % (s, self.uid)

    def coef(self):
        r = self.rng
        x = r.random()
        if x < 0.45:
            return 1
        if x < 0.6:
            return -1
        if x < 0.8:
            return r.choice([2, 3, 5, 7, -2, -3, 16])
        if x < 0.9:
            return r.choice([1 << r.randrange(2, 40), self.p // 2, self.p // 2 + 1, self.p - 2])
        return r.randrange(self.p)

    def cexpr(self, c):
        return N(c) if c >= 0 else ("u", "-", N(-c))

    def lin(self, avail, k=None, const=0.4):
        """random linear expression over signals in avail (expressions)"""
        r = self.rng
        k = k or r.choice([1, 1, 2, 2, 3, 4])
        e = None
        for s in [r.choice(avail) for _ in range(k)]:
            c = self.coef()
            t = s if c == 1 else mul(self.cexpr(c), s)
            if e is None:
                e = t
            elif c == -1:
                e = sub(e, s)
            else:
                e = add(e, t) if r.random() < 0.7 else add(t, e)
        if r.random() < const:
            e = add(e, self.cexpr(self.coef()))
        return e

    def logged(self, avail):
        r = self.rng
        t = lambda: ("str", r.choice(["", "a", "value of", "x = ", "100%", "%s %d", "two  blanks", "signal:", "in49", "=" * r.choice([1, 40, 300])]))
        return [t() if r.random() < .45 else r.choice(avail) if r.random() < .6 else self.lin(avail, 2) for _ in range(r.choice([1, 1, 2, 3, 5]))]

    # ------------------------------------------------------------------ library of parametric leaf templates
    def deft(self, t, params, body, custom=False):
        self.prog.templates[t.name] = {"params": params, "body": body, "parallel": t.parallel, "custom": custom}
        self.prog.order.append(("t", t.name))
        if not custom:
            self.lib.append(t)
        return t

    def deff(self, name, params, body):
        self.prog.functions[name] = {"params": params, "body": body}
        self.prog.order.append(("f", name))

    def defb(self, name, body, lv):
        self.prog.buses[name] = {"params": [], "body": body}
        self.prog.order.append(("b", name))
        self.buses[name] = lv

    def perm(self, i, n):
        """i, or n-1-i: results need not be computed in the order in which they are laid out"""
        return i if self.rng.random() < .5 else sub(sub(n, i), N(1))

    def flag(self):
        return self.rng.random() < self.par * 0.7

    def lib_iszero(self):
        t = T(self.fresh("IsZero"), 0, [("in", [], None)], [("out", [], None)], parallel=self.flag())
        self.deft(t, [], [
            ("sig", "input", "in", [], []), ("sig", "output", "out", [], []), ("sig", "", "inv", [], []),
            ("<--", R("inv"), ("t", B("!=", S("in"), N(0)), B("/", N(1), S("in")), N(0))),
            ("<==", R("out"), add(mul(("u", "-", S("in")), S("inv")), N(1))),
            ("===", mul(S("in"), S("out")), N(0))])

    def lib_pow(self):
        t = T(self.fresh("Pow"), 1, [("a", [], None)], [("b", [], None)], parallel=self.flag())
        self.deft(t, ["n"], [
            ("sig", "input", "a", [], []), ("sig", "output", "b", [], []), ("sig", "", "t", [V("n")], []),
            ("<==", R("t", 0), S("a")),
            ("for", "i", N(1), V("n"), [("<==", R("t", V("i")), add(mul(S("t", sub(V("i"), N(1))), S("a")), V("i")))]),
            ("<==", R("b"), S("t", sub(V("n"), N(1))))])

    def lib_sum(self):
        d = (0, 0)
        k = self.perm(V("i"), V("n"))
        t = T(self.fresh("Sum"), 1, [("x", [d], None)], [("s", [], None), ("q", [d], None)], parallel=self.flag(),
              dims_by_arg=True)
        self.deft(t, ["n"], [
            ("sig", "input", "x", [V("n")], []), ("sig", "output", "s", [], []), ("sig", "output", "q", [V("n")], []),
            ("var", "acc", [], N(0)),
            ("for", "i", N(0), V("n"), [
                ("set", "acc", [], "=", add(V("acc"), mul(add(V("i"), N(1)), S("x", V("i"))))),
                ("<==", R("q", k), sub(mul(S("x", V("i")), S("x", sub(sub(V("n"), V("i")), N(1)))), V("i")))]),
            ("<==", R("s"), V("acc"))])

    def lib_bits(self):
        t = T(self.fresh("Mask"), 1, [("in", [], None)], [("bit", [(0, 0)], None)], parallel=self.flag(),
              dims_by_arg=True)
        k = self.perm(V("i"), V("n"))
        self.deft(t, ["n"], [
            ("sig", "input", "in", [], []), ("sig", "output", "bit", [V("n")], []),
            ("for", "i", N(0), V("n"), [
                ("<--", R("bit", k), B("&", B(">>", S("in"), k), N(1))),
                ("===", mul(S("bit", k), sub(S("bit", k), N(1))), N(0))])])

    def lib_noinput(self):
        t = T(self.fresh("Konst"), 1, [], [("k", [], None), ("m", [2], None)], parallel=self.flag(), weight=0.5)
        ms = [("<==", R("m", 0), S("k")), ("<==", R("m", 1), add(S("k"), V("n")))]
        self.rng.shuffle(ms)
        self.deft(t, ["n"], [
            ("sig", "output", "k", [], []), ("sig", "output", "m", [N(2)], []),
            ("<==", R("k"), add(mul(V("n"), V("n")), N(3)))] + ms)

    def lib_nooutput(self):
        t = T(self.fresh("Check"), 0, [("a", [], None), ("b", [], None)], [], parallel=self.flag(), weight=0.5)
        self.deft(t, [], [
            ("sig", "input", "a", [], []), ("sig", "input", "b", [], []), ("sig", "", "d", [], []),
            ("<==", R("d"), sub(mul(S("a"), S("b")), S("a"))),
            ("===", mul(S("a"), sub(S("b"), N(1))), S("d"))])

    def lib_bus(self):
        pt = self.fresh("Pt")
        self.defb(pt, [("sig", "", "x", [], []), ("sig", "", "y", [N(2)], [])], [(".x",), (".y", 0), (".y", 1)])
        if self.rng.random() < 0.2:  # many fields
            k = self.rng.choice([11, 13])
            self.defb(pt + "w", [("sig", "", "f%d" % j, [], []) for j in range(k)], [(".f%d" % j,) for j in range(k)])
            pt += "w"
        if self.rng.random() < 0.4:  # nested
            outer = self.fresh("Seg")
            self.defb(outer, [("bus", "", pt, [], "a", [N(2)]), ("sig", "", "w", [], [])],
                      [(".a", i) + l for i in range(2) for l in self.buses[pt]] + [(".w",)])
            pt = outer
        t = T(self.fresh("BusOp"), 1, [("p", [], pt), ("k", [], None)], [("q", [], pt), ("e", [2], pt)], parallel=self.flag())
        lv = self.buses[pt]
        body = [("bus", "input", pt, [], "p", []), ("sig", "input", "k", [], []), ("bus", "output", pt, [], "q", []),
                ("bus", "output", pt, [], "e", [N(2)])]
        qs = [("<==", R("q", *l), add(mul(S("p", *l), S("k")), mul(V("n"), S("p", *lv[0])), N(j))) for j, l in enumerate(lv)]
        if self.rng.random() < .6:
            self.rng.shuffle(qs)
        es = [("<==", R("e", 0), S("p"))]
        if self.rng.random() < .5:
            body += qs + es + [("<==", R("e", 1), S("q"))]
        else:
            body += qs + [("<==", R("e", 1), S("q"))] + es
        self.deft(t, ["n"], body)

    def lib_hollow(self):
        """arrays that have no elements for some parameters"""
        r = self.rng
        d = (0, 0)
        f, h = self.fresh("fs"), self.fresh("fh")
        self.deff(f, ["v", "n", "x"], [
            ("var", "s", [], V("x")),
            ("for", "i", N(0), V("n"), [("set", "s", [], "+=", mul(V("v", V("i")), V("i")))]), ("ret", V("s"))])
        self.deff(h, [], [("var", "r", [N(0)], None), ("ret", V("r"))])
        ins = [("a", [d], None), ("z", [], None), ("m", [2, d], None)]
        outs = [("b", [d], None), ("c", [], None), ("e", [d, 2], None), ("k", [2], None)]
        r.shuffle(ins)
        r.shuffle(outs)
        t = T(self.fresh("Hol"), 1, ins, outs, argf=lambda rng: [rng.choice([0, 0, 0, 1, 2])], parallel=self.flag(),
              dims_by_arg=True, weight=2)
        t.spread = lambda a, i: (a + i) % 3
        decl = [("sig", w, n, [V("n") if x is d else N(x) for x in dims], [])
                for w, l in (("input", ins), ("output", outs)) for n, dims, _ in l]
        st = [[("<==", R("b"), S("a"))] if r.random() < .6 else
              [("if", B("==", V("n"), N(0)), [("<--", R("b"), ("call", h, []))], [("<==", R("b"), S("a"))])],
              [("<==", R("c"), mul(S("z"), S("z")))],
              [("for", "i", N(0), V("n"), [("for", "j", N(0), N(2), [("<==", R("e", V("i"), V("j")), add(S("m", V("j"), V("i")), V("j")))])])],
              [("<==", R("k", 0), add(S("z"), V("n")))],
              [("<--", R("k", 1), ("call", f, [S("a"), V("n"), S("z")]))]]
        if r.random() < .6:
            b = self.fresh("Hb")
            self.prog.buses[b] = {"params": ["n"], "body": [("sig", "", "h", [V("n")], []), ("sig", "", "y", [], [])]}
            self.prog.order.append(("b", b))
            st.append([("bus", "", b, [V("n")], "u", []), ("<==", R("u", ".h"), S("a")), ("<==", R("u", ".y"), S("z")),
                       ("bus", "", b, [V("n")], "w", []), ("<==", R("w"), S("u")), ("===", S("w", ".h"), S("a"))])
        if r.random() < .5:
            st.append([("sig", "", "g", [V("n")], []), ("<==", R("g"), S("a")), ("===", S("g"), S("a"))])
        if r.random() < .3:
            st.append([("log", [S("z")])])
        r.shuffle(st)
        self.deft(t, ["n"], decl + [x for y in st for x in y])

    def lib_matrix(self):
        t = T(self.fresh("Mat"), 1, [("m", [2, (0, 1)], None)], [("r", [(0, 1), 2], None)], parallel=self.flag(),
              dims_by_arg=True)
        k, l = self.perm(V("i"), add(V("n"), N(1))), self.perm(V("j"), N(2))
        self.deft(t, ["n"], [
            ("sig", "input", "m", [N(2), add(V("n"), N(1))], []), ("sig", "output", "r", [add(V("n"), N(1)), N(2)], []),
            ("for", "i", N(0), add(V("n"), N(1)), [("for", "j", N(0), N(2), [
                ("<==", R("r", k, l), sub(mul(S("m", V("j"), V("i")), S("m", sub(N(1), V("j")), V("i"))),
                                                    mul(V("i"), S("m", 0, V("i")))))])])])

    def lib_fun(self):
        f = self.fresh("f")
        g = self.fresh("g")
        r = self.rng
        k1, k2 = r.randrange(2, 9), r.randrange(2, 9)
        # f(a, b): loop with branches;  g(v[3]): over an array
        self.deff(f, ["a", "b"], [
            ("var", "r", [], N(k1)),
            ("for", "i", N(0), N(k2), [
                ("if", B(">", V("a"), V("b")), [("set", "r", [], "=", add(mul(V("r"), V("a")), V("i")))],
                 [("set", "r", [], "+=", add(V("b"), N(1)))])]),
            ("if", B("==", B("&", V("r"), N(1)), N(0)), [("ret", B(">>", V("r"), N(1)))], None),
            ("ret", add(mul(N(3), V("r")), N(1)))])
        self.deff(g, ["v"], [
            ("var", "r", [N(3)], None),
            ("for", "i", N(0), N(3), [("set", "r", [V("i")], "=", add(V("v", V("i")), V("v", sub(N(2), V("i")))))]),
            ("ret", V("r"))])
        t = T(self.fresh("Fun"), 0, [("x", [3], None)], [("y", [3], None), ("z", [], None)], parallel=self.flag())
        self.deft(t, [], [
            ("sig", "input", "x", [N(3)], []), ("sig", "output", "y", [N(3)], []), ("sig", "output", "z", [], []),
            ("<--", R("z"), ("call", f, [S("x", 0), S("x", 1)])),
            ("<--", R("y"), ("call", g, [S("x")])),
            ("===", S("y", 1), add(S("x", 1), S("x", 1))),
            ("===", S("y", 0), S("y", 2))])
        self.fun = (f, g)

    def rex(self, atoms, depth):
        """a random expression over all operators"""
        r = self.rng
        if depth == 0 or r.random() < .15:
            x = r.random()
            if x < .75:
                return r.choice(atoms)
            return N(r.choice([0, 1, 2, 3, 7, 255, (1 << 32) - 1, 1 << 32, 1 << 63, self.p // 2, self.p // 2 + 1, self.p - 1,
                               r.randrange(self.p)]) % self.p)
        x = r.random()
        a = self.rex(atoms, depth - 1)
        if x < .12:
            return ("u", r.choice("-!~"), a)
        if x < .17:
            return B("**", a, N(r.choice([0, 1, 2, 3, 5, 17, 64, 254])) if r.random() < .8 else self.rex(atoms, 0))
        if x < .29:
            k = r.random()
            sh = N(r.choice([0, 1, 2, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 192, 250, 253, 254, 255, 256, 300, self.p - 1, self.p - 3,
                             self.p - 64, self.p // 2, self.p // 2 + 1])) if k < .8 else B("%", self.rex(atoms, 0), N(r.choice([9, 70, 300])))
            return B(r.choice(["<<", ">>"]), a, sh)
        if x < .41:
            d = self.rex(atoms, depth - 1)
            return B(r.choice(["/", "\\", "%"]), a, B("|", d, N(1)) if r.random() < .7 else N(r.choice([2, 3, 10, 1 << 31, 1 << 40, self.p - 2])))
        op = r.choice(["+", "-", "*", "*", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||"])
        return B(op, a, self.rex(atoms, depth - 1))

    def lib_zoo(self):
        """values computed with every operator, in variables, arrays, loops and functions"""
        r = self.rng
        f, h = self.fresh("h"), self.fresh("k")
        at = [V("a"), V("b"), V("t")]
        body = [("var", "t", [], self.rex([V("a"), V("b")], 2)),
                ("var", "m", [N(2), N(2)], None),
                ("for", "i", N(0), N(2), [("for", "j", N(0), N(2), [
                    ("set", "m", [V("i"), V("j")], "=", self.rex(at + [V("i"), V("j")], 2))])])]
        if r.random() < .6:
            body += [("var", "w", [], N(0)),
                     ("while", B("<", V("w"), N(r.choice([1, 3, 5]))), [
                         ("set", "t", [], r.choice(["=", "+=", "-=", "*=", "^=", "|=", "&="]), self.rex(at + [V("w"), V("m", 0, 1)], 2)),
                         ("set", "w", [], "+=", N(1))])]
        if r.random() < .6:
            body.append(("if", self.rex(at, 2), [("set", "t", [], "=", self.rex(at + [V("m", 1, 0)], 2))],
                         [("if", self.rex(at, 1), [("ret", self.rex(at, 2))], None)] if r.random() < .5 else None))
        if r.random() < .2:
            body.append(("log", self.logged([V("t"), V("m", 0, 0), V("a")])))
        body.append(("ret", add(V("t"), V("m", 0, 0), mul(V("m", 0, 1), V("m", 1, 0)), V("m", 1, 1))))
        self.deff(f, ["a", "b"], body)
        self.deff(h, ["n", "x"], [  # recursion with a known bound
            ("if", B("==", V("n"), N(0)), [("ret", V("x"))], None),
            ("ret", add(("call", h, [sub(V("n"), N(1)), self.rex([V("x")], 1)]), V("n")))])
        n = r.choice([3, 5, 8])
        t = T(self.fresh("Zoo"), 0, [("x", [2], None), ("y", [], None)], [("z", [n], None)], parallel=self.flag())
        ats = [S("x", 0), S("x", 1), S("y")]
        st = [("sig", "input", "x", [N(2)], []), ("sig", "input", "y", [], []), ("sig", "output", "z", [N(n)], [])]
        for i in range(n):
            k = r.random()
            if k < .2:
                st.append(("<--", R("z", i), ("call", f, [r.choice(ats), self.rex(ats, 1)])))
            elif k < .3:
                st.append(("<--", R("z", i), ("call", h, [N(r.choice([0, 1, 3])), r.choice(ats)])))
            elif k < .4:
                st.append(("<--", R("z", i), ("t", self.rex(ats, 2), self.rex(ats, 2), self.rex(ats, 1))))
            else:
                st.append(("<--", R("z", i), self.rex(ats, r.choice([1, 1, 2, 3]))))
            ats.append(S("z", i))
        self.deft(t, [], st)

    def lib_tag(self):
        """tags with values: the same template with the same parameters is a different one where its inputs' tags differ"""
        r = self.rng
        n, m = r.choice([2, 2, 3, 4]), r.choice([1, 2, 3])
        same = r.random() < .3
        pr, co = self.fresh("Tg"), self.fresh("Tc")
        sig = lambda k, x, d, t=[]: ("sig", k, x, [N(i) if isinstance(i, int) else i for i in d], t)
        tx = lambda: r.choice([["mb"], ["mb", "za"], ["aa", "mb"]])
        self.prog.templates[pr] = {"params": ["n"], "parallel": self.flag(), "custom": False, "body": [
            sig("input", "a", []), sig("output", "o", [], ["mb", "za", "aa"]), sig("output", "q", [m], ["mb", "za", "aa"]),
            ("settag", "o", "mb", V("n")), ("settag", "q", "mb", add(V("n"), N(r.choice([0, 1, 5])))),
            ("settag", "q", "za", mul(V("n"), V("n"))),
            ("<==", R("o"), add(mul(S("a"), S("a")), V("n")))] + [
            ("<==", R("q", i), add(mul(V("n"), S("a")), N(i))) for i in range(m)]}
        body = [sig("input", "x", [], tx()), sig("input", "y", [m], ["mb", "za"]), sig("output", "r", [])]
        e = add(mul(("tag", "x", "mb"), S("x")), mul(V("k"), S("y", 0)), ("tag", "y", "za"))
        if r.random() < .5:
            body += [sig("", "t", [add(("tag", "x", "mb"), N(1))]), ("<==", R("t", 0), S("x")),
                     ("for", "i", N(0), ("tag", "x", "mb"), [
                         ("<==", R("t", add(V("i"), N(1))), mul(S("t", V("i")), S("y", r.randrange(m))))])]
            e = add(e, S("t", ("tag", "x", "mb")))
        if r.random() < .4:
            body += [("if", B(">", ("tag", "y", "mb"), N(r.choice([1, 2, 3]))), [("<==", R("r"), e)],
                      [("<==", R("r"), sub(S("x"), S("y", m - 1)))])]
        else:
            body.append(("<==", R("r"), e))
        self.prog.templates[co] = {"params": ["k"], "body": body, "parallel": self.flag(), "custom": False}
        self.prog.order += [("t", pr), ("t", co)]
        t = T(self.fresh("Tag"), 0, [("a", [], None)], [("z", [n], None)], parallel=self.flag(), cost=2)
        ks = [1 if same else r.choice([1, 1, 2]) for _ in range(n)]
        body = [sig("input", "a", []), sig("output", "z", [n]), ("comp", "p", [N(n)]), ("comp", "c", [N(n)])]
        par = r.choice(["all", "none", "mixed"]) if self.par else "none"
        isp = lambda: par == "all" or par == "mixed" and r.random() < .5
        for i in range(n):
            body.append(("inst", R("p", i), isp(), pr, [N(2 if same else i % 3 + 1)]))
            body.append(("<==", [(".", "p"), ("[", N(i)), (".", "a")], add(S("a"), N(i))))
        for i in range(n):
            body.append(("inst", R("c", i), isp(), co, [N(ks[i])]))
        at = lambda c, i, f: [(".", c), ("[", i), (".", f)]
        if r.random() < .5:
            body.append(("for", "i", N(0), N(n), [("<==", at("c", V("i"), "x"), ("s", at("p", V("i"), "o"))),
                                                  ("<==", at("c", V("i"), "y"), ("s", at("p", V("i"), "q")))]))
        else:
            for i in r.sample(range(n), n):
                w = [("<==", at("c", N(i), "x"), ("s", at("p", N(i), "o"))), ("<==", at("c", N(i), "y"), ("s", at("p", N(i), "q")))]
                body += w if r.random() < .5 else w[::-1]
        body.append(("for", "i", N(0), N(n), [("<==", R("z", V("i")), ("s", at("c", V("i"), "r")))]))
        self.deft(t, [], body)

    def lib_custom(self):
        r = self.rng
        t = T(self.fresh("Gate"), 1, [("a", [], None), ("b", [2], None)], [("c", [], None)])
        t.parallel = r.random() < self.par / 2
        self.deft(t, ["n"], [
            ("sig", "input", "a", [], []), ("sig", "input", "b", [N(2)], []), ("sig", "output", "c", [], []),
            ("<--", R("c"), add(mul(mul(S("a"), S("b", 0)), S("b", 1)), V("n")))], custom=True)
        if r.random() < .5:  # the C++ program gets this from cpp.external
            self.prog.templates[t.name]["extern"] = True
        self.lib.append(t)
        t.custom = True
        self.prog.features.add("custom")

    # ------------------------------------------------------------------ random composite templates
    def expr_for(self, avail):
        r = self.rng
        x = r.random()
        if x < 0.45:
            return self.lin(avail)
        if x < 0.6:
            return r.choice(avail)
        if x < 0.66:
            return self.cexpr(self.coef())
        if x < 0.9:
            return add(mul(self.lin(avail, 2), self.lin(avail, 2)), self.lin(avail)) if r.random() < .7 else mul(
                r.choice(avail), r.choice(avail))
        return sub(mul(self.cexpr(self.coef()), r.choice(avail)), self.lin(avail))

    def composite(self, level, nst, main=False):
        r = self.rng
        name = self.fresh("Main" if main else "C%d_" % level)
        nin = r.choice([1, 2, 2, 3]) if not main else r.choice([1, 2, 3, 4]) if r.random() < .96 else 0
        ins, outs, body, avail, arrays = [], [], [], [], []
        params = [] if main else ["c"]
        for i in range(nin):
            n = self.fresh("in")
            dims = r.choice([[], [], [2], [3], [2, 2]]) if r.random() < 0.6 else []
            if r.random() < .05:
                dims = r.choice([[0], [0], [2, 0], [0, 2]])
            bus = None
            if self.buses and r.random() < 0.2:
                bus = r.choice(list(self.buses))
                dims = r.choice([[], [], [2]])
            ins.append((n, dims, bus))
            if bus:
                body.append(("bus", "input", bus, [], n, [N(d) for d in dims]))
            else:
                body.append(("sig", "input", n, [N(d) for d in dims], []))
            avail += [S(*l) for l in leaves((n, dims, bus), self.buses)]
            if dims == [0] and not bus:
                arrays.append((n, 0))
        outdecl = len(body)
        if not avail:
            n = self.fresh("k")
            body += [("sig", "", n, [], []), ("<==", R(n), self.cexpr(self.coef()))]
            avail.append(S(n))
        elif main and r.random() < 0.3 and self.profile in ("simp", "mix", "par"):
            # an extra input bound to the others by a linear constraint: inputs are never eliminated
            n = self.fresh("chk")
            ins.append((n, [], None))
            body.append(("sig", "input", n, [], []))
            outdecl += 1
            e = self.lin(avail)
            self.checks.append((n, e))
            body.append(("===", S(n), e))
            avail.append(S(n))
        pending = []  # [(label, output exprs)]

        def settle(limit):
            while len(pending) > limit:
                k = r.randrange(len(pending))
                avail.extend(pending.pop(k))

        subs = [t for t in self.lib] if level > 0 else []
        budget = nst
        while budget > 0:
            budget -= 1
            x = r.random()
            if subs and x < (0.45 if self.par else 0.3):
                self.component(body, avail, pending, subs, arrays)
                if r.random() < 0.5:
                    settle(r.choice([0, 1, 2]))
                continue
            if x < 0.52 and len(avail) >= 3:
                # array of signals filled in a loop from earlier entries
                n = self.fresh("a")
                k = r.choice([2, 3, 4])
                s1, s2 = r.choice(avail), r.choice(avail)
                body.append(("sig", "", n, [N(k)], []))
                if r.random() < .08:
                    arrays.append((n + "h", 0))
                    body.append(("sig", "", n + "h", [N(0)], []))
                body.append(("<==", R(n, 0), s1))
                q = r.random() < 0.5
                body.append(("for", "i", N(1), N(k), [
                    ("<==", R(n, V("i")), add(mul(S(n, sub(V("i"), N(1))), s2 if q else self.cexpr(self.coef())), V("i")))]))
                avail += [S(n, i) for i in range(k)]
                arrays.append((n, k))
                continue
            n = self.fresh("s")
            body.append(("sig", "", n, [], []))
            if len(avail) and r.random() < .05:
                # a signal assigned on some executions only: it is zero on the others
                other = [("<--", R(n), self.lin(avail))] if r.random() < .3 else None
                cond = B(r.choice(["==", "<", ">", "!="]), r.choice(avail), self.lin(avail))
                body.append(("if", cond, [("<--", R(n), add(r.choice(avail), N(r.randrange(1, 9))))], other))
                avail.append(S(n))
                if r.random() < .5:
                    avail.append(S(n))
                continue
            if x < 0.58 and hasattr(self, "fun"):
                f, g = self.fun
                body.append(("<--", R(n), ("call", f, [r.choice(avail), self.lin(avail)])))
            elif x < 0.62:
                # value computed with a variable and a data dependent branch, then weakly constrained
                v = self.fresh("v")
                body.append(("var", v, [], r.choice(avail)))
                body.append(("if", B(">", V(v), self.lin(avail)), [("set", v, [], "=", add(V(v), r.choice(avail)))],
                             [("set", v, [], "-=", N(r.randrange(9)))]))
                body.append(("<--", R(n), V(v)))
            elif x < 0.68:
                k = r.choice([2, 3, 5, self.p - 2])
                e = self.lin(avail)
                body.append(("<--", R(n), B("/", e, N(k))))
                body.append(("===", mul(N(k), S(n)), e))
            elif params and x < 0.74:
                body.append(("<==", R(n), add(mul(V("c"), r.choice(avail)), self.lin(avail))))
            else:
                e = self.expr_for(avail)
                body.append(("<==", R(n), e))
                if r.random() < 0.12:  # redundant restatements, possibly scaled
                    body.append(("===", S(n), e) if r.random() < 0.5 else ("===", mul(N(2), S(n)), add(e, e)) if quad(e) <= 1
                                else ("===", e, S(n)))
                if r.random() < 0.05:
                    body.append(("log", self.logged(avail + [S(n)])))
                elif r.random() < 0.05:
                    body.append(("assert", B("==", S(n), S(n))))
            avail.append(S(n))
        settle(0)
        extra = []
        if main and (self.profile == "big" or self.profile == "simp" and r.random() < 0.4):
            for _ in range(r.choice([1, 1, 2])):
                self.linear_block(body, avail, extra)
        if r.random() < 0.15:
            body.append(("log", [r.choice(avail)]))
        nout = r.choice([1, 1, 2, 3]) if not main else r.choice([1, 2])
        outst = []
        for n, k, arr in extra:
            outs.append((n, [k], None))
            outst.append(("sig", "output", n, [N(k)], []))
            body.append(("<==", R(n), S(arr)))
        for i in range(nout):
            n = self.fresh("o")
            cand = [a for a in arrays]
            if cand and r.random() < 0.3:
                a, k = r.choice(cand)
                outs.append((n, [k], None))
                outst.append(("sig", "output", n, [N(k)], []))
                whole = not k or r.random() < .5
                if whole:
                    body.append(("<==", R(n), S(a)))
                else:  # element by element, in some order
                    el = [("<==", R(n, j), S(a, j) if r.random() < .5 else self.expr_for(avail)) for j in range(k)]
                    r.shuffle(el)
                    body += el
                if r.random() < .15:
                    body.append(("===", S(n), S(n)) if r.random() < .3 else ("===", S(a), S(n)) if whole else ("===", S(a), S(a)))
            else:
                outs.append((n, [], None))
                outst.append(("sig", "output", n, [], []))
                body.append(("<==", R(n), self.expr_for(avail)))
        body[outdecl:outdecl] = outst
        t = T(name, len(params), ins, outs, parallel=self.par > 0 and r.random() < .08 if main else self.flag(), cost=nst)
        self.deft(t, params, body)
        return t

    def linear_block(self, body, avail, extra):
        """many linear constraints in one cluster, some of them reaching outputs, some quadratic ones that collapse"""
        r = self.rng
        big = self.profile == "big"
        n = r.choice([360, 420, 520, 700]) if big else r.choice([5, 12, 30])
        a = self.fresh("ch")
        body.append(("sig", "", a, [N(n)], []))
        body.append(("<==", R(a, 0), r.choice(avail)))
        body.append(("<==", R(a, 1), self.lin(avail)))
        i = V("i")
        c1, c2, k = self.coef(), self.coef(), r.choice([2, 3, 5])
        shape = r.randrange(4)
        prev = S(a, sub(i, N(1)))
        if shape == 0:    # long chain of scaled sums
            e = add(mul(self.cexpr(c1), prev), mul(self.cexpr(c2), S(a, sub(i, N(2)))))
        elif shape == 1:  # tree
            e = add(S(a, B("\\", i, N(k))), mul(self.cexpr(c1), r.choice(avail)))
        elif shape == 2:  # everything hangs on two signals
            e = add(mul(i, S(a, 0)), S(a, 1))
        else:             # equalities with some offsets
            e = prev
        lo = [("<==", R(a, i), e)]
        if shape == 3:
            lo = [("if", B("==", B("%", i, N(k + 4)), N(0)), [("<==", R(a, i), add(prev, mul(i, S(a, 0))))], lo)]
        body.append(("for", "i", N(2), N(n), lo))
        if r.random() < 0.5:  # restated, scaled, so that eliminating them meets conflicts
            body.append(("for", "i", N(2), N(min(n, r.choice([4, 9, 40]))), [
                ("===", mul(N(3), S(a, i)), add(mul(N(3), e), N(0)))] if shape != 3 else [
                ("===", add(S(a, i), S(a, 0)), add(S(a, 0), S(a, i)))]))
        m = min(n, r.choice([2, 3, 5]))
        if r.random() < 0.6:  # the same values as outputs
            b = self.fresh("cp")
            body.append(("sig", "", b, [N(m)], []))
            body.append(("for", "i", N(0), N(m), [("<==", R(b, i), S(a, sub(N(n - 1), i)))]))
            extra.append((self.fresh("oo"), m, b))
            avail.extend(S(b, j) for j in range(m))
        if r.random() < 0.7:  # products of a constant signal: linear after one round
            z = self.fresh("z")
            w = self.fresh("zz")
            body.append(("sig", "", z, [], []))
            body.append(("sig", "", w, [N(m)], []))
            body.append(("<==", R(z), self.cexpr(self.coef())))
            body.append(("for", "i", N(0), N(m), [("<==", R(w, i), mul(S(z) if r.random() < .6 else sub(S(a, i), add(S(a, i), S(z))), S(a, i)))]))
            if r.random() < 0.6:  # and a further round
                body.append(("sig", "", z + "d", [], []))
                body.append(("sig", "", z + "b", [], []))
                body.append(("<==", R(z + "d"), add(sub(S(w, 0), mul(self.cexpr(r.choice([1, 2, self.coef()])), S(a, 0))), N(r.randrange(3)))))
                body.append(("<==", R(z + "b"), mul(S(z + "d"), S(a, n - 1))))
                avail.append(S(z + "b"))
            avail.extend(S(w, j) for j in range(m))
        avail.extend(S(a, r.randrange(n)) for _ in range(3))

    def wire_inputs(self, body, t, args, pre, avail, arrays, loopv=None):
        """assign all inputs of the component at reference steps `pre`; the last assignment starts it"""
        r = self.rng
        st = []
        for sig in t.sigs(t.ins, args):
            n, dims, bus = sig
            whole = None
            if not bus and len(dims) == 1:
                c = [a for a in arrays if a[1] == dims[0]]
                if c and r.random() < 0.5:
                    whole = r.choice(c)[0]
            if whole:
                st.append(("<==", R(*pre, "." + n), S(whole)))
                continue
            if 0 in dims:
                if not bus and r.random() < .8:
                    st.append(("<==", R(*pre, "." + n), self.nothing(body, dims)))
                continue
            for l in leaves(sig, self.buses):
                st.append(("<==", R(*pre, "." + l[0], *l[1:]), self.lin(avail, r.choice([1, 1, 2]))))
        r.shuffle(st)
        body += st

    def nothing(self, body, dims):
        """an array without elements, declared in body"""
        r = self.rng
        n = self.fresh("e")
        body.append(("sig", "", n, [N(d) for d in dims], []) if r.random() < .6 else ("var", n, [N(d) for d in dims], None))
        return S(n) if body[-1][0] == "sig" else V(n)

    def wire_many(self, body, t, comps, avail, arrays):
        """the inputs of several components, one component after the other or mixed"""
        r = self.rng
        parts = []
        for args, pre in comps:
            st = []
            self.wire_inputs(st, t, args, pre, avail, arrays)
            body += [x for x in st if x[0] in ("sig", "var")]
            parts.append([x for x in st if x[0] not in ("sig", "var")])
        if r.random() < .5:
            for st in parts:
                body += st
            return
        parts = [st for st in parts if st]
        while parts:
            st = r.choice(parts)
            body.append(st.pop(0))
            parts = [x for x in parts if x]

    def outs_of(self, t, args, pre):
        return [S(*pre, "." + l[0], *l[1:]) for sig in t.sigs(t.outs, args) for l in leaves(sig, self.buses)]

    def component(self, body, avail, pending, subs, arrays):
        r = self.rng
        t = r.choices(subs, [s.weight for s in subs])[0]
        isc = getattr(t, "custom", False)
        par = r.random() < self.par
        x = r.random()
        args = t.argf(r)
        if x < 0.40 or isc:
            c = self.fresh("x")
            if r.random() < 0.7:
                body.append(("compinst", c, par, t.name, [N(a) for a in args]))
            else:
                body.append(("comp", c, []))
                body.append(("inst", R(c), par, t.name, [N(a) for a in args]))
            self.wire_inputs(body, t, args, [c], avail, arrays)
            self.read_outputs(body, t, args, [c], avail, pending, arrays)
        elif x < 0.62 and len(t.outs) >= 1 and t.ins:
            # anonymous
            lhs = []
            new = []
            newarr = []
            for sig in t.sigs(t.outs, args):
                if sig[2] is None and len(sig[1]) <= 1:
                    n = self.fresh("s")
                    body.append(("sig", "", n, [N(d) for d in sig[1]], []))
                    lhs.append(R(n))
                    new += [S(n, *l[1:]) for l in leaves((n, sig[1], None), self.buses)]
                    if sig[1]:
                        newarr.append((n, sig[1][0]))
                elif len(t.outs) > 1:
                    lhs.append(None)
                else:
                    n = self.fresh("s")
                    if sig[2]:
                        body.append(("bus", "", sig[2], [], n, [N(d) for d in sig[1]]))
                    else:
                        body.append(("sig", "", n, [N(d) for d in sig[1]], []))
                    lhs.append(R(n))
                    new += [S(*l) for l in leaves((n, sig[1], sig[2]), self.buses)]
            ok = True
            es = []
            for n, dims, bus in t.sigs(t.ins, args):
                if not dims and not bus:
                    es.append(self.lin(avail, r.choice([1, 2])))
                elif not bus and len(dims) == 1:
                    c = [a for a in arrays if a[1] == dims[0]]
                    if c and (not dims[0] or r.random() < 0.5):
                        es.append(S(r.choice(c)[0]))
                    elif not dims[0]:
                        ok = False
                    else:
                        es.append(("arr", [r.choice(avail) for _ in range(dims[0])]))
                else:
                    ok = False
            if not ok:
                # undo the declarations by simply leaving them assigned
                c = self.fresh("x")
                del body[len(body) - sum(1 for l in lhs if l is not None):]
                body.append(("compinst", c, par, t.name, [N(a) for a in args]))
                self.wire_inputs(body, t, args, [c], avail, arrays)
                self.read_outputs(body, t, args, [c], avail, pending, arrays)
                return
            body.append(("anon", lhs, par, t.name, [N(a) for a in args], es))
            pending.append(new)
            arrays += newarr
        else:
            # array of components; all the same parameters, or different ones, uniformly parallel or mixed
            if r.random() < .2:
                # of two dimensions
                dims = r.choice([(2, 2), (2, 3), (3, 2), (1, 3), (4, 1)])
                pos = [(i, j) for i in range(dims[0]) for j in range(dims[1])]
                c = self.fresh("yy")
                body.append(("comp", c, [N(d) for d in dims]))
                parmode = r.choice(["all", "none", "mixed"]) if self.par else "none"
                argl = {q: list(args) for q in pos}
                if t.nparams and r.random() < .4:
                    spread = getattr(t, "spread", lambda a, i: 1 + (a + i) % 4)
                    argl = {(i, j): [spread(a, i + 2 * j) for a in args] for i, j in pos}
                order = list(pos)
                if r.random() < .5:
                    r.shuffle(order)
                for q in order:
                    p = parmode == "all" or (parmode == "mixed" and r.random() < 0.5)
                    body.append(("inst", R(c, *q), p, t.name, [N(a) for a in argl[q]]))
                if r.random() < .5:
                    r.shuffle(order)
                self.wire_many(body, t, [(argl[q], [c, *q]) for q in order], avail, arrays)
                scal = [(n, d, bus) for n, d, bus in t.sigs(t.outs, args) if not d and not bus]
                if scal and not t.dims_by_arg and r.random() < .6:
                    m = self.fresh("mm")
                    n = r.choice(scal)[0]
                    body.append(("sig", "", m, [N(d) for d in dims], []))
                    body.append(("for", "i", N(0), N(dims[0]), [("for", "j", N(0), N(dims[1]), [
                        ("<==", R(m, V("i"), V("j")), add(S(c, V("i"), V("j"), "." + n), mul(V("i"), V("j"))))])]))
                    avail.extend(S(m, *q) for q in pos)
                for q in pos:
                    if r.random() < .6:
                        pending.append(self.outs_of(t, argl[q], [c, *q]))
                return
            k = r.choice([2, 2, 3, 4] + ([6, 9] if self.profile == "par" and t.cost < 6 else []))
            c = self.fresh("y")
            body.append(("comp", c, [N(k)]))
            mode = r.choice(["same", "same", "diff"]) if t.nparams else "same"
            parmode = r.choice(["all", "none", "mixed"]) if self.par else "none"
            argl = [list(args) for _ in range(k)]
            if mode == "diff":
                spread = getattr(t, "spread", lambda a, i: 1 + (a + i) % 4)
                argl = [[spread(a, i) for a in args] for i in range(k)]
            if mode == "same" and r.random() < 0.6:
                # written as a loop
                inst = ("inst", R(c, V("i")), parmode == "all", t.name, [N(a) for a in args])
                if parmode == "mixed":
                    inst = ("if", B("==", B("%", V("i"), N(2)), N(r.randrange(2))),
                            [("inst", R(c, V("i")), True, t.name, [N(a) for a in args])],
                            [("inst", R(c, V("i")), False, t.name, [N(a) for a in args])])
                lb = []
                for sig in t.sigs(t.ins, args):
                    if 0 in sig[1] and not sig[2] and r.random() < .8:
                        lb.append(("<==", R(c, V("i"), "." + sig[0]), self.nothing(body, sig[1])))
                    for l in leaves(sig, self.buses):
                        lb.append(("<==", R(c, V("i"), "." + l[0], *l[1:]), add(self.lin(avail, 1), V("i"))))
                r.shuffle(lb)
                if r.random() < .3:  # created in one loop, last first, and wired in others
                    down = lambda x: rename_var(x, "i", B("-", N(k - 1), V("i")))
                    body.append(("for", "i", N(0), N(k), [down(inst) if r.random() < .6 else inst]))
                    cut = r.randrange(len(lb) + 1)
                    for part in (lb[:cut], lb[cut:]):
                        if part:
                            body.append(("for", "i", N(0), N(k), part))
                else:
                    body.append(("for", "i", N(0), N(k), [inst] + lb))
            elif mode == "diff" and r.random() < 0.6 and t.nparams == 1 and not t.dims_by_arg:
                pflag = lambda f: ("inst", R(c, V("i")), f, t.name, [add(V("i"), N(1))])
                inst = pflag(parmode == "all")
                if parmode == "mixed":
                    inst = ("if", B("==", B("%", V("i"), N(2)), N(r.randrange(2))), [pflag(True)], [pflag(False)])
                argl = [[i + 1] for i in range(k)]
                lb = [inst]
                for sig in t.sigs(t.ins, args):
                    for l in leaves(sig, self.buses):
                        lb.append(("<==", R(c, V("i"), "." + l[0], *l[1:]), add(self.lin(avail, 1), V("i"))))
                body.append(("for", "i", N(0), N(k), lb))
            else:
                order = list(range(k))
                if r.random() < .5:
                    r.shuffle(order)
                for i in order:
                    par = parmode == "all" or (parmode == "mixed" and r.random() < 0.5)
                    body.append(("inst", R(c, i), par, t.name, [N(a) for a in argl[i]]))
                if r.random() < .5:
                    r.shuffle(order)
                self.wire_many(body, t, [(argl[i], [c, i]) for i in order], avail, arrays)
            same = [(i, o) for i in t.ins for o in t.outs if i[1] and i[1:] == o[1:]]
            if same and r.random() < .35:
                self.chained(body, t, c, k, argl, same, avail, pending)
            scal = [(n, dims, bus) for n, dims, bus in t.sigs(t.outs, args) if not dims and not bus]
            if scal and r.random() < 0.6 and not (mode == "diff" and t.dims_by_arg):
                acc = self.fresh("acc")
                n = r.choice(scal)[0]
                body.append(("sig", "", acc, [N(k + 1)], []))
                body.append(("<==", R(acc, 0), r.choice(avail)))
                q = r.random() < 0.3
                body.append(("for", "i", N(0), N(k), [("<==", R(acc, add(V("i"), N(1))), add(
                    mul(S(acc, V("i")), S(c, V("i"), "." + n)) if q else S(acc, V("i")), S(c, V("i"), "." + n)))]))
                avail.extend(S(acc, i) for i in range(k + 1))
                arrays.append((acc, k + 1))
            for i in range(k):
                if r.random() < 0.6:
                    pending.append(self.outs_of(t, argl[i], [c, i]))

    def chained(self, body, t, c, k, argl, same, avail, pending):
        """a second array of the same components that takes arrays, of different sizes perhaps, from the first in a loop"""
        r = self.rng
        c2 = self.fresh("y")
        par = r.choice(["all", "none", "mixed"]) if self.par else "none"
        body.append(("comp", c2, [N(k)]))
        src, dst = V("i"), V("i")
        if r.random() < .4:  # the other way round
            src = B("-", N(k - 1), V("i"))
            argl = argl[::-1]
        elif r.random() < .3:
            src = dst = B("-", N(k - 1), V("i"))
        for i in range(k):
            body.append(("inst", R(c2, i), par == "all" or par == "mixed" and r.random() < .5, t.name, [N(a) for a in argl[i]]))
        used = {i[0]: o[0] for i, o in r.sample(same, len(same))}
        loop = [("<==", R(c2, dst, "." + i), S(c, src, "." + o)) for i, o in used.items()]
        rest = []
        for j in range(k):
            for sig in t.sigs(t.ins, argl[j]):
                if sig[0] not in used:
                    for l in leaves(sig, self.buses):
                        rest.append(("<==", R(c2, j, "." + l[0], *l[1:]), self.lin(avail, 1)))
        r.shuffle(rest)
        cut = r.randrange(len(rest) + 1)
        body += rest[:cut] + [("for", "i", N(0), N(k), loop)] + rest[cut:]
        if r.random() < .5:
            i, o = r.choice(list(used.items()))
            body.append(("for", "i", N(0), N(k), [("===", S(c2, dst, "." + i), S(c, src, "." + o)) if r.random() < .5 else
                                                  ("===", S(c, src, "." + o), S(c2, dst, "." + i))]))
        fit = [o for i, o in same if len(o[1]) == 1 and not o[2] and t.dims_by_arg]
        if fit and r.random() < .6:  # read into arrays of one size each
            o = r.choice(fit)[0]
            for j in range(k):
                m = self.fresh("w")
                d = dict((x[0], x[1]) for x in t.sigs(t.outs, argl[j]))[o]
                body.append(("sig", "", m, [N(d[0])], []))
                st = [("<==", R(m), S(c2, V("i"), "." + o))]
                if r.random() < .4:
                    st.append(("===", S(c2, V("i"), "." + o), S(m)) if r.random() < .5 else ("===", S(m), S(c2, V("i"), "." + o)))
                body.append(("for", "i", N(0), N(k), [("if", B("==", V("i"), N(j)), st, [])]))
                avail.extend(S(m, i) for i in range(d[0]))
        for j in range(k):
            pending.append(self.outs_of(t, argl[j], [c2, j]))

    def read_outputs(self, body, t, args, pre, avail, pending, arrays):
        r = self.rng
        for sig in t.sigs(t.outs, args):
            n, dims, bus = sig
            if (dims or bus) and r.random() < 0.5:
                # take the whole array or bus at once
                m = self.fresh("w")
                if bus:
                    body.append(("bus", "", bus, [], m, [N(d) for d in dims]))
                else:
                    body.append(("sig", "", m, [N(d) for d in dims], []))
                body.append(("<==", R(m), S(*pre, "." + n)))
                if not bus and r.random() < .25:
                    e = (S(m), S(*pre, "." + n))
                    body.append(("===",) + (e if r.random() < .5 else e[::-1]))
                avail.extend(S(*l) for l in leaves((m, dims, bus), self.buses))
                if len(dims) == 1 and not bus:
                    arrays.append((m, dims[0]))
            else:
                ls = [S(*pre, "." + l[0], *l[1:]) for l in leaves(sig, self.buses)]
                if ls and hasattr(self, "fun") and r.random() < 0.15:
                    m = self.fresh("s")
                    body.append(("sig", "", m, [], []))
                    body.append(("<--", R(m), ("call", self.fun[0], [r.choice(ls), r.choice(avail)])))
                    avail.append(S(m))
                if hasattr(self, "fun") and dims == [3] and not bus and r.random() < 0.5:
                    m = self.fresh("w")
                    body.append(("sig", "", m, [N(3)], []))
                    body.append(("<--", R(m), ("call", self.fun[1], [S(*pre, "." + n)])))
                    avail.extend(S(m, i) for i in range(3))
                pending.append(ls)

    # ------------------------------------------------------------------ whole programs
    def program(self):
        r = self.rng
        libs = [self.lib_iszero, self.lib_pow, self.lib_sum, self.lib_bits, self.lib_noinput, self.lib_nooutput,
                self.lib_bus, self.lib_matrix, self.lib_fun, self.lib_zoo, self.lib_hollow, self.lib_tag]
        r.shuffle(libs)
        for f in libs[:r.choice([2, 3, 4, 5])]:
            f()
        if r.random() < {"simp": .15, "mix": .2, "par": .1}.get(self.profile, 0) or self.profile == "custom":
            self.lib_custom()
        depth = r.choice([0, 1, 1, 2, 2]) if self.size < 3 else r.choice([1, 2, 3])
        for lv in range(depth):
            for _ in range(r.choice([1, 1, 2])):
                n = r.choice([2, 3, 4, 6]) if lv else r.choice([2, 4, 8])
                if self.profile == "simp":
                    n *= self.size
                self.composite(lv if lv else (1 if r.random() < .5 else 0), n)
        nst = r.choice([3, 5, 8]) * self.size
        if self.profile == "simp":
            nst = r.choice([8, 15, 30]) * self.size
        m = self.composite(depth + 1, nst, main=True)
        ins = [n for n, _, _ in m.ins]
        pub = [n for n in ins if r.random() < 0.4]
        self.prog.main = (m.name, [], pub)
        return self.prog

    def inputs(self, rng, special=None):
        """a random valid input assignment {leaf: value}"""
        it = Interp(self.prog)
        lv = it.main_inputs()
        chk = dict(self.checks)
        vals = {}
        for l in lv:
            x = rng.random()
            if x < 0.4:
                v = rng.randrange(10)
            elif x < 0.5:
                v = self.p - rng.randrange(1, 10)
            elif x < 0.6:
                v = rng.choice([self.p // 2, self.p // 2 + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 63, 0]) % self.p
            else:
                v = rng.randrange(self.p)
            vals[l] = v
        for n, e in self.checks:
            m = it.instantiate(self.prog.main[0], [])
            m.sig.update(vals)
            vals[n] = it.ev(e, {}, m)
        return vals


def quad(e):
    """crude degree of an expression in signals"""
    k = e[0]
    if k == "s":
        return 1
    if k == "b":
        a, b = quad(e[2]), quad(e[3])
        return a + b if e[1] == "*" else max(a, b)
    if k == "u":
        return quad(e[2])
    return 0


def nest_inputs(vals, prog=None):
    """{'a[0][1]': v, 'b.x': v} -> JSON-able structure; numbers written in the different ways there are.
    With the program, also its inputs without elements, some of them"""
    import re
    import zlib
    root = {}

    big = {}
    for k, v in vals.items():
        k = re.match(r"\w+", k).group(0)
        big[k] = max(big.get(k, 0), v)

    def show(k, v):
        m = re.match(r"\w+", k).group(0)
        if big[m] < 1 << 53 and zlib.crc32(("%s<%d" % (m, big[m])).encode()) % 4 == 0:
            return v  # all of one array alike
        x = 4 + zlib.crc32(("%s=%d" % (k, v)).encode()) % 24
        if prog and x > 23:  # any number stands for its residue
            if x < 26 and prog.p - v < 1 << 53 and "[" not in k:
                return v - prog.p
            return ("%d" if x < 27 else "0x%x") % (v + prog.p * (1 + (v % 5) * (v % 7) * (1 << v % 61)))
        return {4: "0x%x", 5: "0X%X", 6: "0o%o"}.get(x, "%d") % v if x != 7 else "0b" + bin(v)[2:]

    def put(cur, toks, v):
        key = toks[0]
        if len(toks) == 1:
            if isinstance(key, int):
                while len(cur) <= key:
                    cur.append(None)
                cur[key] = v
            else:
                cur[key] = v
            return
        nxt = [] if isinstance(toks[1], int) else {}
        if isinstance(key, int):
            while len(cur) <= key:
                cur.append(None)
            if cur[key] is None:
                cur[key] = nxt
            put(cur[key], toks[1:], v)
        else:
            put(cur.setdefault(key, nxt), toks[1:], v)

    for k, v in vals.items():
        toks = [int(a) if a else b for a, b in re.findall(r"\[(\d+)\]|([A-Za-z_]\w*)", k)]
        put(root, toks, show(k, v))
    if prog is not None:
        for n, dims in prog.hollow_inputs():
            x = zlib.crc32(("%s=%d" % (n, len(vals))).encode()) % 4
            if x:
                root[n] = hollow(dims)
                if x == 1:  # at the front
                    root = {n: root.pop(n), **root}
    return root


def hollow(dims):
    return [hollow(dims[1:]) for _ in range(dims[0])] if dims else []
