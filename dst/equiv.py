"""Exact equivalence of two rank-1 constraint systems over the same signals, by linear algebra over the field.

For a system, L is the closure of its linear consequences: start with the linear constraints, reduce the factors of the
quadratic ones modulo L, add those that have become linear, repeat. Q is the set of the remaining quadratic polynomials
modulo L. Both are canonical (independent of order and of pivot choice up to span), so two systems are judged equivalent
exactly when their L have the same span and their Q have the same span modulo L.
Linear forms are dicts label -> coefficient; label 0 is the constant one.
"""


class Linear:
    """a set of linear forms, kept reduced; each pivot occurs in its own row only"""
    def __init__(self, p):
        self.p = p
        self.rows = {}  # pivot -> form of the pivot in the other signals
        self.uses = {}  # signal -> pivots whose row mentions it
        self.false = False

    def reduce(self, f):
        p = self.p
        out = {}
        for k, v in f.items():
            r = self.rows.get(k)
            if r is None:
                out[k] = out.get(k, 0) + v
            else:
                for k2, v2 in r.items():
                    out[k2] = out.get(k2, 0) + v * v2
        return {k: v % p for k, v in out.items() if v % p}

    def add(self, f):
        """add f = 0; True if it was new"""
        f = self.reduce(f)
        if not f:
            return False
        if list(f) == [0]:
            new = not self.false
            self.false = True
            return new
        p = self.p
        piv = max(f)
        c = f.pop(piv)
        inv = pow(p - c, -1, p)
        row = {k: v * inv % p for k, v in f.items()}
        for q in list(self.uses.get(piv, ())):
            old = self.rows[q]
            v = old.pop(piv)
            for k2, v2 in row.items():
                nv = (old.get(k2, 0) + v * v2) % p
                if nv:
                    if k2 not in old:
                        self.uses.setdefault(k2, set()).add(q)
                    old[k2] = nv
                elif k2 in old:
                    del old[k2]
                    self.uses[k2].discard(q)
        self.uses.pop(piv, None)
        self.rows[piv] = row
        for k in row:
            self.uses.setdefault(k, set()).add(piv)
        return True

    def forms(self):
        for k, r in self.rows.items():
            f = dict(r)
            f[k] = self.p - 1
            yield f
        if self.false:
            yield {0: 1}


def expand(a, b, c, p):
    """a*b - c as {(i, j): coefficient}, i <= j, (0, x) for linear terms"""
    out = {}
    for i, x in a.items():
        for j, y in b.items():
            k = (i, j) if i <= j else (j, i)
            out[k] = (out.get(k, 0) + x * y) % p
    for j, y in c.items():
        k = (0, j)
        out[k] = (out.get(k, 0) - y) % p
    return {k: v for k, v in out.items() if v}


def is_linear(q):
    return all(k[0] == 0 for k in q)


def closure(cons, p, extra=()):
    L = Linear(p)
    for f in extra:
        L.add(f)
    work = []
    for a, b, c in cons:
        q = None
        if not a or not b:
            L.add({k: -v for k, v in c.items()})
        else:
            work.append((a, b, c))
    while True:
        again, rest = False, []
        for a, b, c in work:
            q = expand(L.reduce(a), L.reduce(b), L.reduce(c), p)
            if is_linear(q):
                again |= L.add({k[1]: v for k, v in q.items()})
            else:
                rest.append((a, b, c))
        work = rest
        if not again:
            break
    Q = []
    for a, b, c in work:
        Q.append((a, b, c))
    return L, Q


def normal(q, p):
    k = max(q)
    inv = pow(q[k], -1, p)
    return tuple(sorted((m, v * inv % p) for m, v in q.items()))


class Span:
    """span of sparse vectors"""
    def __init__(self, p):
        self.p = p
        self.rows = {}

    def reduce(self, q):
        p = self.p
        q = dict(q)
        while q:
            k = max(q)
            hit = None
            for m in sorted(q, reverse=True):
                if m in self.rows:
                    hit = m
                    break
            if hit is None:
                return q
            v = q[hit]
            for m, w in self.rows[hit].items():
                nv = (q.get(m, 0) - v * w) % p
                if nv:
                    q[m] = nv
                else:
                    q.pop(m, None)
        return q

    def add(self, q):
        q = self.reduce(q)
        if q:
            k = max(q)
            inv = pow(q[k], -1, self.p)
            self.rows[k] = {m: v * inv % self.p for m, v in q.items()}


def compare(cons0, cons1, subs1, p):
    """None if (cons1 plus the substitutions) is equivalent to cons0, otherwise a description"""
    extra = []
    for s, e in subs1.items():
        f = dict(e)
        f[s] = f.get(s, 0) - 1
        extra.append(f)
    L0, Q0 = closure(cons0, p)
    L1, Q1 = closure(cons1, p, extra)
    for s, f in zip(subs1, extra):
        r = L0.reduce(f)
        if r and not L0.false:
            return "substitution of signal %d does not follow from the unsimplified constraints (residue %s)" % (s, show(r))
    for f in L1.forms():
        r = L0.reduce(f)
        if r and not L0.false:
            return "stronger: the simplified system implies the linear relation %s, the original does not" % show(r)
    for f in L0.forms():
        r = L1.reduce(f)
        if r and not L1.false:
            return "weaker: the original implies the linear relation %s, the simplified system does not" % show(r)
    if L0.false:
        return None
    P0 = [expand(L0.reduce(a), L0.reduce(b), L0.reduce(c), p) for a, b, c in Q0]
    P1 = [expand(L0.reduce(a), L0.reduce(b), L0.reduce(c), p) for a, b, c in Q1]
    N0, N1 = {normal(q, p) for q in P0 if q}, {normal(q, p) for q in P1 if q}
    only0, only1 = N0 - N1, N1 - N0
    if only0 or only1:
        S = Span(p)
        for q in sorted(N1):
            S.add(dict(q))
        for q in sorted(only0):
            if S.reduce(dict(q)):
                return "weaker: a quadratic constraint is lost: %s" % show_q(q)
        S = Span(p)
        for q in sorted(N0):
            S.add(dict(q))
        for q in sorted(only1):
            if S.reduce(dict(q)):
                return "stronger: a quadratic constraint was added: %s" % show_q(q)
    return None


def show(f):
    return " + ".join("%d*s%d" % (v, k) if k else str(v) for k, v in sorted(f.items())[:6]) + " = 0"


def show_q(q):
    return " + ".join("%d*s%d*s%d" % (v, k[0], k[1]) for k, v in list(q)[:6]) + " = 0"
