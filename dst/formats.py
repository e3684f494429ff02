"""Independent readers of the files circom writes."""
import json
import struct
from .field import PRIMES


class Bad(Exception):
    """The file violates its format."""


def need(c, msg):
    if not c:
        raise Bad(msg)


class R1cs:
    pass


def read_r1cs(b):
    """strict: every byte belongs to exactly one section, sizes are exact, ids and counts consistent"""
    need(b[:4] == b"r1cs", "magic")
    need(len(b) >= 12, "short header")
    ver, nsec = struct.unpack_from("<II", b, 4)
    need(ver == 1, "version %d" % ver)
    pos, secs = 12, {}
    for _ in range(nsec):
        need(pos + 12 <= len(b), "section header beyond the end")
        ty, size = struct.unpack_from("<IQ", b, pos)
        pos += 12
        need(pos + size <= len(b), "section %d beyond the end" % ty)
        need(ty not in secs, "section %d twice" % ty)
        secs[ty] = (pos, size)
        pos += size
    need(pos == len(b), "%d trailing bytes" % (len(b) - pos))
    for t in (1, 2, 3):
        need(t in secs, "section %d missing" % t)
    r = R1cs()
    p, size = secs[1]
    (fs,) = struct.unpack_from("<I", b, p)
    need(size == 4 + fs + 28, "header section size")
    need(fs % 8 == 0 and fs > 0, "field size")
    r.n8 = fs
    r.prime = int.from_bytes(b[p + 4:p + 4 + fs], "little")
    r.nwires, r.npubout, r.npubin, r.nprvin, r.nlabels, r.ncons = struct.unpack_from("<IIIIQI", b, p + 4 + fs)
    p, size = secs[2]
    end = p + size
    r.cons = []
    for _ in range(r.ncons):
        lc3 = []
        for _ in range(3):
            need(p + 4 <= end, "constraint beyond its section")
            (n,) = struct.unpack_from("<I", b, p)
            p += 4
            need(p + n * (4 + fs) <= end, "constraint beyond its section")
            lc = {}
            for _ in range(n):
                (w,) = struct.unpack_from("<I", b, p)
                c = int.from_bytes(b[p + 4:p + 4 + fs], "little")
                p += 4 + fs
                need(w < r.nwires, "wire %d out of range" % w)
                need(c < r.prime, "coefficient not reduced")
                need(w not in lc, "wire twice in a combination")
                lc[w] = c
            lc3.append(lc)
        r.cons.append(tuple(lc3))
    need(p == end, "constraint section has unused bytes")
    p, size = secs[3]
    need(size == 8 * r.nwires, "wire map size")
    r.map = list(struct.unpack_from("<%dQ" % r.nwires, b, p))
    need(len(set(r.map)) == len(r.map), "wire map not injective")
    need(not r.map or r.map[0] == 0, "wire 0 is not label 0")
    r.gates_used = r.gates_app = None
    if 4 in secs:
        need(5 in secs, "gate application section missing")
        p, size = secs[4]
        end = p + size
        (n,) = struct.unpack_from("<I", b, p)
        p += 4
        r.gates_used = []
        for _ in range(n):
            e = b.index(b"\0", p)
            name = b[p:e].decode()
            p = e + 1
            (k,) = struct.unpack_from("<I", b, p)
            p += 4
            ps = []
            for _ in range(k):
                need(p + fs <= end, "gate list beyond its section")
                ps.append(int.from_bytes(b[p:p + fs], "little"))
                p += fs
            r.gates_used.append((name, tuple(ps)))
        need(p == end, "gate list has unused bytes")
        p, size = secs[5]
        end = p + size
        (n,) = struct.unpack_from("<I", b, p)
        p += 4
        r.gates_app = []
        for _ in range(n):
            g, k = struct.unpack_from("<II", b, p)
            p += 8
            need(p + 8 * k <= end, "gate application beyond its section")
            r.gates_app.append((g, list(struct.unpack_from("<%dQ" % k, b, p))))
            p += 8 * k
            need(g < len(r.gates_used), "gate index")
        need(p == end, "gate applications have unused bytes")
    need(set(secs) <= {1, 2, 3, 4, 5}, "unknown section")
    return r


def read_sym(b):
    """[(label, wire or -1, component, name)]"""
    out = []
    t = b.decode()
    need(t == "" or t.endswith("\n"), "symbol table does not end in a newline")
    for i, l in enumerate(t.split("\n")[:-1]):
        f = l.split(",")
        need(len(f) == 4, "symbol line %d" % i)
        out.append((int(f[0]), int(f[1]), int(f[2]), f[3]))
    return out


def read_json_constraints(b, p):
    d = json.loads(b)
    need(list(d) == ["constraints"], "keys of the constraint listing")
    out = []
    for c in d["constraints"]:
        need(len(c) == 3, "constraint arity")
        out.append(tuple({int(k): int(v) for k, v in lc.items()} for lc in c))
    for c in out:
        for lc in c:
            for v in lc.values():
                need(0 <= v < p, "coefficient not reduced")
    return out


def no_dups(pairs):
    d = {}
    for k, v in pairs:
        need(k not in d, "key %s twice in one object" % k)
        d[k] = v
    return d


def read_subst(b):
    d = json.loads(b, object_pairs_hook=no_dups)
    return {int(k): {int(a): int(v) for a, v in lc.items()} for k, lc in d.items()}


def read_wtns(b):
    need(b[:4] == b"wtns", "magic")
    ver, nsec = struct.unpack_from("<II", b, 4)
    need(ver == 2 and nsec == 2, "version or sections")
    pos = 12
    ty, size = struct.unpack_from("<IQ", b, pos)
    need(ty == 1, "first section")
    pos += 12
    (n8,) = struct.unpack_from("<I", b, pos)
    need(size == 8 + n8, "header size")
    prime = int.from_bytes(b[pos + 4:pos + 4 + n8], "little")
    (n,) = struct.unpack_from("<I", b, pos + 4 + n8)
    pos += size
    ty, size = struct.unpack_from("<IQ", b, pos)
    need(ty == 2, "second section")
    pos += 12
    need(size == n8 * n and pos + size == len(b), "witness section size")
    w = [int.from_bytes(b[pos + i * n8:pos + (i + 1) * n8], "little") for i in range(n)]
    for x in w:
        need(x < prime, "witness value not reduced")
    return prime, w


def lc_eval(lc, w, p):
    return sum(c * w[k] for k, c in lc.items()) % p


def unsatisfied(cons, w, p):
    for i, (a, b, c) in enumerate(cons):
        if (lc_eval(a, w, p) * lc_eval(b, w, p) - lc_eval(c, w, p)) % p:
            return i
    return None


def wtns(p, values):
    """the witness file of these values, as 32-bit rounded up to 64-bit words per element"""
    n8 = (p.bit_length() + 63) // 64 * 8
    body = b"".join(x.to_bytes(n8, "little") for x in values)
    return (b"wtns" + struct.pack("<II", 2, 2) + struct.pack("<IQ", 1, 8 + n8) + struct.pack("<I", n8) + p.to_bytes(n8, "little") +
            struct.pack("<I", len(values)) + struct.pack("<IQ", 2, n8 * len(values)) + body)
