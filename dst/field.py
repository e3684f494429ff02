"""Prime fields of the circom language and the reference semantics of its operators."""
PRIMES = {
    "bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bls12377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
    "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "goldilocks": 18446744069414584321,
    "grumpkin": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    "secq256r1": 115792089210356248762697446949407573530086143415290314195533631308867097853951,
    "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
}


class Undefined(Exception):
    """The operation has no defined result (division by zero)."""


def sgn(x, p):
    return x if x <= p // 2 else x - p


def binop(op, a, b, p):
    if op == "+":
        return (a + b) % p
    if op == "-":
        return (a - b) % p
    if op == "*":
        return a * b % p
    if op == "/":
        if b == 0:
            raise Undefined()
        return a * pow(b, p - 2, p) % p
    if op == "\\":
        if b == 0:
            raise Undefined()
        return a // b
    if op == "%":
        if b == 0:
            raise Undefined()
        return a % b
    if op == "**":
        return pow(a, b, p)
    m = (1 << p.bit_length()) - 1
    if op == "&":
        return (a & b) % p
    if op == "|":
        return (a | b) % p
    if op == "^":
        return (a ^ b) % p
    if op == "<<":
        if b <= p // 2:
            return ((a << b) & m) % p if b < p.bit_length() else 0
        return binop(">>", a, p - b, p)
    if op == ">>":
        if b <= p // 2:
            return a >> b if b < p.bit_length() else 0
        return binop("<<", a, p - b, p)
    if op in ("<", ">", "<=", ">="):
        x, y = sgn(a, p), sgn(b, p)
        return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
    if op == "==":
        return int(a == b)
    if op == "!=":
        return int(a != b)
    if op == "&&":
        return int(a != 0 and b != 0)
    if op == "||":
        return int(a != 0 or b != 0)
    raise ValueError(op)


def unop(op, a, p):
    if op == "-":
        return (-a) % p
    if op == "!":
        return int(a == 0)
    if op == "~":
        return (a ^ ((1 << p.bit_length()) - 1)) % p
    raise ValueError(op)
