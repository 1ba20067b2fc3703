"""Fingerprints of expressions over a prime field.

Two ASTs with the same fingerprint denote (up to a 2**-60 chance) the same
rational expression; shifts, dates and logarithms are opaque functions of the
fingerprint of what they apply to. None when the value is a division by zero.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction

P = (1 << 61) - 1


class Zero(Exception):
    pass


def h(*what) -> int:
    return int.from_bytes(hashlib.blake2b(repr(what).encode("utf8", "surrogatepass"), digest_size=8).digest(), "big") % P


def inv(x):
    if x % P == 0:
        raise Zero
    return pow(x, P - 2, P)


def num(q):
    if isinstance(q, Fraction):
        return q.numerator * inv(q.denominator) % P
    _, sign, digits, exp = q
    v = int(digits) % P
    ten = pow(10, abs(exp), P)
    v = v * (ten if exp >= 0 else inv(ten)) % P
    return -v % P if sign else v


def value(ast) -> int:
    k = ast[0]
    if k == "empty":
        return 1
    if k == "num":
        return num(ast[1])
    if k == "id":
        return h("id", ast[1])
    if k == "mul":
        return value(ast[1]) * value(ast[2]) % P
    if k == "div":
        return value(ast[1]) * inv(value(ast[2])) % P
    if k == "pow":
        n = ast[2]
        if not isinstance(n, int):
            return h("oddpow", value(ast[1]), repr(n))
        b = value(ast[1])
        return pow(b, n, P) if n >= 0 else pow(inv(b), -n, P)
    if k == "shift":
        return h("shift", value(ast[1]), num(ast[2]))
    if k == "date":
        return h("date", value(ast[1]), ast[2])
    if k == "log":
        return h("log", "lg" if ast[1] == "log" else ast[1], value(ast[2]))
    return h("odd", repr(ast))


def fingerprint(ast):
    try:
        return value(ast)
    except Zero:
        return None
