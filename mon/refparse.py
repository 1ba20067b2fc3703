"""Reference reading of unit text, independent of pyudunits2's parser.

The grammar is a frozen copy (mon/ref) of the one pyudunits2 publishes,
interpreted by mon.g4; the meaning given to each parse tree is written here.

AST: ("num", Fraction) ("id", name) ("mul", a, b) ("div", a, b) ("pow", a, n)
     ("shift", u, Fraction) ("date", u, text) ("log", fn, u) ("empty",)
"""
from __future__ import annotations

import functools
import pathlib
import unicodedata
from decimal import Decimal
from fractions import Fraction

from . import g4

HERE = pathlib.Path(__file__).parent / "ref"


class Rejected(Exception):
    pass


@functools.lru_cache(None)
def machinery():
    return g4.load(
        (HERE / "udunits2Lexer.g4.jinja").read_text(), (HERE / "udunits2Parser.g4").read_text()
    )


def parse_tree(text: str):
    _, lexer, parser = machinery()
    return parser.parse(lexer.tokens(text.strip()))


def parse(text: str):
    tree = parse_tree(text)
    if tree is None:
        raise Rejected(text)
    return build(tree)


@functools.lru_cache(200_000)
def parse_cached(text: str):
    return parse(text)


def text_of(tree) -> str:
    if isinstance(tree[1], str):
        return tree[1]
    return "".join(text_of(c) for c in tree[1])


def number(value):
    """An exact, comparable number; a Fraction unless its magnitude is absurd."""
    d = value if isinstance(value, Decimal) else Decimal(value)
    if d and not -400 < d.adjusted() < 400:
        sign, digits, exp = d.as_tuple()
        text = "".join(map(str, digits)).lstrip("0")
        short = text.rstrip("0")
        return ("huge", sign, short, exp + len(text) - len(short))
    return Fraction(d)


_SUPER = {c: str(unicodedata.digit(c)) for c in "⁰¹²³⁴⁵⁶⁷⁸⁹"} | {"⁻": "-", "⁺": "+"}


def build(tree):
    kind, kids = tree
    if kind == "unit_spec":
        kids = [k for k in kids if k[0] != "EOF"]
        return build(kids[0]) if kids else ("empty",)
    if kind == "shift_spec":
        parts = [k for k in kids if k[0] not in ("WS", "SHIFT_OP")]
        unit = build(parts[0])
        if len(parts) == 1:
            return unit
        if parts[1][0] == "number":
            return ("shift", unit, build(parts[1])[1])
        return ("date", unit, text_of(parts[1]))
    if kind == "product":
        if len(kids) == 1:
            return build(kids[0])
        op = "div" if any(k[0] == "DIVIDE" for k in kids) else "mul"
        return (op, build(kids[0]), build(kids[-1]))
    if kind == "power":
        if len(kids) == 1:
            return build(kids[0])
        last = kids[-1]
        if last[0] == "UNICODE_EXPONENT":
            digits = "".join(_SUPER[c] for c in last[1])
            body = digits[1:] if digits[:1] in "+-" else digits
            if not body or not body.isdigit():
                raise Rejected("malformed superscript")
            n = int(digits)
        else:
            n = int(text_of(last))
        return ("pow", build(kids[0]), n)
    if kind == "logarithm":
        if len(kids) == 1:
            return build(kids[0])
        return ("log", kids[0][1].split("(")[0].strip(" "), build(kids[1]))
    if kind == "basic_spec":
        k = [k for k in kids if k[0] not in ("OPEN_PAREN", "CLOSE_PAREN")][0]
        if k[0] == "ID":
            return ("id", k[1])
        return build(k)
    if kind == "number":
        return ("num", number(Decimal(text_of(tree))))
    if kind == "integer":
        return ("num", number(int(text_of(tree))))
    raise AssertionError(kind)


def identifiers(ast) -> set:
    if ast[0] == "id":
        return {ast[1]}
    out = set()
    for part in ast[1:]:
        if isinstance(part, tuple):
            out |= identifiers(part)
    return out


def of_graph(node):
    """The same AST form, read from pyudunits2's graph."""
    kind = type(node).__name__
    if kind == "Multiply":
        return ("mul", of_graph(node.lhs), of_graph(node.rhs))
    if kind == "Divide":
        return ("div", of_graph(node.lhs), of_graph(node.rhs))
    if kind == "Raise":
        n = node.rhs.content
        if type(node.rhs).__name__ != "Number" or isinstance(n, str) or n != int(n):
            return ("pow", of_graph(node.lhs), ("odd", repr(node.rhs)))
        return ("pow", of_graph(node.lhs), int(n))
    if kind == "Shift":
        by = node.shift_from
        if type(by).__name__ == "Number":
            return ("shift", of_graph(node.unit), number(by.content))
        return ("date", of_graph(node.unit), str(by))
    if kind == "Logarithm":
        return ("log", node.function, of_graph(node.term))
    if kind == "Number":
        if isinstance(node.content, str):
            return ("odd", repr(node))
        if node.raw_content == "":
            return ("empty",)
        return ("num", number(node.content))
    if kind == "Identifier":
        return ("id", node.content)
    if kind == "Unhandled":
        return ("empty",) if str(node) == "" else ("odd", repr(node))
    return ("odd", repr(node))


def show(ast) -> str:
    k = ast[0]
    if k in ("num", "id"):
        return str(ast[1])
    if k in ("mul", "div"):
        return f"({show(ast[1])} {'*' if k == 'mul' else '/'} {show(ast[2])})"
    if k == "pow":
        return f"({show(ast[1])})^{ast[2]}"
    if k in ("shift", "date"):
        return f"({show(ast[1])} @ {ast[2]})"
    if k == "log":
        return f"{ast[1]}(re {show(ast[2])})"
    return repr(ast)
