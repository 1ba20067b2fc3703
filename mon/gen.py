"""Seeded workload generators. Every one takes a ``random.Random``."""
from __future__ import annotations

import re

from . import g4, refparse

# --- unit text -------------------------------------------------------------

VOCAB = (
    ["m", "s", "K", "kg", "meter", "second", "mm", "per", "a", "E", "e", "re", "lg", "lb", "degC", "days", "hours",
     "°", "µm", "π", "Ω", "_", "À", "%", "'", '"', "μ", "℃"]
    + ["1", "2", "-2", "+3", "10", "0", "1.5", "-.5", "2.", "1e3", "2.e-4", "1E+2", ".5e1", "007"]
    + [" ", " ", " ", "  ", ".", "*", "·", "-", "/", " / ", " per ", " PER ", "^", "**", "²", "⁻¹", "³", "⁺²", "¹⁰"]
    + ["(", ")", "(", ")", "lg(re ", "ln(re: ", "lb (RE ", "log( re "]
    + [" @ ", "@", " since ", " from ", " after ", " ref "]
    + ["2000-01-01", "1990", "-1-1", " 12:30", "T12", ":00", "12:00:59.5", " UTC", " Z", "GMT", "+6", " -3:30", "TZ",
       "19900101T190030", "20000101T12", "60"]
)
JUNK = ["\n", "\t", "$", "&", "#", "?", "é", "漢", "\u00a0", "\u200b", "\x00", "!", ";", ":", ",", "[", "=", "+", "−", "\U0001F600"]


def confuse(rng, text: str) -> str:
    """The text with one or two characters that look like, or are stored like,
    the ones they replace: other planes, full-width and other digits, blanks."""
    chars = list(text)
    for _ in range(rng.randint(1, 2)):
        if not chars:
            break
        i = rng.randrange(len(chars))
        c = chars[i]
        options = [chr(0x10000 + ord(c) % 0x10000), chr(ord(c) % 0x10000 + 0x100), chr(ord(c) % 0x80 + 0x80), c.swapcase()[0]]
        if "!" <= c <= "~":
            options += [chr(ord(c) + 0xFEE0)] * 2
        if c.isdecimal() and c.isascii():
            options += [chr(0x0660 + int(c)), chr(0x0966 + int(c)), chr(0x2460 + int(c)), chr(0x1D7CE + int(c)), chr(0x2080 + int(c))] * 2
        if c in "smKkiIoOaAe":
            options += [{"s": "\u017f", "m": "\u217f", "K": "\u212a", "k": "\u212a", "i": "\u0131", "I": "\u0130", "o": "\u00ba",
                         "O": "\u039f", "a": "\u00aa", "A": "\u212b", "e": "\u0435"}[c]] * 2
        if c in " .-*/^@:²µ":
            options += rng.choices({" ": "\u00a0\u2009\u3000\u2003\u1680\u0085\x1c\r\v\f", ".": "\u00b7\u2024\u22c5\u3002", "-": "\u2212\u2010\u2013\u00ad",
                                    "*": "\u00d7\u2217", "/": "\u00f7\u2044\u2215", "^": "\u02c6\u2191", "@": "\uff20", ":": "\u2236",
                                    "²": "\u00b9\u00b3\u2072\u00bd", "µ": "\u03bc\u00b5"}[c], k=3)
        chars[i] = rng.choice(options)
    return "".join(x for x in chars if not 0xD800 <= ord(x[0]) < 0xE000)


def soup(rng, lo=1, hi=9, junk=0.04) -> str:
    out = []
    for _ in range(rng.randint(lo, hi)):
        out.append(rng.choice(JUNK) if rng.random() < junk else rng.choice(VOCAB))
    return "".join(out)


def mutate(rng, text: str) -> str:
    chars = list(text)
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        i = rng.randint(0, len(chars)) if chars else 0
        if k < 0.4 and chars:
            del chars[min(i, len(chars) - 1)]
        elif k < 0.8:
            chars.insert(i, rng.choice(VOCAB))
        elif chars:
            j = min(i, len(chars) - 1)
            chars[j] = rng.choice(VOCAB)
    return "".join(chars)


def sentence(rng, depth=4) -> str:
    """A sentence derived at random from the published parser grammar."""
    _, _, parser = refparse.machinery()
    out: list[str] = []

    def token(t):
        out.append(_lexeme(rng, t))

    def go(e, d):
        k = e[0]
        if k == "alt":
            alts = e[1]
            go(alts[0] if d <= 0 else rng.choice(alts), d)
        elif k == "seq":
            for p in e[1]:
                go(p, d)
        elif k == "opt":
            if d > 0 and rng.random() < 0.5:
                go(e[1], d)
        elif k in ("plus", "star"):
            for _ in range(1 if k == "plus" else 0):
                go(e[1], d)
            while rng.random() < 0.2:
                go(e[1], d)
        elif k == "lit":
            out.append(e[1])
        elif k == "ref":
            name = e[1]
            if name in parser.g.rules:
                body = parser.g.rules[name].body
                if name in parser.left:
                    base, rec = parser.left[name]
                    go(base, d - 1)
                    while d > 0 and rng.random() < 0.45:
                        go(rec, d - 1)
                elif name == "unit_spec":
                    go(("ref", "shift_spec"), d)
                else:
                    go(body, d - 1)
            elif name != "EOF":
                token(name)

    go(("ref", "unit_spec"), depth)
    return "".join(out)


def absurd(t) -> bool:
    """Exponents of ten or more digits, for which nothing is claimed."""
    return re.search(r"[eE][+-]?[0-9]{10}", t) is not None


def derive(rng, rules, e) -> str:
    """A text that a lexer rule of the published grammar derives."""
    k = e[0]
    if k == "ref":
        return derive(rng, rules, rules[e[1]].body)
    if k == "alt":
        return derive(rng, rules, rng.choice(e[1]))
    if k == "seq":
        return "".join(derive(rng, rules, p) for p in e[1])
    if k == "lit":
        return e[1]
    if k == "any":
        return rng.choice(JUNK)
    if k == "chars":
        lo, hi = rng.choice(e[1])
        return chr(rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)]))
    n = (rng.random() < 0.5) if k == "opt" else (k == "plus")
    while k != "opt" and n < 6 and rng.random() < 0.3:
        n += 1
    return "".join(derive(rng, rules, e[1]) for _ in range(n))


def _lexeme(rng, t) -> str:
    rules = refparse.machinery()[1].g.rules
    if t in rules and rng.random() < 0.35:
        return derive(rng, rules, rules[t].body)
    two = lambda n: f"{rng.randint(0, n):02d}"
    year = lambda: rng.choice(["2000", "1990", "-19", "+2001", "7", "0001"])
    table = {
        "ID": lambda: rng.choice(["m", "s", "kg", "day", "µm", "K", "W", "meters", "_x", "Ω", "°", "lb", "e", "E", "d"]),
        "INT": lambda: rng.choice(["1", "2", "3", "10", "0", "12", "007"]) if rng.random() < 0.9 else rng.choice(LONG_INTS),
        "SIGNED_INT": lambda: rng.choice(["-1", "+2", "-3", "-10", "+0"]),
        "FLOAT": lambda: rng.choice(["1.5", ".5", "2.", "1e3", "-2.e-4", "+1.25E2", "1e-2", "-.5e+1"]) if rng.random() < 0.8 else rng.choice(LONG_FLOATS),
        "MULTIPLY": lambda: rng.choice(["*", "·", "-", "."]),
        "DIVIDE": lambda: rng.choice(["/", " / ", " per ", " PER ", "  /"]),
        "RAISE": lambda: rng.choice(["^", "**"]),
        "UNICODE_EXPONENT": lambda: rng.choice(["²", "⁻¹", "¹²", "⁺³", "⁰", "⁻", "²⁻"]),
        "LOG": lambda: rng.choice(["log", "lg", "ln", "lb"]) + rng.choice(["(", " (", "( "]) + rng.choice(["re", "RE"]) + rng.choice(["", ":"]) + rng.choice([" ", "  ", ""]),
        "SHIFT_OP": lambda: rng.choice(["@", "after", "from", "since", "ref"]),
        "WS": lambda: " ",
        "T": lambda: "T",
        "TZ": lambda: "TZ",
        "TIMEZONE": lambda: rng.choice(["UTC", "Z", "GMT"]),
        "DATE": lambda: year() + "-" + rng.choice(["1", "01", "12", "10"]) + rng.choice(["", "-1", "-01", "-31", "-30", "-15"]),
        "HOUR_MINUTE": lambda: rng.choice(["1", "01", "12", "23", "+6", "-3"]) + ":" + two(59),
        "HOUR_MINUTE_SECOND": lambda: rng.choice(["1", "01", "12", "23"]) + ":" + two(59) + ":" + rng.choice(["0", "59", "60", "12.", "1.25"]),
        "TIMESTAMP": lambda: "2000" + rng.choice(["", "01", "1", "0131"]) + "T" + rng.choice(["1", "12", "1230", "123059", "123059.5"]),
        "CLOSE_PAREN": lambda: ")",
        "OPEN_PAREN": lambda: "(",
    }
    return table[t]()


# --- well formed expressions with spelling variants ------------------------


def expr(rng, names, depth=3, log=0.05, shift=0.05, zero=False, big=False):
    """A random AST over the given identifiers (see refparse for the form)."""
    if depth <= 0 or rng.random() < 0.2:
        if rng.random() < 0.75:
            return ("id", rng.choice(names))
        return ("num", rng.choice(NUMBERS if rng.random() < 0.88 else LONG_NUMBERS))
    k = rng.random()
    if k < log:
        inner = expr(rng, names, depth - 1, log, shift, zero, big)
        if rng.random() < 0.2:
            inner = ("log", rng.choice(["lg", "ln", "lb", "log"]), inner)
        return ("log", rng.choice(["lg", "ln", "lb", "log"]), inner)
    k = rng.random()
    if k < shift:
        return ("shift", expr(rng, names, depth - 1, log, shift, zero, big), rng.choice(NUMBERS))
    k = rng.random()
    if k < 0.45:
        return ("mul", expr(rng, names, depth - 1, log, shift, zero, big), expr(rng, names, depth - 1, log, shift, zero, big))
    if k < 0.7:
        return ("div", expr(rng, names, depth - 1, log, shift, zero, big), expr(rng, names, depth - 1, log, shift, zero, big))
    n = rng.choice([1, 2, 3, -1, -2, 2, -3] + ([0] if zero else []))
    if big and rng.random() < 0.1:
        n = rng.choice([4, 5, -4, 7, 10, -12, 27, 100, -128, 1000])
    return ("pow", expr(rng, names, depth - 1, log, shift, zero, big), n)


from fractions import Fraction  # noqa: E402

LONG_INTS = ["123456789012345678901", "1000000007", "9007199254740993", "0000000012", "4294967296"]
LONG_FLOATS = ["3.14159265358979323846", "6.02214076e23", "1e-24", "0.1000000000000000000001", "-1.23456789012345678e-30",
               "9007199254740993.", "1.0000000000000002", "100000.000001", "1e22", ".00000000000000000000123"]
# Written exactly by num_text (28 digits).
LONG_NUMBERS = [Fraction(x) for x in ("3.14159265358979323846", "123456789012345678901", "0.000000123456789", "1.0000000000000002",
                                      "9007199254740993", "299792458", "1e-12", "0.333333333333333333")]
NUMBERS = [Fraction(x) for x in ("2", "3", "10", "0.5", "1000", "0.01", "1.25", "60", "7", "2.5", "-2", "0.3048")]


def num_text(rng, q: Fraction) -> str:
    if q.denominator == 1:
        s = str(q.numerator)
        if rng is None:
            return s
        return rng.choice([s, s, s + ".", s + ".0", s + "e0", f"{q.numerator * 10}e-1"])
    from decimal import Decimal

    s = format(Decimal(q.numerator) / Decimal(q.denominator), "f")
    if rng is None:
        return s
    return rng.choice([s, s, s + "0", s + "e0"])


def int_text(rng, n: int) -> str:
    """An exponent: plain, with leading zeros, with a plus sign."""
    if rng is None or rng.random() < 0.7:
        return str(n)
    digits = "0" * rng.choice([0, 0, 1, 1, 2, 5]) + str(abs(n))
    return ("-" if n < 0 else rng.choice(["", "", "+"])) + digits


def spell(ast, rng=None, numbers=True) -> str:
    """Text for an AST. With ``rng`` spelling choices are random, without it
    they are fixed: fully bracketed, '·', '^', '@'. Without ``numbers`` numerals
    outside exponents are written one way only."""

    def r(options):
        return rng.choice(options) if rng else options[0]

    def atom(a, tight=False):
        """Text usable as the base of a power."""
        t = go(a)
        if a[0] == "id":
            return t if rng is None or rng.random() < 0.9 else f"({t})"
        if a[0] == "log":
            return t if rng and rng.random() < 0.5 else f"({t})"
        if a[0] == "num" and not t.startswith(("-", "+")) and rng and rng.random() < 0.3 and "." not in t and "e" not in t:
            return t
        return f"({t})"

    def factor(a):
        """Text usable on the right of an operator."""
        if a[0] in ("id", "log", "num", "pow"):
            return go(a)
        return f"({go(a)})"

    def go(a):
        k = a[0]
        if k == "empty":
            return ""
        if k == "id":
            return a[1]
        if k == "num":
            return num_text(rng if numbers else None, a[1])
        if k == "pow":
            base = atom(a[1])
            n = int_text(rng, a[2])
            styles = ["^", "^", "**"]
            if a[1][0] == "id" or base.endswith(")"):
                styles += ["", "sup"]
            if base in ("e", "E"):
                styles.remove("")  # "e-1" is an exponent
            style = r(styles)
            if style == "sup":
                return base + "".join({"-": "⁻", "+": "⁺"}.get(c) or "⁰¹²³⁴⁵⁶⁷⁸⁹"[int(c)] for c in n)
            return f"{base}{style}{n}"
        if k == "mul":
            left = go(a[1]) if a[1][0] in ("mul", "div", "pow", "id", "num", "log") else f"({go(a[1])})"
            right = factor(a[2])
            ops = ["·", "*", " ", "  ", "*"]
            if left[-1:].isalpha() and (right[:1].isalpha() or right[:1] == "("):
                # '.' multiplies only directly after an identifier.
                ops += ["."]
            op = r(ops)
            return f"{left}{op}{right}"
        if k == "div":
            left = go(a[1]) if a[1][0] in ("mul", "div", "pow", "id", "num", "log") else f"({go(a[1])})"
            return left + r(["/", " / ", " per ", " PER ", "/ "]) + factor(a[2])
        if k == "shift":
            unit = go(a[1]) if a[1][0] != "shift" else f"({go(a[1])})"
            return f"{unit}{r([' @ ', '@', ' from ', ' since ', ' after ', ' ref '])}{num_text(None, a[2])}"
        if k == "date":
            return f"{go(a[1])}{r([' since ', ' @ ', ' from ', ' after ', ' ref '])}{a[2]}"
        if k == "log":
            fn = a[1]
            if rng and fn in ("lg", "log"):
                fn = rng.choice(["lg", "log"])
            return f"{fn}{r(['(', '( ', ' ('])}{r(['re', 'RE'])}{r([' ', ': ', '  '])}{go(a[2])})"
        raise AssertionError(k)

    return go(ast)
