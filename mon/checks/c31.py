"""The expander collects an expression into one product of powers."""
from fractions import Fraction

from .. import drive, gen, refparse

PROPERTY = "C31"
RULE = (
    "Random products, quotients and powers (also zero, negative, nested and large ones) over few identifiers and numbers, "
    "optionally shifted at the outermost level. Recorded: the graph given to the expander and the graph it returns, for a "
    "fresh expander each. Oracle: exact exponents of every identifier and the exact number computed by own arithmetic from "
    "the written expression; the form of the result; the same result for permuted factors. Non-trivial: two or more factors."
)
ASSUMPTIONS = ["numbers are multiplied in the 28 digits of decimal arithmetic"]
FLOORS = {"expanded": {"quick": 4000, "thorough": 60000}, "cancelled": 300, "shifted": 150, "permuted": 600, "nested_power": 300, "alone": 100}
BATCH = 20
NAMES = ["m", "s", "kg", "K", "a", "ab", "M", "µm"]


def plan(ctx):
    return list(range(ctx.pick(12000, 200000)))


class Absurd(Exception):
    pass


def arithmetic(ast):
    """(number, {identifier: exponent})"""
    k = ast[0]
    if k == "num":
        return Fraction(ast[1]), {}
    if k == "id":
        return Fraction(1), {ast[1]: 1}
    if k == "pow":
        q, d = arithmetic(ast[1])
        if abs(ast[2]) * max(q.numerator.bit_length(), q.denominator.bit_length()) > 3000 or (q == 0 and ast[2] < 0):
            raise Absurd
        return q ** ast[2], {x: n * ast[2] for x, n in d.items() if n * ast[2]}
    (p, d), (q, e) = arithmetic(ast[1]), arithmetic(ast[2])
    sign = 1 if k == "mul" else -1
    out = dict(d)
    for x, n in e.items():
        out[x] = out.get(x, 0) + sign * n
    if q == 0 and sign < 0:
        raise Absurd
    return p * q**sign, {x: n for x, n in out.items() if n}


def read(node):
    """The factors [(terminal, exponent)] of an expanded graph, or None."""
    from pyudunits2._expr import graph as g

    if type(node) is g.Multiply:
        a, b = read(node.lhs), read(node.rhs)
        return None if a is None or b is None else a + b
    if type(node) is g.Raise:
        if isinstance(node.lhs, g.Terminal) and isinstance(node.rhs, g.Number):
            return [(node.lhs, node.rhs.value)]
        return None
    return [(node, 1)] if isinstance(node, g.Terminal) else None


def expand(graph):
    from pyudunits2._expr.expander import Expander

    return drive.outcome(lambda: Expander().visit(graph))


def judge(obs, what, node, number, exps):
    from pyudunits2._expr import graph as g

    factors = read(node)
    if factors is None:
        obs.violation(f"{what} expands to {node}, which is no product of powers", text=what)
        return False
    got, value = {}, Fraction(1)
    for t, n in factors:
        if n != int(n):
            obs.violation(f"{what} expands to {node} with exponent {n!r}", text=what)
            return False
        if isinstance(t, g.Identifier):
            if t.name in got:
                obs.violation(f"{what} expands to {node}, in which {t} occurs twice", text=what)
                return False
            got[t.name] = int(n)
        else:
            value *= Fraction(t.value) ** int(n)
    if got != exps:
        obs.violation(f"{what} expands to {node}, with exponents {got} instead of {exps}", text=what)
        return False
    if value != number and abs(value - number) > abs(number) * Fraction(1, 10**24):
        obs.violation(f"{what} expands to {node}, whose factor is {float(value)!r} instead of {float(number)!r}", text=what)
        return False
    return True


def factors_of(rng):
    return [gen.expr(rng, rng.sample(NAMES, 3), rng.randint(0, 2), 0, 0, True, True) for _ in range(rng.randint(2, 5))]


def chain(fs):
    ast = fs[0]
    for f in fs[1:]:
        ast = ("mul", ast, f)
    return ast


def kinds(ast):
    return drive.kinds(ast)


def run_items(ctx, obs, items, shard):
    from pyudunits2._expr import graph as g

    for i in items:
        rng = ctx.rng(i)
        names = rng.sample(NAMES, rng.randint(1, 4))
        permuted = None
        if rng.random() < 0.25:
            fs = factors_of(rng)
            ast = chain(fs)
            rng.shuffle(fs)
            permuted = chain(fs)
        else:
            ast = gen.expr(rng, names, rng.randint(0, 5), 0, 0, True, True)
        try:
            number, exps = arithmetic(ast)
        except Absurd:
            obs.count("absurd")
            continue
        text = gen.spell(ast, rng)
        p = drive.outcome(drive.parse, text)
        if p[0] != "ok" or refparse.of_graph(p[1]) != ast:
            obs.count("not_read")  # C01, C04
            continue
        graph = p[1]
        shift = None
        if rng.random() < 0.06:
            shift = rng.choice([2, 10, 273, 1, -5])
            graph = g.Shift(graph, g.Number(shift, raw_content=str(shift)))
            obs.count("shifted")
        before = repr(graph)
        r = expand(graph)
        obs.count("expanded")
        obs.count("alone" if ast[0] in ("id", "num") else "composed")
        if ast[0] not in ("id", "num"):
            obs.case((text, shift), f"{text!r} -> {r[1]}")
        if "pow" in kinds(ast) and any(k in str(ast) for k in ("('pow', ('pow'", "('pow', ('mul'", "('pow', ('div'")):
            obs.count("nested_power")
        if r[0] != "ok":
            obs.violation(f"{text!r} cannot be expanded: {r[1]}: {r[2]}", text=text)
            continue
        if repr(graph) != before:
            obs.violation(f"expanding changed {text!r}", text=text)
            continue
        node = r[1]
        if shift is not None:
            if type(node) is not g.Shift or read(node.shift_from) is None or \
                    not judge(obs, f"{text!r} shifted by {shift}: the shift", node.shift_from, Fraction(shift), {}):
                obs.violation(f"{text!r} shifted by {shift} expands to {node}", text=text)
                continue
            node = node.unit
        if len(exps) < len(identifiers(ast)):
            obs.count("cancelled")
        if not judge(obs, repr(text), node, number, exps):
            continue
        again = expand(graph)
        if again[0] != "ok" or repr(again[1]) != repr(r[1]):
            obs.violation(f"{text!r} expands to {again[1]} the second time, first to {r[1]}", text=text)
        # Expanding what is expanded does not change its meaning.
        twice = expand(node)
        if twice[0] != "ok":
            obs.violation(f"{node} cannot be expanded: {twice[2]}", text=text)
        else:
            judge(obs, f"{node}", twice[1], number, exps)
        if permuted is not None:
            obs.count("permuted")
            t2 = gen.spell(permuted)
            q = drive.outcome(drive.parse, t2)
            if q[0] == "ok" and refparse.of_graph(q[1]) == permuted:
                r2 = expand(q[1])
                if r2[0] != "ok":
                    obs.violation(f"{t2!r} cannot be expanded: {r2[2]}", text=t2)
                elif judge(obs, repr(t2), r2[1], number, exps) and order(r2[1]) != order(node):
                    obs.violation(f"{text!r} expands to {node}, its permutation {t2!r} to {r2[1]}: another order of units", text=text)


def identifiers(ast):
    if ast[0] == "id":
        return {ast[1]}
    out = set()
    for p in ast[1:]:
        if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge":
            out |= identifiers(p)
    return out


def order(node):
    from pyudunits2._expr import graph as g

    return [t.name for t, _ in read(node) if isinstance(t, g.Identifier)]
