"""The published expression is the conversion."""
import ast as pyast
import math

import mpmath

from .. import convlib, drive, gen, model

PROPERTY = "C19"
RULE = (
    "Random converters of all kinds. Recorded: the expression, its text, and converted values. Oracle: the only free "
    "symbol is 'value'; the expression evaluated with 40 digits, and its text evaluated by an independent evaluator "
    "of arithmetic, exp and log, both equal the converted value within the float rounding of its own steps. "
    "Non-trivial: distinct expression."
)
FLOORS = {"expressions": {"quick": 250, "thorough": 4500}, "values": {"quick": 700, "thorough": 12000}, "with_log": 30, "with_offset": 30,
          "reciprocal": 20}
BATCH = 3
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(4000, 60000)))


class Bad(Exception):
    pass


def interval(node, v):
    """(value, accumulated rounding error bound) of a Python arithmetic text."""
    eps = mpmath.mpf(2) ** -52

    def go(n):
        if isinstance(n, pyast.Expression):
            return go(n.body)
        if isinstance(n, pyast.Constant) and isinstance(n.value, (int, float)):
            x = mpmath.mpf(n.value)
            # Printed with 15 digits.
            return x, (abs(x) * mpmath.mpf("1e-14") if isinstance(n.value, float) else mpmath.mpf(0))
        if isinstance(n, pyast.Name):
            if n.id == "value":
                return mpmath.mpf(v), mpmath.mpf(0)
            if n.id == "pi":
                return mpmath.pi + 0, eps
            if n.id == "E":
                return mpmath.e + 0, eps
            raise Bad(f"name {n.id}")
        if isinstance(n, pyast.UnaryOp) and isinstance(n.op, (pyast.USub, pyast.UAdd)):
            x, e = go(n.operand)
            return (-x, e) if isinstance(n.op, pyast.USub) else (x, e)
        if isinstance(n, pyast.BinOp):
            (x, dx), (y, dy) = go(n.left), go(n.right)
            if isinstance(n.op, pyast.Add):
                r, e = x + y, dx + dy
            elif isinstance(n.op, pyast.Sub):
                r, e = x - y, dx + dy
            elif isinstance(n.op, pyast.Mult):
                r, e = x * y, abs(x) * dy + abs(y) * dx + dx * dy
            elif isinstance(n.op, pyast.Div):
                if y == 0 or abs(dy) > abs(y) / 10:
                    raise ZeroDivisionError
                r = x / y
                e = (dx + abs(r) * dy) / abs(y) * 2
            elif isinstance(n.op, pyast.Pow):
                if x <= 0 and y != int(y) or x == 0 and y < 0:
                    raise ZeroDivisionError
                if abs(y) * (1 + abs(mpmath.log(abs(x))) if x else 1) > 5000:
                    raise ZeroDivisionError
                r = x**y
                e = abs(r) * (abs(y) * (dx / abs(x) if x else 0) + abs(mpmath.log(abs(x)) if x else 0) * dy) * 2
            else:
                raise Bad(pyast.dump(n))
            return r, e + abs(r) * eps
        if isinstance(n, pyast.Call) and isinstance(n.func, pyast.Name) and len(n.args) == 1:
            x, dx = go(n.args[0])
            if n.func.id == "exp":
                if abs(x) > 600 or dx > 1e-3:
                    raise ZeroDivisionError
                r = mpmath.exp(x)
                return r, r * (2 * dx + eps)
            if n.func.id == "log":
                if x <= 0 or dx > x / 10:
                    raise ZeroDivisionError
                r = mpmath.log(x)
                return r, 2 * dx / x + eps * (abs(r) + 1)
            if n.func.id == "sqrt" and x >= 0:
                r = mpmath.sqrt(x)
                return r, eps * r + (dx / r if r else dx)
        raise Bad(pyast.dump(n)[:200])

    return go(node)


def run_items(ctx, obs, items, shard):
    import sympy

    from .c18 import converter

    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        c, texts = converter(rng, S)
        if c is None:
            continue
        e = c.expression
        obs.count("expressions")
        free = {str(s) for s in e.free_symbols}
        if free - {"value"}:
            obs.violation(f"{texts}: expression {e} has the symbols {sorted(free)}", units=texts)
            continue
        text = str(e)
        try:
            tree = pyast.parse(text, mode="eval")
        except SyntaxError:
            obs.violation(f"{texts}: expression {text!r} is not arithmetic", units=texts)
            continue
        if "log" in text or "exp" in text:
            obs.count("with_log")
        if " + " in text or " - " in text:
            obs.count("with_offset")
        if "/value" in text or "/(" in text:
            obs.count("reciprocal")
        obs.case(text, f"{texts}: {text}")
        for v in convlib.values(rng, 3):
            try:
                want, err = interval(tree, float(v))
            except ZeroDivisionError:
                continue
            except Bad as exc:
                obs.violation(f"{texts}: cannot evaluate {text!r}: {exc}", units=texts)
                break
            if err > 1e-6 * abs(want) or not 1e-290 < abs(want) < 1e290:
                continue
            got = drive.outcome(c.convert, float(v))
            obs.count("values")
            if got[0] != "ok" or not drive.close(got[1], want, 4 * err + abs(want) * mpmath.mpf("1e-12")):
                obs.violation(f"{texts}: convert({v}) is {got[1]!r}, but its expression {text} gives {mpmath.nstr(want, 17)}",
                              units=texts, value=v)
                break
            exact = e.subs(sympy.Symbol("value"), sympy.Float(float(v), 40)).evalf(40)
            if not exact.is_number or not drive.close(exact, want, 4 * err + abs(want) * mpmath.mpf("1e-12")):
                obs.violation(f"{texts}: expression {text} is {exact} at {v}, its text {mpmath.nstr(want, 17)}", units=texts, value=v)
                break
