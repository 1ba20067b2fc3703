"""Equality of units."""
import copy
from fractions import Fraction

from .. import drive, gen, model, refparse, registry

PROPERTY = "C20"
RULE = (
    "Pairs of units: the same text twice, reordered and regrouped products, respelt powers, other units with the exact "
    "factor between them, and near misses (one exponent, one factor, one offset, one prefix, one logarithm changed), "
    "within and across systems, also systems of generated definitions of which at most one differs. Recorded: == and != both ways. Oracle: equality of the exact rational meanings over "
    "the frozen database; symmetric, reflexive and consistent answers. Non-trivial: distinct pair."
)
ASSUMPTIONS = ["the radian counts as a basis unit, as in UDUNITS-2"]
FLOORS = {"pairs": {"quick": 450, "thorough": 6000}, "equal": {"quick": 150, "thorough": 2500}, "unequal": {"quick": 150, "thorough": 2000},
          "reflexive": 200, "across_systems": 20, "other_units": 15, "offset": 20, "log": 20, "anagrams": 10, "swapped": 10,
          "twin_systems": 25, "twin_systems_compared": 120, "twin_systems_differ": 15}
BATCH = 3
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(2400, 24000)))


def shuffled(rng, factors):
    """Factors [(name, exponent)] as an expression in random order and grouping."""
    parts = []
    for name, n in factors:
        while n:
            take = rng.choice([n, 1 if n > 0 else -1])
            if abs(take) > abs(n):
                take = n
            n -= take
            x = name if isinstance(name, tuple) else ("id", name)
            if isinstance(x, tuple) and x[0] == "num" and take < 0:
                parts.append(("inv", x if take == -1 else ("pow", x, -take)))
            elif take < 0 and rng.random() < 0.5:
                parts.append(("inv", x if take == -1 else ("pow", x, -take)))
            else:
                parts.append(x if take == 1 else ("pow", x, take))
    rng.shuffle(parts)

    def build(ps):
        if len(ps) == 1:
            p = ps[0]
            return ("div", ("num", Fraction(1)), p[1]) if p[0] == "inv" else p
        k = rng.randint(1, len(ps) - 1)
        left, right = ps[:k], ps[k:]
        a = build(left)
        if len(right) == 1 and right[0][0] == "inv":
            return ("div", a, right[0][1])
        if all(p[0] == "inv" for p in right):
            b = build([p[1] for p in right])
            return ("div", a, b)
        return ("mul", a, build(right))

    return build(parts)


INTS = [("num", Fraction(n)) for n in (2, 3, 5, 7, 10, 60, 1000)]


def factors(rng):
    out = [(rng.choice(drive.common_names()), rng.choice([1, 1, 2, -1, 3])) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:
        out.append((rng.choice(INTS), rng.choice([1, 1, 2, -1])))
    return out


def verdict(a, b):
    """Whether the meanings are equal, exactly; None where nothing is claimed."""
    if a.is_log != b.is_log or a.dims != b.dims:
        return False
    if a.is_log:
        x, y = a, b
        while x.is_log and y.is_log:
            if x.ref_offset or y.ref_offset:
                return None
            if (x.fn, x.k, x.shift) != (y.fn, y.k, y.shift):
                return False
            x, y = x.inner, y.inner
        if x.is_log != y.is_log:
            return False
    else:
        x, y = a, b
    if (x.scale, x.offset) != (y.scale, y.offset):
        return False
    return a.angles == b.angles


def finite_decimal(q):
    d = q.denominator
    for p in (2, 5):
        while d % p == 0:
            d //= p
    return d == 1 and abs(q.numerator) < 10**25 and q.denominator < 10**25


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        if rng.random() < 0.1:
            twin_systems(obs, rng)
        f = factors(rng)
        a = shuffled(rng, f)
        k = rng.random()
        wrap = rng.random()
        other = S
        if k < 0.35:
            b = shuffled(rng, f)
        elif k < 0.45:
            b = a
            if rng.random() < 0.7:
                other = drive.fresh_system()
                obs.count("across_systems")
        elif k < 0.7:
            # Other units, with the exact factor between them, or nearly.
            d = drive.dims(a)
            if d is None:
                continue
            b = drive.same_dims(rng, tuple(sorted(d.items())))
            x, y = drive.evaluate(a), drive.evaluate(b)
            if x is None or y is None or not y.scale or not finite_decimal(x.scale / y.scale):
                continue
            q = x.scale / y.scale
            if rng.random() < 0.3:
                q = q * rng.choice([Fraction(1000001, 1000000), 2, Fraction(1, 2), -1])
            b = rng.choice([("mul", ("num", q), b), ("mul", b, ("num", q))])
            obs.count("other_units")
        else:
            g = list(f)
            j = rng.randrange(len(g))
            how = rng.randrange(10)
            if how == 0:
                g[j] = (g[j][0], g[j][1] + rng.choice([1, -1, 2]))
            elif how == 1:
                g.append((rng.choice(INTS), rng.choice([1, -1])))
            elif how == 2 and isinstance(g[j][0], str):
                g[j] = (rng.choice(["k", "c", "u", "M"]) + g[j][0], g[j][1])
            elif how == 4:
                # The same signs in another order.
                digits = rng.sample("123456789", rng.randint(2, 3))
                other_digits = list(digits)
                while other_digits == digits:
                    rng.shuffle(other_digits)
                n, m = (("num", Fraction(int("".join(x)))) for x in (digits, other_digits))
                e = rng.choice([1, 1, -1, 2])
                f, g = f + [(n, e)], g + [(m, e)]
                a = shuffled(rng, f)
                obs.count("anagrams")
            elif how == 9:
                # Integers of many digits, all of which count.
                n = rng.randrange(10**15, 10 ** rng.randint(16, 60))
                x, y = ("num", Fraction(n)), ("num", Fraction(n + rng.choice([0, 1, -1, 2, 10])))
                e = rng.choice([1, 1, -1, 2])
                f, g = f + [(x, e)], g + [(y, e)]
                a = shuffled(rng, f)
                obs.count("many_digits")
            elif how == 8:
                g.append(("radian", rng.choice([1, -1, 2])))
                obs.count("angles")
            elif how == 7:
                (_, x), (_, y) = drive.lookalike(rng)
                f, g = f + [(x, 1)], g + [(y, 1)]
                a = shuffled(rng, f)
                obs.count("lookalikes")
            elif how == 5:
                other_name = rng.choice(drive.common_names())
                n = rng.choice([2, 3, -1])
                f, g = [f[0], (other_name, n)], [(f[0][0], n), (other_name, f[0][1])]
                a = shuffled(rng, f)
                obs.count("swapped")
            else:
                g[j] = (rng.choice(drive.common_names()), g[j][1])
            g = [x for x in g if x[1]]
            if not g:
                continue
            b = shuffled(rng, g)
        if wrap < 0.12:
            n1 = rng.choice(gen.NUMBERS)
            a, b = ("shift", a, n1), ("shift", b, n1 if rng.random() < 0.6 else rng.choice(gen.NUMBERS))
        elif wrap < 0.26:
            n1 = rng.choice(["lg", "ln", "lb"])
            n2 = n1 if rng.random() < 0.7 else rng.choice(["lg", "ln", "lb"])
            a, b = ("log", n1, a), (("log", n2, b) if rng.random() < 0.9 else b)
        elif wrap < 0.32:
            # Not quite the same: exactness has no smallest difference.
            x = rng.choice(gen.NUMBERS)
            y = x + rng.choice([1, -1]) * Fraction(1, 10 ** rng.choice([9, 12, 15, 16, 17, 18, 20, 24]))
            if rng.random() < 0.5:
                a, b = ("shift", a, x), ("shift", a, y)
            else:
                a, b = ("mul", ("num", x), a), ("mul", ("num", y), a)
                if rng.random() < 0.3:
                    a, b = ("log", "lg", a), ("log", "lg", b)
                elif rng.random() < 0.3:
                    a, b = ("pow", a, -2), ("pow", b, -2)
            obs.count("tiny_differences")
        if drive.classify(a) != "unit" or drive.classify(b) != "unit":
            continue
        ma, mb = drive.evaluate(a), drive.evaluate(b)
        if ma is None or mb is None:
            continue
        equal = verdict(ma, mb)
        ta, tb = drive.text(a, rng), drive.text(b, rng)
        u, v = S.unit(ta), other.unit(tb)
        judge(obs, u, v, ta, tb, equal)
        if wrap < 0.12:
            obs.count("offset")
        elif wrap < 0.26:
            obs.count("log")
        obs.count("reflexive")
        if not (u == u) or u != u or not (u == S.unit(ta)):
            obs.violation(f"{ta!r} is not equal to itself", units=(ta,))
        for thing in (ta, None, 1, 1.0, ("m",)):
            if u == thing or not (u != thing):
                obs.violation(f"{ta!r} is equal to {thing!r}", units=(ta,))


def twin_systems(obs, rng):
    """Two systems with the same names, of which at most one definition differs."""
    ops = registry.random_history(rng, rng.randint(6, 12))
    other = copy.deepcopy(ops)
    defined = [op for op in other if op[0] == "unit" and op[2] is not None]
    if not defined:
        return
    if rng.random() < 0.8:
        op = rng.choice(defined)
        number, _, rest = op[2].partition(" ")
        op[2] = rng.choice([f"{rng.choice(registry.PRIMES)} {rest}", f"{number}.0 {rest}", f"{rest} {number}", f"{number} {rest}2", f"{number} /{rest}"])
    sides = []
    for history in (ops, other):
        M, R = registry.Model(), registry.Real(times=True)
        for n, op in enumerate(history):
            if registry.apply_model(M, op, n) is not (R.apply(op)[0] == "ok"):
                return  # C08 judges registration
        sides.append((M, R.S))
    known = [k for k in registry.keys(ops) if sides[0][0].addressable(k) and len(registry.want(sides[0][0], k)) == 2]
    if not known:
        return
    obs.count("twin_systems")
    for _ in range(10):
        names = [rng.choice(known) for _ in range(2)]
        ta = drive.text(gen.expr(rng, names, rng.randint(0, 2), 0.1, 0.1), rng)
        tb = ta if rng.random() < 0.7 else drive.text(gen.expr(rng, names, rng.randint(0, 1), 0.1, 0.1), rng)
        try:
            ma, mb = sides[0][0].unit(ta), sides[1][0].unit(tb)
        except (model.Undefined, model.Unknown, refparse.Rejected):
            continue
        u, v = drive.outcome(sides[0][1].unit, ta), drive.outcome(sides[1][1].unit, tb)
        if any(x[0] != "ok" or isinstance(x[1], drive.py.DateUnit) for x in (u, v)):
            continue
        obs.count("twin_systems_compared")
        equal = verdict(ma, mb)
        if ta == tb and equal is False:
            obs.count("twin_systems_differ")
        judge(obs, u[1], v[1], ta, tb, equal)


def judge(obs, u, v, ta, tb, equal):
    obs.count("pairs")
    obs.case((ta, tb), f"{ta} == {tb}: {equal}")
    res = [u == v, v == u, not (u != v), not (v != u)]
    if any(type(r) is not bool for r in res):
        obs.violation(f"{ta!r} == {tb!r} gives {res}", units=(ta, tb))
    if len(set(map(bool, res))) != 1:
        obs.violation(f"{ta!r} and {tb!r}: ==, reversed ==, !=, reversed != disagree: {res}", units=(ta, tb))
    if equal is None:
        obs.count("unjudged")
        return
    obs.count("equal" if equal else "unequal")
    if bool(res[0]) is not equal:
        obs.violation(f"{ta!r} == {tb!r} is {res[0]}, expected {equal}", units=(ta, tb))
