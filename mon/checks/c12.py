"""Which units are convertible."""
from .. import drive, gen, model

PROPERTY = "C12"
RULE = (
    "Pairs of random units: unrelated, same, reciprocal and nearly same dimensions, dimensionless, dates, logarithms. "
    "Recorded: is_convertible_to both ways and whether a Converter can be built (and the exception otherwise). "
    "Oracle: dimensions from the frozen database (equal or exactly inverse), symmetry, agreement of the three "
    "recorded answers. Non-trivial: distinct pair."
)
FLOORS = {"pairs": {"quick": 900, "thorough": 15000}, "yes": {"quick": 250, "thorough": 3500}, "no": {"quick": 250, "thorough": 4000},
          "reciprocal": 60, "converters": {"quick": 200, "thorough": 3000}, "refused": {"quick": 200, "thorough": 3000}, "date_pairs": 30}
BATCH = 6
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(3600, 40000)))


def pair(rng):
    names = drive.name_pool(rng, 3)
    a = gen.expr(rng, names, rng.randint(1, 3), 0.05, 0.05) if rng.random() < 0.92 else drive.wide(rng)
    if rng.random() < 0.04:
        a = ("mul", a, ("pow", ("id", rng.choice(names)), rng.choice([-1, 1]) * (rng.choice([2**31, 2**53, 2**63, 10**17, 10**25]) + rng.randint(-1, 2))))
    d = drive.dims(a)
    k = rng.random()
    if d is None or k < 0.2:
        return a, gen.expr(rng, drive.name_pool(rng, 2), 2, 0.05, 0.05)
    d = tuple(sorted(d.items()))
    if k < 0.45:
        b = drive.same_dims(rng, d)
    elif k < 0.65:
        b = drive.same_dims(rng, model.inverse_dims(d))
    elif k < 0.72:
        b = ("div", ("num", gen.NUMBERS[0]), a)
    else:
        # One exponent off, one base more or less, one sign flipped, all doubled.
        e = dict(d)
        how = rng.randrange(4)
        if how == 0 or not e:
            x = rng.choice(["meter", "second", "kilogram", "kelvin"])
            e[x] = e.get(x, 0) + rng.choice([1, -1])
        elif how == 1:
            e = {x: 2 * n for x, n in e.items()}
        elif how == 2:
            x = rng.choice(sorted(e))
            e[x] = -e[x]
        else:
            e.pop(rng.choice(sorted(e)))
        b = drive.same_dims(rng, tuple(sorted((x, n) for x, n in e.items() if n)))
    if rng.random() < 0.08:
        b = ("log", "lg", b)
    if rng.random() < 0.08:
        b = ("shift", b, gen.NUMBERS[2])
    if rng.random() < 0.1:
        # The same around both.
        how = rng.randrange(4)
        x, y = rng.choice(gen.NUMBERS), rng.choice(gen.NUMBERS)
        if how < 2:
            a, b = ("shift", a, x), ("shift", b, y)
        elif how == 2:
            a, b = ("log", rng.choice(["lg", "ln", "lb"]), a), ("log", rng.choice(["lg", "ln", "lb"]), b)
        else:
            a, b = ("mul", ("num", x), a), ("mul", b, ("num", y))
    return (a, b) if rng.random() < 0.5 else (b, a)


def vast(ast):
    return ast[0] == "pow" and isinstance(ast[2], int) and abs(ast[2]) > 10**6 or any(vast(p) for p in ast[1:] if isinstance(p, tuple) and p)


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        if rng.random() < 0.05:
            t = drive.same_dims(rng, drive.SECOND)
            a = ("date", t, "2000-01-01") if rng.random() < 0.5 else ("shift", t, gen.NUMBERS[2])
            b = rng.choice([a, t, ("date", ("id", "s"), "2000-01-01"), pair(rng)[0]])
            if rng.random() < 0.5:
                a, b = b, a
        else:
            a, b = pair(rng)
        ka, kb = drive.classify(a), drive.classify(b)
        if ka in (None, "nested") or kb in (None, "nested"):
            continue
        ta, tb = drive.text(a, rng), drive.text(b, rng)
        ua, ub = S.unit(ta), S.unit(tb)
        da, db = drive.dims(a), drive.dims(b)
        if "date" in (ka, kb):
            want = False
            obs.count("date_pairs")
        else:
            want = da == db or da == {x: -n for x, n in db.items()}
            if want and da != db:
                obs.count("reciprocal")
        obs.count("pairs")
        obs.count("yes" if want else "no")
        obs.case((ta, tb), f"{ta} | {tb}: {want}")
        for x, y, tx, ty in ((ua, ub, ta, tb), (ub, ua, tb, ta)):
            got = x.is_convertible_to(y)
            if got is not want:
                obs.violation(f"{tx!r} is_convertible_to {ty!r}: {got}, dimensions {da} and {db}", units=(tx, ty))
        # No claim about numeric trouble such as overflow or zero factors.
        if vast(a) or vast(b):
            obs.count("vast")
            if want:
                continue
        if want and (drive.evaluate(a) is None or drive.evaluate(b) is None or any(
                not u.is_log and u.scale == 0 for u in (drive.evaluate(a), drive.evaluate(b)))):
            continue
        if want and rng.random() > ctx.pick(0.6, 0.5):
            continue
        conv = drive.outcome(drive.py.Converter, ua, ub)
        if want:
            obs.count("converters")
            if conv[0] != "ok":
                obs.violation(f"convertible, but Converter({ta!r}, {tb!r}) raised {conv[1]}: {conv[2]}", units=(ta, tb))
        else:
            obs.count("refused")
            if conv[0] == "ok" or not isinstance(conv[2], drive.py.IncompatibleUnitsError):
                obs.violation(f"not convertible, but Converter({ta!r}, {tb!r}) gave {conv[:2]}", units=(ta, tb))
