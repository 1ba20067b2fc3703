"""Units with an offset."""
from .. import convlib, drive, gen, model

PROPERTY = "C15"
RULE = (
    "Pairs of units of which at least one has an offset: database temperatures, '@' with random offsets on any "
    "dimension, offsets of offsets, offset units inside products and powers (where they count as intervals), and "
    "scaled and prefixed units with an offset around them. Recorded: converted values. Oracle: exact affine "
    "arithmetic over the frozen database, tolerance 1e-12 of the largest term. Non-trivial: distinct pair."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "a shift matters only as the outermost operation"]
FLOORS = {"pairs": {"quick": 220, "thorough": 4000}, "values": {"quick": 650, "thorough": 12000}, "intervals": {"quick": 30, "thorough": 500}}
BATCH = 4
SHARD0 = 0.1
TEMPS = ["degC", "degF", "celsius", "degrees_fahrenheit", "°C", "°F", "deg_F", "degreesC", "℃", "℉"]
KELVINS = ["K", "kelvin", "degR", "mK", "kelvins", "°K", "rankine", "kK"]


def plan(ctx):
    return list(range(ctx.pick(3500, 40000)))


def shift_number(rng):
    if rng.random() < 0.2:
        # Many digits.
        return rng.choice([1, -1]) * model.Fraction(rng.randrange(10**rng.choice([9, 13, 17])), 10**rng.choice([0, 2, 6, 12]))
    return rng.choice(gen.NUMBERS + [model.Fraction("273.15"), model.Fraction("-459.67"), model.Fraction("1e3"), model.Fraction(0)])


def make(rng):
    k = rng.random()
    if k < 0.35:
        a = ("id", rng.choice(TEMPS))
        b = ("id", rng.choice(TEMPS + KELVINS))
        if rng.random() < 0.3:
            b = ("shift", b, shift_number(rng))
        if rng.random() < 0.3:
            b = ("shift", ("mul", ("num", rng.choice(gen.NUMBERS)), ("id", rng.choice(TEMPS + KELVINS))), shift_number(rng))
    elif k < 0.5:
        # As intervals: the offset of a factor does not count.
        t, u = rng.choice(TEMPS), rng.choice(KELVINS + TEMPS)
        e = rng.choice([2, 3, -1])
        other = ("id", rng.choice(["m", "s", "J", "kg"]))
        forms = [
            lambda x: ("pow", ("id", x), e) if e > 1 else ("div", other, ("id", x)),
            lambda x: ("mul", ("id", x), other),
            lambda x: ("div", ("id", x), other),
            lambda x: ("div", other, ("mul", ("id", "kg"), ("id", x))),
        ]
        f = rng.choice(forms)
        a, b = f(t), f(u)
        if rng.random() < 0.4:
            a = ("shift", a, shift_number(rng))
        return a, b, True
    else:
        a = gen.expr(rng, drive.name_pool(rng, 2), rng.randint(0, 2), 0, 0.2)
        if a[0] == "id" and rng.random() < 0.5:
            a = ("mul", ("num", rng.choice(gen.NUMBERS)), a)
        d = drive.dims(a)
        if d is None:
            return None
        b = drive.same_dims(rng, tuple(sorted(d.items())))
        a = ("shift", a, shift_number(rng))
        while rng.random() < 0.45:
            a = ("shift", a, shift_number(rng))
            if rng.random() < 0.2:
                # These cancel.
                x = shift_number(rng) * 10**rng.choice([0, 6, 12])
                a = ("shift", ("shift", a, x), -x)
        if rng.random() < 0.4:
            b = ("shift", b, shift_number(rng))
    return a, b, False


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        made = make(rng)
        if made is None:
            continue
        a, b, interval = made
        if rng.random() < 0.5:
            a, b = b, a
        for fam in ("offset", "linear") if interval else ("offset",):
            if convlib.judge(obs, rng, S, a, b, fam) and interval:
                obs.count("intervals")
