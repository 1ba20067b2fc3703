"""Linear conversions are exact to rounding."""
from fractions import Fraction

from .. import convlib, drive, gen

PROPERTY = "C13"
RULE = (
    "Pairs of random linear units with equal dimensions (products, quotients, powers, prefixes, plurals, numeric "
    "factors, dimensionless bases such as radian). Recorded: converted values. Oracle: exact rational evaluation of "
    "the frozen database definitions, relative tolerance 1e-12. Non-trivial: distinct pair with a judged value."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "magnitudes within 1e-250..1e250"]
FLOORS = {"pairs": {"quick": 280, "thorough": 5000}, "values": {"quick": 850, "thorough": 15000}, "lookalikes": 80, "beyond_floats": {"quick": 80, "thorough": 1000}}
BATCH = 4
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(4500, 60000)))


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        a = gen.expr(rng, drive.name_pool(rng, rng.choice([1, 2, 3])), rng.randint(1, 3), 0, 0.03) if rng.random() < 0.94 else drive.wide(rng)
        d = drive.dims(a)
        if d is None:
            continue
        b = drive.same_dims(rng, tuple(sorted(d.items())))
        if rng.random() < 0.5:
            a, b = b, a
        if i % 4 == 0:
            a, b = drive.lookalike(rng)
            obs.count("lookalikes")
            if rng.random() < 0.3:
                c = ("id", rng.choice(drive.common_names()))
                a, b = ("mul", a, c), ("mul", b, c)
        if rng.random() < 0.05:
            beyond_floats(obs, rng, S, a, b)
        convlib.judge(obs, rng, S, a, b, "linear")


def beyond_floats(obs, rng, S, a, b):
    """Both factors are far beyond the range of floats, but not their ratio."""
    n = rng.choice([1, -1]) * rng.randint(300, 1500)
    x, y = (Fraction(rng.choice([1, 7, 25])) * Fraction(10) ** rng.randint(-3, 3) for _ in range(2))
    ma, mb = (convlib.defined(("mul", ("num", q), u)) for q, u in ((x, a), (y, b)))
    if ma is None or mb is None or convlib.family(ma, mb) != "linear" or not ma.scale or not mb.scale:
        return
    texts = []
    for q, u in ((x, a), (y, b)):
        q = ("num", q * Fraction(10) ** n)
        texts.append(drive.text(rng.choice([("mul", q, u), ("mul", u, q)]), rng))
    us = [drive.outcome(S.unit, t) for t in texts]
    if any(u[0] != "ok" for u in us):
        obs.violation(f"{texts} raise {[u[1:] for u in us if u[0] != 'ok']}", units=texts)
        return
    obs.count("beyond_floats", convlib.judge_units(obs, rng, us[0][1], us[1][1], ma, mb, *texts))
