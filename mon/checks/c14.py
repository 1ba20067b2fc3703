"""Reciprocal conversions."""
from .. import convlib, drive, gen, model

PROPERTY = "C14"
RULE = (
    "Pairs of random linear or offset units with exactly inverse, non-empty dimensions. Recorded: converted values. "
    "Oracle: 1/x through exact rational scale factors of the frozen database, relative tolerance 1e-12. Non-trivial: "
    "distinct pair with a judged value."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "zero, which has no reciprocal, is not judged"]
FLOORS = {"pairs": {"quick": 180, "thorough": 3500}, "values": {"quick": 500, "thorough": 10000}}
BATCH = 4
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(4500, 60000)))


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        a = gen.expr(rng, drive.name_pool(rng, rng.choice([1, 2, 3])), rng.randint(0, 3), 0, 0.05) if rng.random() < 0.9 else drive.wide(rng)
        d = drive.dims(a)
        if not d:
            continue
        inv = model.inverse_dims(tuple(sorted(d.items())))
        k = rng.random()
        if k < 0.15:
            b = ("pow", a, -1)
        elif k < 0.3:
            b = ("div", ("num", rng.choice(gen.NUMBERS)), drive.same_dims(rng, model.inverse_dims(inv)))
        else:
            b = drive.same_dims(rng, inv)
        if rng.random() < 0.1:
            b = ("shift", b, rng.choice(gen.NUMBERS))
        if rng.random() < 0.5:
            a, b = b, a
        convlib.judge(obs, rng, S, a, b, "reciprocal")
