"""Logarithmic units."""
from .. import convlib, drive, gen, model

PROPERTY = "C16"
RULE = (
    "Pairs of units of which at least one is logarithmic: lg/ln/lb of random references, logarithms of logarithms, "
    "database units (Bm, BZ, B_SPL, ...), prefixed and scaled and shifted logarithms, with reciprocal partners. "
    "Recorded: converted values. Oracle: 60-digit evaluation of the UDUNITS-2 meaning; deviations must equal the "
    "two listed findings exactly. Non-trivial: distinct pair with a judged value."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "products and powers of logarithms with dimensions have no meaning (UDUNITS-2 refuses them)"]
FLOORS = {"pairs": {"quick": 150, "thorough": 2800}, "values": {"quick": 250, "thorough": 5000}, "log_to_log": {"quick": 40, "thorough": 700},
          "nested": {"quick": 15, "thorough": 300}}
BATCH = 3
SHARD0 = 0.1
DB = ["Bm", "BZ", "B_SPL", "BV", "BW", "Bv", "BµV"]


FACTORS = gen.NUMBERS + [gen.Fraction(x) for x in ("43.05564166", "1e-30", "0.0123456789012", "1e12", "7.77777777777e5")] + [-n for n in gen.NUMBERS[1:5]]


def plan(ctx):
    return list(range(ctx.pick(4500, 50000)))


def reference(rng):
    k = rng.random()
    if k < 0.4:
        a = ("id", drive.random_name(rng))
    elif k < 0.7:
        a = ("mul", ("num", rng.choice([n for n in gen.NUMBERS if n > 0])), ("id", rng.choice(drive.common_names())))
    else:
        a = gen.expr(rng, drive.name_pool(rng, 2), 2, 0, 0)
    return a


def log_of(rng, d):
    fn = lambda: rng.choice(["lg", "ln", "lb", "log"])
    ref = drive.same_dims(rng, d)
    a = ("log", fn(), ref)
    if rng.random() < 0.3:
        a = ("log", fn(), a)
    return decorate(rng, a)


def decorate(rng, a):
    k = rng.random()
    if k < 0.08:
        return ("mul", ("num", rng.choice(FACTORS)), a)
    if k < 0.12:
        return ("mul", a, ("num", rng.choice(FACTORS)))
    if k < 0.2:
        return ("shift", a, rng.choice(gen.NUMBERS))
    return a


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        if rng.random() < 0.2:
            name = rng.choice(DB)
            if rng.random() < 0.2:
                name = rng.choice(["d", "c", "deci", "k"]) + name
            a = ("id", name)
            ma = drive.evaluate(a)
            if ma is None:
                continue
            d = ma.dims
        else:
            ref = reference(rng)
            dd = drive.dims(ref)
            if dd is None:
                continue
            d = tuple(sorted(dd.items()))
            if rng.random() < 0.06:
                ref = ("shift", ref, rng.choice(gen.NUMBERS))
            a = decorate(rng, ("log", rng.choice(["lg", "ln", "lb", "log"]), ref))
        target = model.inverse_dims(d) if rng.random() < 0.12 else d
        both = rng.random() < 0.35
        b = log_of(rng, target) if both else drive.same_dims(rng, target)
        if rng.random() < 0.1 and not both:
            b = ("shift", b, rng.choice(gen.NUMBERS))
        if rng.random() < 0.5:
            a, b = b, a
        if convlib.judge(obs, rng, S, a, b, "log", n=4, known=True):
            if both:
                obs.count("log_to_log")
            if nested(drive.evaluate(a)) or nested(drive.evaluate(b)):
                obs.count("nested")


def nested(u):
    return u.is_log and u.inner.is_log
