"""Looking units up changes nothing."""
from .. import drive, gen, registry

PROPERTY = "C09"
RULE = (
    "Sets of unit texts (database units that depend on each other, prefixed, logarithmic, dated, unknown, malformed) "
    "are looked up in several random orders in fresh systems, with conversions, comparisons and failing lookups in "
    "between. Recorded: text, expansion, dimensionality or exception of every lookup, and converted values. Oracle: "
    "all must equal what a fresh system gives when asked for that text alone, also after further registrations. Non-trivial: distinct set of texts."
)
FLOORS = {"lookups": {"quick": 1500, "thorough": 15000}, "failing": {"quick": 130, "thorough": 1500},
          "orders": {"quick": 70, "thorough": 700}, "conversions": {"quick": 60, "thorough": 600},
          "registered_later": {"quick": 150, "thorough": 1500}}
BATCH = 1
#: Chains of definitions through several other units.
DEEP = ["acre_foot", "acre_feet", "horsepower", "btu", "therm", "light_year", "parsec", "knot", "psi", "poundal", "kWh",
        "dBZ", "BZ", "Bm", "degF", "°F", "degree_fahrenheit", "gallon", "fluid_ounce", "teaspoon", "acre", "rods",
        "fathom", "furlong", "mmHg", "inHg", "sverdrup", "langley", "curie", "eon", "fortnight", "sidereal_day", "radian",
        "turn", "arcsecond", "degree", "steradian", "lumen", "lux", "katal", "gauss", "maxwell", "statohm", "abfarad",
        "hours since 2000-01-01", "degC @ 10", "lg(re 2 mW)", "nosuch", "m s-", "kilokilom", "m (s @ 2000)", "lg(re nosuch)"]


def plan(ctx):
    return list(range(ctx.pick(120, 1200)))


def describe(S, t):
    r = drive.outcome(S.unit, t)
    if r[0] != "ok":
        return r[:2] + (str(r[2]),)
    u = r[1]
    return (type(u).__name__, str(u), u.expanded(), drive.dims_of(u), u.is_time_unit())


def convert(S, a, b, v):
    r = drive.outcome(lambda: drive.py.Converter(S.unit(a), S.unit(b)))
    if r[0] != "ok":
        return r[:2]
    return (str(r[1].expression), repr(drive.outcome(r[1].convert, v)[1]))


def run_items(ctx, obs, items, shard):
    for i in items:
        rng = ctx.rng(i)
        texts = [rng.choice(DEEP) for _ in range(5)]
        names = drive.name_pool(rng, 4)
        texts += [drive.text(gen.expr(rng, names, 2, 0.1, 0.1), rng) for _ in range(2)]
        texts += [rng.choice(drive.plain_names()) for _ in range(2)]
        texts += [drive.random_name(rng), rng.choice(["nosuchunit", "m s-", "kilokilom", rng.choice(names) + "zz"])]
        texts = sorted(set(texts))
        pairs = [tuple(rng.sample(texts, 2)) for _ in range(2)]
        alone = {t: describe(drive.fresh_system(), t) for t in texts}
        pair_alone = {p: convert(drive.fresh_system(), *p, 2.5) for p in pairs}
        obs.case(texts, texts)
        for _ in range(2):
            S = drive.fresh_system()
            todo = texts + rng.sample(texts, 3) + [("pair", p) for p in pairs]
            rng.shuffle(todo)
            obs.count("orders")
            before = []
            for t in todo:
                if isinstance(t, tuple):
                    got, want = convert(S, *t[1], 2.5), pair_alone[t[1]]
                    obs.count("conversions")
                else:
                    got, want = describe(S, t), alone[t]
                    obs.count("lookups")
                    if want[0] == "raised":
                        obs.count("failing")
                if got != want:
                    obs.violation(f"{t!r} gives {got} after {before}, but {want} in a fresh system",
                                  text=t, history=before)
                    return
                before.append(t)
        # The same on a small system of random definitions.
        ops = registry.random_history(rng, 10)
        keys = registry.keys(ops)
        systems = []
        for _ in range(3):
            R = registry.Real()
            for op in ops:
                R.apply(op)
            systems.append(R)
        order = keys[:]
        rng.shuffle(order)
        first = {k: registry.got(systems[0].S, k) for k in order}
        rng.shuffle(order)
        for k in order:
            obs.count("lookups")
            g = registry.got(systems[1].S, k)
            if g != first[k]:
                obs.violation(f"{k!r} denotes {g} or {first[k]}, depending on the order of lookups", history=ops)
                return
        # Nor on whether they came before or after later registrations.
        more = [op for op in registry.random_history(rng, 6)[1:] if op[0] == "unit"]
        for op in more:
            op[7] = True
            if op[1] == "named":
                op[1] = "lazy"
            for R in systems:
                R.apply(op)
        keys = sorted(set(keys) | set(registry.keys(more)))
        obs.count("registered_later", len(more))
        for k in keys:
            every = [registry.got(R.S, k) for R in systems]
            if not every[0] == every[1] == every[2]:
                obs.violation(f"{k!r} denotes {every[0]} or {every[2]} after further registrations, depending on the lookups before", history=ops + more)
                return
