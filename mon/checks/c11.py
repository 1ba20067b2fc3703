"""Dimensionality follows the algebra of products, quotients and powers."""
from .. import drive, gen, model, refparse, registry

PROPERTY = "C11"
RULE = (
    "Random expressions over database units (products, quotients, positive, negative and zero powers, cancellations, "
    "prefixes, offsets, logarithms, dates). Recorded: dimensionality(), its mapping interface, is_dimensionless(), "
    "is_time_unit(). Oracle: exponent arithmetic over the frozen database, and additivity between the recorded "
    "answers of the parts and the whole. Non-trivial: at least one operator."
)
FLOORS = {"judged": {"quick": 1500, "thorough": 25000}, "additive": {"quick": 500, "thorough": 8000}, "cancelled": 60,
          "dimensionless": 60, "time": 60, "date": 30, "many": {"quick": 60, "thorough": 1000},
          "registered": {"quick": 200, "thorough": 3000}, "registered_time": {"quick": 10, "thorough": 200}}
BATCH = 8
SHARD0 = 0.08


def plan(ctx):
    return list(range(ctx.pick(3600, 50000)))


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        names = drive.name_pool(rng, rng.choice([2, 3, 4]))
        if rng.random() < 0.3:
            names += ["s", "hour", "Hz"]
        a = gen.expr(rng, names, rng.randint(1, 3), 0.06, 0.06, zero=True)
        if rng.random() < 0.06:
            a = drive.wide(rng)
            if rng.random() < 0.4:
                b = ("id", rng.choice(names))
                a = ("mul", a, ("pow", b, rng.choice([-1, 1]) * rng.randint(4, 12)))
            if rng.random() < 0.5:
                a = (rng.choice([("log", rng.choice(["lg", "ln", "lb", "log"]), a), ("shift", a, gen.NUMBERS[0]),
                                 ("pow", a, rng.choice([2, -2, 3, 5])), ("div", ("id", "m"), a)]))
        elif rng.random() < 0.05:
            b = ("pow", ("id", rng.choice(names)), rng.choice([-1, 1]) * (rng.choice([2**31, 2**53, 2**63, 10**17, 10**25]) + rng.randint(-1, 2)))
            a = rng.choice([("mul", a, b), ("div", a, b), ("div", ("pow", b, rng.choice([2, -1, 3])), a)])
            obs.count("huge_exponents")
        k = rng.random()
        if i % 20 == 0:
            many(obs, rng, S)
            registered(obs, rng)
        if k < 0.1:
            a = ("div", ("mul", a, gen.expr(rng, names, 1, 0, 0)), a)
        elif k < 0.16:
            a = ("shift", a, gen.NUMBERS[0])
        elif k < 0.24:
            a = drive.same_dims(rng, drive.SECOND)
            if k < 0.2:
                a = ("shift", a, gen.NUMBERS[0])
        one(obs, rng, S, a, drive.text(a, rng))
        if i % 3 == 0:
            b = gen.expr(rng, names, 2, 0, 0)
            parts(obs, rng, S, a, b)


def one(obs, rng, S, ast, text):
    want = drive.dims(ast)
    kind = drive.classify(ast)
    if want is None or kind in (None, "nested"):
        return None
    r = drive.outcome(S.unit, text)
    if r[0] != "ok":
        obs.violation(f"unit({text!r}) raised {r[1]}: {r[2]}", text=text)
        return None
    u = r[1]
    obs.count("judged")
    d = u.dimensionality()
    got = {str(b): n for b, n in d.items()}
    if kind == "date":
        obs.count("date")
    if got != want or 0 in got.values() or not all(isinstance(n, int) for n in got.values()):
        obs.violation(f"{text!r} has dimensionality {got}, expected {want}", text=text)
        return None
    if not (d == want) or (d == (want | {"metres": 1})) or len(d) != len(want) or sorted(map(str, d.keys())) != sorted(want) \
            or sorted(d.values()) != sorted(want.values()) or {str(b): n for b, n in d.inverted().items()} != {b: -n for b, n in want.items()}:
        obs.violation(f"{text!r}: inconsistent mapping {d!r}", text=text)
    if kind == "unit" and u.is_dimensionless() is not (not want):
        obs.violation(f"{text!r}: is_dimensionless() is {u.is_dimensionless()} for {want}", text=text)
    time = want == {"second": 1}
    if u.is_time_unit() is not time:
        obs.violation(f"{text!r}: is_time_unit() is {u.is_time_unit()} for {want}", text=text)
    obs.count("time" if time else "dimensionless" if not want else "other")
    if not want and drive.kinds(ast) & {"mul", "div"}:
        obs.count("cancelled")
    if len(ast) > 2:
        obs.case(text, f"{text} : {want}")
    return u


def many(obs, rng, S):
    """Most basis units at once, some of which cancel."""
    M = model.System.udunits2()
    names = [e.basis for e in M.entries if e.definition is None]
    names = rng.sample(names, rng.randint(5, len(names)))
    ast = ("num", gen.NUMBERS[0])
    for name in names:
        p = ("id", name)
        ast = (rng.choice(["mul", "div"]), ast, p if rng.random() < 0.6 else ("pow", p, rng.choice([2, 3, -1])))
    for name in rng.sample(names, rng.randint(1, 4)):
        ast = (rng.choice(["mul", "div"]), ast, ("id", name))
    obs.count("many")
    one(obs, rng, S, ast, drive.text(ast, rng))


def registered(obs, rng):
    """Units of a random system, in which any basis unit may be one of time."""
    ops = registry.random_history(rng, rng.randint(6, 12))
    M, R = registry.Model(), registry.Real(times=True)
    for n, op in enumerate(ops):
        if registry.apply_model(M, op, n) is not (R.apply(op)[0] == "ok"):
            return  # C08 judges registration
    known = [k for k in registry.keys(ops) if M.addressable(k) and len(registry.want(M, k)) == 2]
    for _ in range(6):
        names = rng.sample(known, min(2, len(known)))
        if not names:
            return
        text = drive.text(rng.choice([gen.expr(rng, names, rng.randint(0, 2), 0, 0.1), ("id", names[0])]), rng)
        try:
            want = dict(M.unit(text).dims)
        except (model.Unknown, model.Undefined, refparse.Rejected):
            continue
        r = drive.outcome(R.S.unit, text)
        if r[0] != "ok":
            continue
        u = r[1]
        got = dict(drive.dims_of(u))
        time = list(want.values()) == [1] and registry.is_time(*want)
        obs.count("registered")
        obs.count("registered_time", time)
        if got != want or u.is_dimensionless() is not (not want) or u.is_time_unit() is not time:
            obs.violation(f"{text!r} has dimensionality {got}, expected {want}; is_dimensionless {u.is_dimensionless()}, "
                          f"is_time_unit {u.is_time_unit()}, expected {time}", text=text, history=ops)


def parts(obs, rng, S, a, b):
    """The whole against the parts, as recorded."""
    if drive.classify(a) != "unit" or drive.classify(b) != "unit":
        return
    ta, tb = drive.text(a, None), drive.text(b, None)
    ua, ub = S.unit(ta), S.unit(tb)
    da, db = (dict(drive.dims_of(u)) for u in (ua, ub))
    n = rng.choice([2, 3, -1, -2, 0, 5])
    for text, sign in ((f"({ta})·({tb})", 1), (f"({ta})/({tb})", -1), (f"({ta})^{n}", None)):
        d = drive.dims_of(S.unit(text))
        if sign is None:
            want = {x: m * n for x, m in da.items() if m * n}
        else:
            want = dict(da)
            for x, m in db.items():
                want[x] = want.get(x, 0) + sign * m
            want = {x: m for x, m in want.items() if m}
        obs.count("additive")
        if dict(d) != want:
            obs.violation(f"{text!r} has dimensionality {dict(d)}, its parts {da} and {db}", text=text)
    if (ua.dimensionality() == ub.dimensionality()) is not (da == db):
        obs.violation(f"dimensionality of {ta!r} and {tb!r}: == gives {ua.dimensionality() == ub.dimensionality()} for {da}, {db}")
