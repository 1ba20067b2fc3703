"""Registering units: duplicates, replacement, precedence."""
from .. import drive, registry

PROPERTY = "C08"
RULE = (
    "Random histories of add_prefix/add_unit (basis, defined and lazily defined units; colliding names, plurals, "
    "symbols and aliases; with and without replace) on two interleaved systems, with lookups in between on one of two "
    "replicas. Recorded: outcome of every registration, and what every name then denotes, and conversions and comparisons between names. Oracle: a sequential "
    "dictionary model. Non-trivial: distinct history with at least one refused or replacing registration."
)
FLOORS = {"histories": {"quick": 120, "thorough": 2500}, "refused": {"quick": 200, "thorough": 3000},
          "replaced": {"quick": 200, "thorough": 3000}, "conversions": {"quick": 200, "thorough": 3000}, "lookups": {"quick": 20000, "thorough": 300000}}
BATCH = 1


def plan(ctx):
    return list(range(ctx.pick(400, 6000)))


def run_items(ctx, obs, items, shard):
    for i in items:
        rng = ctx.rng(i)
        sides = []
        for _ in range(2):
            ops = registry.random_history(rng, rng.randint(5, 18), again=0.08)
            sides.append({"ops": ops, "M": registry.Model(), "R": [registry.Real(), registry.Real()], "done": 0})
        history(obs, rng, sides)


def history(obs, rng, sides):
    obs.count("histories")
    interesting = False
    log = []
    while True:
        todo = [s for s in sides if s["done"] < len(s["ops"])]
        if not todo:
            break
        s = rng.choice(todo)
        op = s["ops"][s["done"]]
        s["done"] += 1
        log.append((sides.index(s), op))
        # A defined unit needs its dependency now.
        ok = registry.apply_model(s["M"], op, s["done"])
        obs.count("accepted" if ok else "refused")
        interesting |= not ok
        if op[0] == "unit" and op[7]:
            obs.count("replaced")
            interesting = True
        for R in s["R"]:
            r = R.apply(op)
            if ok and r[0] != "ok":
                obs.violation(f"registration {op} refused: {r[1]}: {r[2]}", history=log)
                return
            if not ok and (r[0] == "ok" or r[1] != "ValueError"):
                obs.violation(f"duplicate registration {op} gave {r[:2]} instead of ValueError", history=log)
                return
        # Look things up in the first replica only.
        every = registry.keys(s["ops"])
        sample = rng.sample(every, min(len(every), 25)) + ([x for x in op[4] + op[6] + [y for y in (op[3] or []) if y]] if op[0] == "unit" else [])
        if not compare(obs, s, s["R"][0], sample, log, rng):
            return
    for s in sides:
        for R in s["R"]:
            if not compare(obs, s, R, registry.keys(s["ops"]), log, rng):
                return
    # The two systems share names, which mean different things.
    pairs = [rng.sample(registry.keys(s["ops"])[:60], 2) for s in sides for _ in range(12)]
    budget = 8
    for a, b in pairs:
        for s in sides:
            budget -= relate(obs, s, rng.choice(s["R"]), a, b, log)
        if budget <= 0:
            break
    if interesting:
        obs.case(repr(log), log[:4])


def relate(obs, s, R, a, b, log):
    """What units of one system have to do with each other."""
    wa, wb = registry.want(s["M"], a), registry.want(s["M"], b)
    if len(wa) < 2 or len(wb) < 2:
        return 0
    u, v = R.S.unit(a), R.S.unit(b)
    obs.count("related")
    if (u == v) is not (wa == wb):
        obs.violation(f"{a!r} == {b!r} is {u == v}, they denote {wa} and {wb}", history=log)
    same = wa[1] == wb[1]
    if u.is_convertible_to(v) is not (same or wa[1] == registry.model.inverse_dims(wb[1])):
        obs.violation(f"{a!r} convertible to {b!r}: {u.is_convertible_to(v)}, they denote {wa} and {wb}", history=log)
    if not same:
        return 0
    r = drive.outcome(lambda: drive.py.Converter(u, v).convert(2.0))
    obs.count("conversions")
    want = 2 * wa[0] / wb[0]
    if r[0] != "ok" or abs(r[1] - want) > 1e-12 * abs(want):
        obs.violation(f"2.0 {a!r} is {r[:2]} {b!r}, they denote {wa} and {wb}", history=log)
    return 1


def compare(obs, s, R, sample, log, rng):
    for key in sample:
        obs.count("lookups")
        w = registry.want(s["M"], key)
        g = registry.got(R.S, key, by_text=rng.random() < 0.2)
        if g != w:
            obs.violation(f"after {len(log)} registrations {key!r} denotes {g}, expected {w}", history=log, key=key)
            return False
    return True
