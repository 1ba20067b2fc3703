"""Date units ("days since 2000-01-01")."""
from fractions import Fraction

from .. import drive, gen, model, refparse

PROPERTY = "C22"
RULE = (
    "Random time units (products, quotients, powers and prefixes that amount to time) and other units, with random "
    "references of the published grammar, at the outermost level and nested in every other construct, and as stored "
    "definitions. Recorded: type, str(), reference, unit, dimensionality, expansion, predicates, conversions both ways. "
    "Oracle: exact dimensions over the frozen database decide date, plain offset or refusal; the reference is the text "
    "as written. Non-trivial: distinct text."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "logarithms of time are left out"]
FLOORS = {"dates": {"quick": 500, "thorough": 8000}, "numeric_reference": 60, "nested": {"quick": 120, "thorough": 2000},
          "not_time": {"quick": 60, "thorough": 800}, "offsets": 12, "conversions_refused": {"quick": 800, "thorough": 10000},
          "stored": 30, "reread": {"quick": 300, "thorough": 4000}}
BATCH = 10
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(2200, 30000)))


OPS = [" since ", " @ ", " from ", " after ", " ref ", "@"]


def reference(rng):
    r = lambda a, b: rng.randint(a, b)
    two = lambda n: f"{r(0, n):02d}"
    date = rng.choice(["1900-01-01", "2000-1-1", "-4713-11-24", "0001-01", f"{r(1, 2400)}-{r(1, 12)}-{r(1, 28)}", f"{r(1000, 2400)}-{two(9) if False else f'{r(1, 12):02d}'}"])
    clock = rng.choice(["0:0", "12:30", "T12", "T12:30", " 12", f" {r(0, 23)}:{two(59)}", f"T{two(23)}:{two(59)}:{two(59)}",
                        " 23:59:59.999", " 12:30:60", "T6:00:00.5"])
    zone = rng.choice(["", "", " UTC", "UTC", " Z", "Z", " GMT", " +6", " -3:30", " +5:30", " 1011"])
    k = rng.random()
    if k < 0.2:
        return date
    if k < 0.55:
        return date + (clock if clock[0] in " T" else " " + clock) + zone
    if k < 0.7:
        return rng.choice(["2000", "1990", "-1", "+20", "0", "5", "12.5", "1e3", "-.5", "2.e1", "007"])
    if k < 0.85:
        return rng.choice(["19900101T190030", "20000101T12", "1990T1", "2000010112"]) + zone
    return rng.choice(["2000", "1990-01", "19900101", "199001021900"]) + rng.choice([" UTC", " +10", "Z", " 12:00", "TZ"])


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        ref = reference(rng)
        k = rng.random()
        if k < 0.7:
            ast = drive.same_dims(rng, drive.SECOND)
            if rng.random() < 0.3:
                # The rest cancels.
                x = rng.choice(drive.common_names())
                ast = ("div", ("mul", ast, ("id", x)), ("id", rng.choice(drive.catalogue().get(drive.lookup(x).dims, [x]))))
        else:
            names = drive.name_pool(rng, 3)
            ast = gen.expr(rng, names, rng.randint(0, 2), 0, 0)
        unit_text = drive.text(ast, rng)
        text = unit_text + rng.choice(OPS) + ref
        whole = drive.outcome(refparse.parse, text)
        if whole[0] != "ok" or whole[1][0] not in ("date", "shift"):
            continue
        whole = whole[1]
        if refparse.parse(unit_text) != whole[1]:
            continue  # for example "m-2@..." read differently
        kind = drive.classify(whole)
        if kind is None:
            continue
        if kind == "date":
            date(obs, rng, S, unit_text, ref, text)
            nested(obs, rng, S, text)
            if rng.random() < 0.3:
                stored(obs, rng, text)
        elif kind == "nested":
            obs.count("not_time")
            refused(obs, S, text)
        else:
            obs.count("offsets")
            u = drive.outcome(S.unit, text)
            if u[0] != "ok" or type(u[1]) is not drive.py.Unit:
                obs.violation(f"{text!r} is {fate_of(u)}, expected a plain offset unit", text=text)


def fate_of(r):
    return type(r[1]).__name__ if r[0] == "ok" else f"{r[1]}: {r[2]}"


def date(obs, rng, S, unit_text, ref, text):
    py = drive.py
    obs.count("dates")
    if refparse.parse(text)[0] == "shift":
        obs.count("numeric_reference")
    obs.case(text)
    r = drive.outcome(S.unit, text)
    if r[0] != "ok" or not isinstance(r[1], py.DateUnit):
        obs.violation(f"{text!r} is {fate_of(r)}, expected a date unit", text=text)
        return
    d, plain = r[1], S.unit(unit_text)
    say = lambda what: obs.violation(f"{text!r}: {what}", text=text)
    if str(d.reference_date) != ref:
        say(f"reference {str(d.reference_date)!r}, expected {ref!r}")
    if str(d) != f"{plain} since {ref}":
        say(f"str is {str(d)!r}")
    if not isinstance(d.unit, py.Unit) or str(d.unit) != str(plain) or not (d.unit == plain):
        say(f"unit is {d.unit}")
    if drive.dims_of(d) != drive.SECOND or drive.dims_of(d.unit) != drive.SECOND:
        say(f"dimensionality {d.dimensionality()}")
    if d.is_dimensionless() is not False or d.is_time_unit() is not True or not plain.is_time_unit():
        say("predicates")
    if d.expanded() != f"{plain.expanded()} since {ref}":
        say(f"expanded is {d.expanded()!r}")
    if d == plain or plain == d or not (d != plain) or not (plain != d):
        say(f"equal to the plain unit {unit_text!r}")
    again = S.unit(text)
    if (str(again), again.expanded()) != (str(d), d.expanded()):
        say("not repeatable")
    for other in (plain, S.unit("s"), S.unit("m"), again, d):
        if d.is_convertible_to(other) is not False or other.is_convertible_to(d) is not False:
            say(f"claims to be convertible with {other}")
        for a, b in ((d, other), (other, d)):
            c = drive.outcome(py.Converter, a, b)
            obs.count("conversions_refused")
            if c[0] == "ok" or c[1] != "IncompatibleUnitsError":
                say(f"Converter({a}, {b}) gives {fate_of(c)}")
    # The canonical text and the expansion are units themselves.
    for t in (str(d), d.expanded()):
        back = drive.outcome(S.unit, t)
        if back[0] != "ok" or not isinstance(back[1], py.DateUnit):
            say(f"{t!r} does not read back: {fate_of(back)}")
        elif str(back[1].reference_date) != ref or back[1].expanded() != d.expanded():
            say(f"{t!r} reads back as {back[1]}")
        else:
            obs.count("reread")


def nested(obs, rng, S, text):
    forms = ["({}) m", "m ({})", "({})^2", "({})/s", "s/({})", "lg(re {})", "({}) @ 3", "({}) since 2000-01-01", "lg(re ({}) 2)",
             "3 ({})", "1/({})", "(({})^1)·kg", "ln(re s ({}))", "m·(1/({}))"]
    for f in rng.sample(forms, 2):
        t = f.format(text)
        p = drive.outcome(refparse.parse, t)
        if p[0] == "ok" and drive.classify(p[1]) == "nested":
            obs.count("nested")
            refused(obs, S, t)


def refused(obs, S, t):
    obs.case(t)
    r = drive.outcome(S.unit, t)
    if r[0] == "ok" or r[1] != "ValueError":
        obs.violation(f"{t!r}: a date inside a unit gives {fate_of(r)} instead of ValueError", text=t)


def stored(obs, rng, text):
    """A date cannot be the definition of a unit."""
    from pyudunits2._unit_reference import Name, UnitReference
    from pyudunits2._unit_system import LazilyDefinedUnit

    S = small()
    name = "zq" + "".join(rng.choice("abcdef") for _ in range(8))
    definition = text
    known = drive.outcome(S.unit, text)
    if known[0] != "ok":
        return  # uses units the small system does not have
    obs.count("stored")
    S.add_unit(LazilyDefinedUnit(S, definition, UnitReference(name=Name(name))))
    for t in (name, f"2 {name}", f"{name} since 2000", f"kilo{name}"):
        r = drive.outcome(S.unit, t)
        if r[0] == "ok" or not issubclass(type(r[2]), ValueError):
            obs.violation(f"{t!r} with {name} = {definition!r} gives {fate_of(r)}", text=text)


_SMALL = []


def small():
    if not _SMALL:
        _SMALL.append(drive.fresh_system())
    return _SMALL[0]
