"""The shipped database: every unit is there, with the UDUNITS-2 meaning."""
from .. import core, drive, gen, model, refparse

PROPERTY = "C06"
RULE = (
    "Every name and symbol of the frozen UDUNITS-2 database, exhaustively. Recorded: the unit it resolves to, its "
    "dimensionality, and converted values to and from coherent basis units. Oracle: an independent reader of the "
    "frozen XML and an exact rational evaluation of the definitions. Non-trivial: every name."
)
ASSUMPTIONS = ["mon/ref/udunits2_combined.xml is the UDUNITS-2 database of this version", "relative tolerance 1e-12"]
FLOORS = {"names": 850, "values": {"quick": 2300, "thorough": 8000}, "offset_units": 25, "log_units": 7}
BATCH = 10
LISTED = set(core.known_findings(PROPERTY).get("digit-names", {}).get("inputs", ()))
VALUES = [1.0, 3.7, -41.5, 0.25, 1e4]


def plan(ctx):
    M = model.System.udunits2()
    return sorted({n for t in M.tables for n in t})


def base_ast(dims):
    ast = None
    for b, n in dims:
        p = ("id", b) if n == 1 else ("pow", ("id", b), n)
        ast = p if ast is None else ("mul", ast, p)
    return ast or ("num", model.Fraction(1))


def run_items(ctx, obs, items, shard):
    M = model.System.udunits2()
    S = drive.system()
    for name in items:
        obs.count("names")
        rng = ctx.rng(name)
        r = drive.outcome(S.unit, name)
        if not M.addressable(name):
            # The grammar does not read digits inside identifiers.
            if not right(r, M, name):
                if name in LISTED:
                    obs.finding("digit-names", name)
                else:
                    obs.violation(f"{name!r}: {r[1:]}", name=name)
            # The entry itself must still be there.
            r = drive.outcome(S.unit_by_name_or_symbol, name)
            try:
                M.lookup(name)
            except (model.Unknown, model.Undefined, refparse.Rejected):
                if r[0] == "ok" or r[1] == "UnresolvableUnitException":
                    obs.count("definition_uses_digit_names")
                    continue
        try:
            want = M.lookup(name)
        except (model.Unknown, model.Undefined, refparse.Rejected):
            if not right(r, M, name):
                obs.violation(f"{name!r}: {r[1:]}", name=name)
            continue
        if r[0] != "ok":
            obs.violation(f"database name {name!r} does not resolve: {r[2]!r}", name=name)
            continue
        unit = r[1]
        obs.case(name, f"{name} = {unit.expanded()}")
        if drive.dims_of(unit) != want.dims:
            obs.violation(f"{name!r} has dimensionality {drive.dims_of(unit)}, UDUNITS-2 {want.dims}", name=name)
            continue
        if unit.is_dimensionless() != (not want.dims):
            obs.violation(f"{name!r}: is_dimensionless() is {unit.is_dimensionless()}", name=name)
        if want.is_log:
            obs.count("log_units")
        elif want.offset:
            obs.count("offset_units")
        base = base_ast(want.dims)
        b = S.unit(drive.text(base, None))
        mb = drive.evaluate(base)
        for x, y, mx, my, how in ((unit, b, want, mb, f"{name} -> base"), (b, unit, mb, want, f"base -> {name}")):
            conv = drive.outcome(drive.py.Converter, x, y)
            if conv[0] != "ok":
                obs.violation(f"{how}: {conv[1]}: {conv[2]}", name=name)
                continue
            for v in [1.0] + rng.sample(VALUES[1:], ctx.pick(1, 4)):
                e = drive.expected(mx, my, v)
                if e is None:
                    continue
                got = drive.outcome(conv[1].convert, v)
                obs.count("values")
                if got[0] != "ok" or not drive.close(got[1], *e):
                    obs.violation(f"{how}: {v} gives {got[1]!r}, UDUNITS-2 {float(e[0])!r}", name=name, value=v)
                    break


def right(r, M, name):
    """unit(name) denotes the database entry after all."""
    e = M.exact(name)
    if r[0] != "ok":
        return False
    try:
        return drive.dims_of(r[1]) == M.unit_of(e).dims and str(r[1]) == name
    except (model.Unknown, model.Undefined, refparse.Rejected):
        return False
