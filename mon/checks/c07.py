"""Names are looked up exactly first, then with exactly one prefix."""
import string

from .. import drive, model, refparse

PROPERTY = "C07"
RULE = (
    "All prefixes (names and symbols) x random database units, all ambiguous splits, doubled prefixes, bare prefixes, "
    "misspellings and random words. Recorded: what the lookup resolves to (dimensionality, converted value) or the "
    "exception. Oracle: an independent resolver over the frozen database: exact name, else one prefix (name prefixes "
    "before symbol prefixes, longest first) times an exact name, else UnresolvableUnitException. Non-trivial: "
    "distinct text."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "relative tolerance 1e-12"]
FLOORS = {"prefixed": {"quick": 900, "thorough": 9000}, "unknown": {"quick": 300, "thorough": 5000},
          "exact_wins": 20, "ambiguous": 2, "values": {"quick": 200, "thorough": 4000}, "prefixes_seen": 42, "doubled": 3000}
BATCH = 10


def plan(ctx):
    M = model.System.udunits2()
    names = sorted({n for t in M.tables for n in t})
    items = []
    both = [(p, "name") for p in sorted(M.pnames)] + [(p, "symbol") for p in sorted(M.psymbols)]
    rng = ctx.rng("plan")
    for p, kind in both:
        items.append(("bare", p))
        for n in rng.sample(names, ctx.pick(22, 300)):
            items.append(("pre", p, n))
        # Where a prefixed spelling is also a name of its own.
        for n in names:
            if M.exact(p + n) is not None:
                items.append(("exact", p + n))
            elif len(M.candidates(p + n)) > 1:
                items.append(("amb", p + n))
    for p, _ in both:
        items.append(("double", p))
    for i in range(ctx.pick(400, 6000)):
        items.append(("rand", i))
    return items


def run_items(ctx, obs, items, shard):
    M = model.System.udunits2()
    S = drive.system()
    names = sorted({n for t in M.tables for n in t})
    pres = sorted(set(M.pnames) | set(M.psymbols))
    for item in items:
        rng = ctx.rng(item)
        kind = item[0]
        if kind == "double":
            for p in pres:
                for n in [rng.choice(["m", "s", "g", "meter", "W"]), rng.choice(names)]:
                    obs.count("doubled")
                    judge(ctx, obs, S, M, item[1] + p + n, "rand", rng)
            continue
        if kind == "bare":
            obs.count("prefixes_seen")
            text = item[1]
        elif kind == "pre":
            text = item[1] + item[2]
        elif kind in ("exact", "amb"):
            text = item[1]
        else:
            k = rng.random()
            if k < 0.3:
                text = rng.choice(pres) + rng.choice(pres) + rng.choice(names)
            elif k < 0.5:
                text = rng.choice(names) + rng.choice(["s", "es", "x", "_", rng.choice(pres)])
            elif k < 0.7:
                n = rng.choice(names)
                j = rng.randrange(len(n))
                text = n[:j] + rng.choice(string.ascii_letters) + n[j + 1:]
            elif k < 0.85:
                text = rng.choice(names).swapcase()
            else:
                text = "".join(rng.choice(string.ascii_letters) for _ in range(rng.randint(1, 7)))
            if rng.random() < 0.25:
                text = rng.choice(pres) + text
        judge(ctx, obs, S, M, text, kind, rng)
        if rng.random() < 0.35:
            # Another name that is easily taken for the same.
            other = rng.choice([text.swapcase(), text.lower(), text.casefold(), text.replace("_", ""), text.replace("µ", "u"), text.rstrip("s"), text + "s", text[::-1], text.upper(), text.capitalize()])
            if other and other != text:
                judge(ctx, obs, S, M, other, "rand", rng)


def judge(ctx, obs, S, M, text, kind, rng):
    by_text = M.addressable(text)
    r = drive.outcome(S.unit_by_name_or_symbol, text)
    try:
        want = M.lookup(text)
    except model.Unknown:
        want = None
    except (model.Undefined, refparse.Rejected):
        return
    if M.exact(text) is None and M.candidates(text):
        obs.count("prefixed")
    if kind == "amb":
        obs.count("ambiguous")
    if kind == "exact":
        obs.count("exact_wins")
    if want is None:
        if r[0] == "ok":
            # A database entry with an unreadable definition has no meaning here.
            obs.violation(f"{text!r} resolves to {r[1]}, but is no unit of the database", text=text)
        elif r[1] != "UnresolvableUnitException":
            obs.violation(f"{text!r}: {r[1]} instead of UnresolvableUnitException", text=text)
        elif by_text:
            obs.count("unknown")
            r2 = drive.outcome(S.unit, text)
            if r2[:2] != r[:2]:
                obs.violation(f"unit({text!r}) gives {r2[1:]}, the lookup {r[1:]}", text=text)
            obs.case(text, f"{text} unknown")
        return
    if r[0] != "ok":
        obs.violation(f"{text!r} does not resolve ({r[1]}: {r[2]}), expected {want.dims}", text=text)
        return
    units = [r[1]]
    if by_text:
        r2 = drive.outcome(S.unit, text)
        if r2[0] != "ok":
            obs.violation(f"unit({text!r}): {r2[1:]}", text=text)
            return
        units.append(r2[1])
    obs.case(text, f"{text} = {units[0].expanded()}")
    for u in units:
        if drive.dims_of(u) != want.dims:
            obs.violation(f"{text!r} has dimensionality {drive.dims_of(u)}, expected {want.dims}", text=text)
            return
    if want.is_log or want.angles and not want.dims and rng.random() < 0.5:
        if want.is_log and want.has_factor():
            obs.count("scaled log (judged by C16)")
        return
    if kind == "amb" or rng.random() < ctx.pick(0.3, 0.6):
        from .c06 import base_ast

        base = base_ast(want.dims)
        conv = drive.outcome(drive.py.Converter, units[-1], S.unit(drive.text(base, None)))
        if conv[0] != "ok":
            obs.violation(f"{text!r} to {drive.text(base, None)!r}: {conv[1]}: {conv[2]}", text=text)
            return
        e = drive.expected(want, drive.evaluate(base), 2.5)
        if e is None:
            return
        got = drive.outcome(conv[1].convert, 2.5)
        obs.count("values")
        if got[0] != "ok" or not drive.close(got[1], *e):
            obs.violation(f"2.5 {text} is {got[1]!r} {drive.text(base, None)}, expected {float(e[0])!r}", text=text)
