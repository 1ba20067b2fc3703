"""Expansion to basis units."""
from fractions import Fraction

from .. import drive, gen, model, refparse, registry

PROPERTY = "C21"
RULE = (
    "Random expressions over database units, every database unit, and expressions over random unit systems. Recorded: expanded(), its re-reading, str() of "
    "the unit before and after. Oracle: only basis units, numbers and operators remain; its exact rational meaning "
    "equals that of the original text over the frozen database; the re-read unit equals the unit and expands to the "
    "same text. Non-trivial: distinct text."
)
ASSUMPTIONS = ["the frozen UDUNITS-2 database", "names with digits inside are left out"]
FLOORS = {"expanded": {"quick": 1300, "thorough": 15000}, "exact": {"quick": 1200, "thorough": 13000}, "reread": {"quick": 400, "thorough": 5000},
          "equal": {"quick": 50, "thorough": 500}, "system_expanded": {"quick": 250, "thorough": 4000}, "log": 30, "offset": 30}
BATCH = 6
SHARD0 = 0.1


def plan(ctx):
    M = model.System.udunits2()
    names = sorted({n for t in M.tables for n in t if M.addressable(n)})
    return [("db", n) for n in names] + [("rand", i) for i in range(ctx.pick(6000, 80000))] + [("system", i) for i in range(ctx.pick(48, 900))]


def run_items(ctx, obs, items, shard):
    M = model.System.udunits2()
    S = drive.system()
    bases = {e.basis: e for e in M.entries if e.definition is None}

    def basis(name):
        if name not in bases:
            raise model.Unknown(name)
        return M.unit_of(bases[name])

    for item in items:
        rng = ctx.rng(item)
        if item[0] == "system":
            system(obs, rng)
            continue
        if item[0] == "db":
            ast = ("id", item[1])
            text = item[1]
        else:
            names = drive.name_pool(rng, 3)
            if rng.random() < 0.25:
                names += [rng.choice(["degC", "degF", "Bm", "°F"])]
            ast = gen.expr(rng, names, rng.randint(1, 3), 0.06, 0.06, zero=True)
            text = drive.text(ast, rng)
        kind = drive.classify(ast)
        if kind not in ("unit", "date"):
            continue
        u = S.unit(text)
        before = str(u)
        e = u.expanded()
        obs.count("expanded")
        obs.case(text, f"{text} = {e}")
        back = drive.outcome(refparse.parse, e)
        if back[0] != "ok":
            if " @ " in e and back[1] == "Rejected" and set(drive.DATE_WORDS) & set(e.replace("·", " ").split()):
                continue
            obs.violation(f"expansion {e!r} of {text!r} is not a unit text", text=text)
            continue
        left = set(identifiers(back[1])) - set(bases)
        if left:
            obs.violation(f"expansion {e!r} of {text!r} still contains {sorted(left)}", text=text)
            continue
        if kind == "unit":
            want = drive.evaluate(ast)
            try:
                got = model.evaluate(back[1], basis)
            except model.Undefined:
                got = None
            if want is not None and got is not None:
                obs.count("exact")
                obs.count("log" if want.is_log else "offset" if want.offset else "linear")
                if got != want:
                    obs.violation(f"{text!r} expands to {e!r}, which means {got}, not {want}", text=text)
                    continue
            elif want is not None and not want.is_log:
                obs.violation(f"{text!r} expands to {e!r}, which has no meaning", text=text)
                continue
        if rng.random() < 0.5:
            r = drive.outcome(S.unit, e)
            if r[0] != "ok":
                obs.violation(f"expansion {e!r} of {text!r} is not accepted: {r[2]!r}", text=text)
                continue
            obs.count("reread")
            v = r[1]
            if v.expanded() != e:
                obs.violation(f"expansion is not stable: {e!r} -> {v.expanded()!r}", text=text)
            if drive.dims_of(v) != drive.dims_of(u) or type(v) is not type(u) and kind == "date":
                obs.violation(f"{text!r} and its expansion {e!r} differ: {drive.dims_of(u)} / {drive.dims_of(v)}", text=text)
            if kind == "unit" and rng.random() < 0.3:
                obs.count("equal")
                if not (u == v and v == u):
                    obs.violation(f"{text!r} is not equal to its expansion {e!r}", text=text)
        if str(u) != before or u.expanded() != e:
            obs.violation(f"expanding {text!r} changed it", text=text)


def system(obs, rng):
    """Units of another unit system, whose names may be any words."""
    ops = registry.random_history(rng, rng.randint(6, 14))
    M, R = registry.Model(), registry.Real()
    for n, op in enumerate(ops):
        if registry.apply_model(M, op, n) is not (R.apply(op)[0] == "ok"):
            return  # C08 judges registration
    obs.count("systems")
    obs.case(repr(ops), f"a system of {len(ops)} registrations")
    one = lambda n: model.Lin(Fraction(1), ((n, 1),))
    known = [k for k in registry.keys(ops) if len(registry.want(M, k)) == 2 and M.addressable(k)]
    if not known:
        return
    for _ in range(12):
        names = [rng.choice([k for k in known if k in registry.WORDS] or known)] + [rng.choice(known) for _ in range(2)]
        ast = gen.expr(rng, names, rng.randint(0, 2), 0.1, 0.1)
        text = drive.text(ast, rng)
        try:
            want = M.unit(text)
        except (model.Undefined, model.Unknown, refparse.Rejected):
            continue
        r = drive.outcome(lambda: R.S.unit(text).expanded())
        obs.count("system_expanded")
        if r[0] != "ok":
            obs.violation(f"expanding {text!r} raises {r[1]}: {r[2]}", operations=ops)
            return
        back = drive.outcome(refparse.parse, r[1])
        try:
            got = model.evaluate(back[1], one) if back[0] == "ok" else None
        except (model.Undefined, model.Unknown):
            got = None
        if got is None and want.is_log:
            continue  # e.g. lg(re m) a/a expands to (lg(re m) a)/a
        if got != want and not (back[0] != "ok" and " @ " in r[1]):
            obs.violation(f"{text!r} expands to {r[1]!r}, which means {got}, not {want}", operations=ops)
            return


def identifiers(ast):
    if ast[0] == "id":
        yield ast[1]
    for p in ast[1:]:
        if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge":
            yield from identifiers(p)
