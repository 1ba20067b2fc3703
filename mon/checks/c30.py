"""Copies of units and systems answer like the originals."""
import copy
import json
import os
import pickle
import subprocess
import sys

from .. import core, drive, gen, model, registry

PROPERTY = "C30"
RULE = (
    "Random units (products, prefixes, offsets, logarithms, dates, basis units) and random unit systems are copied by "
    "copy.copy, copy.deepcopy and pickle (protocols 2 to 5), before and after they were used, also several together, also "
    "into another process with another hash seed. Recorded: kind, text, expansion, dimensionality, predicates, comparison "
    "and conversions of the copy with the original and with third units; lookups in copied systems, also after either is "
    "modified. Oracle: the answers of the original before it was copied. Non-trivial: distinct unit and way of copying."
)
ASSUMPTIONS = ["converters hold generated functions and are copied, not pickled", "both processes run the same tree"]
WAITS = True
FLOORS = {"copies": {"quick": 2500, "thorough": 30000}, "conversions": {"quick": 600, "thorough": 8000}, "mixed": {"quick": 300, "thorough": 4000},
          "systems": {"quick": 60, "thorough": 900}, "system_lookups": {"quick": 4000, "thorough": 50000}, "elsewhere": {"quick": 150, "thorough": 1500},
          "values": {"quick": 150, "thorough": 1500}, "used": 200, "fresh": 200, "modified_copies": 40, "together": 100, "system_answers": {"quick": 500, "thorough": 7000}, "other_time_units": {"quick": 50, "thorough": 700}, "unresolved": {"quick": 60, "thorough": 900}}
BATCH = 2
SHARD0 = 0.04

WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):  # as sympy, which holds cached definitions
    WAYS[f"pickle{_p}"] = lambda x, p=_p: pickle.loads(pickle.dumps(x, protocol=p))


def plan(ctx):
    return [("unit", i) for i in range(ctx.pick(700, 9000))] + [("system", i) for i in range(ctx.pick(70, 1000))] + \
        [("process", i) for i in range(ctx.pick(8, 80))]


def run_items(ctx, obs, items, shard):
    for kind, i in items:
        rng = ctx.rng(kind, i)
        {"unit": units, "system": systems, "process": process}[kind](ctx, obs, rng)


def random_unit_text(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice(drive.common_names())
    if k < 0.33:
        return rng.choice(["days since 2000-01-01", "hours since 1990-01-01 12:00 UTC", "s @ 20000101T1200", "fortnights from 1-1-1", "ms since 1"])
    if k < 0.41:
        return rng.choice(["degC", "degF", "lg(re mW)", "ln(re K) 0.1", "dBm", "K @ 273.15", "", "1", "%", "rad", "Np"])
    ast = gen.expr(rng, drive.name_pool(rng, 4), rng.randint(0, 2), 0.08, 0.08)
    return drive.text(ast, rng)


def answers(u):
    d = u.dimensionality()
    return (type(u).__name__, str(u), u.expanded(), tuple(sorted((str(b), n) for b, n in d.items())), str(d), len(d),
            u.is_dimensionless(), u.is_time_unit()) + ((str(u.unit), str(u.reference_date)) if isinstance(u, drive.py.DateUnit) else ())


def partner(rng, S, t):
    """A unit the one of text t converts to, or None."""
    from .. import refparse

    try:
        ast = refparse.parse(t)
    except refparse.Rejected:
        return None
    d = drive.dims(ast)
    if drive.evaluate(ast) is None:
        return None  # for example a logarithm times a unit
    if d is None or len(d) > 6 or any(abs(n) > 8 for n in d.values()) or drive.classify(ast) != "unit":
        return None
    b = drive.same_dims(rng, tuple(sorted(d.items())))
    r = drive.outcome(S.unit, drive.text(b, rng))
    return r[1] if r[0] == "ok" else None


def convert(a, b):
    r = drive.outcome(drive.py.Converter, a, b)
    if r[0] != "ok":
        return r[:2]
    out = [str(r[1].expression)]
    for v in (2.5, 100.0):
        x = drive.outcome(r[1].convert, v)
        out.append(repr(float(x[1])) if x[0] == "ok" and drive.is_number(x[1]) else x[0])
    return tuple(out)


def units(ctx, obs, rng):
    S = drive.system()
    t = random_unit_text(rng)
    r = drive.outcome(S.unit, t)
    if r[0] != "ok":
        return
    u = r[1]
    used = rng.random() < 0.5
    other = partner(rng, S, t)
    reference = S.unit(t)
    want = answers(reference)
    date = isinstance(u, drive.py.DateUnit)
    if used:
        answers(u)
        if other is not None:
            convert(u, other)
        u == reference
    obs.count("used" if used else "fresh")
    values = None
    ways = list(WAYS)
    rng.shuffle(ways)
    for way in ways:
        c = drive.outcome(WAYS[way], u)
        what = f"{way} of unit({t!r}){' after use' if used else ''}"
        if c[0] != "ok":
            obs.violation(f"{what}: {c[1]}: {c[2]}", text=t)
            return
        c = c[1]
        obs.count("copies")
        obs.case((t, way, used), what)
        got = drive.outcome(answers, c)
        if got[0] != "ok" or got[1] != want:
            obs.violation(f"{what} answers {got[1:]}, the original {want}", text=t)
            return
        if not date and not (c == u and u == c and not c != u):
            obs.violation(f"{what} is not equal to the original", text=t)
            return
        if c.dimensionality() != u.dimensionality() or u.dimensionality() != c.dimensionality():
            obs.violation(f"{what} has another dimensionality", text=t)
            return
        if not date and (not c.is_convertible_to(u) or not u.is_convertible_to(c)):
            obs.violation(f"{what} is not convertible to the original", text=t)
            return
        if other is not None and rng.random() < 0.35:
            if values is None:
                values = (convert(reference, other), convert(other, reference))
            obs.count("conversions")
            mixed = rng.choice([other, WAYS[rng.choice(ways)](other)])
            obs.count("mixed", mixed is not other)
            now = (convert(c, mixed), convert(mixed, c))
            if now != values:
                obs.violation(f"{what} converts with {other} as {now}, the original as {values}", text=t)
                return
        if date and drive.outcome(drive.py.Converter, c, u)[:2] != ("raised", "IncompatibleUnitsError"):
            obs.violation(f"{what} is convertible", text=t)
            return
    if answers(u) != want:
        obs.violation(f"copying changed unit({t!r}): {answers(u)}, before {want}", text=t)
    # Several at once, which may share parts.
    if other is not None:
        for way in ("deepcopy", "pickle2", "pickle5"):
            obs.count("together")
            x, y, z = WAYS[way]([u, other, u])
            if x is not z or answers(x) != want or answers(y) != answers(other) or x.is_convertible_to(y) != u.is_convertible_to(other):
                obs.violation(f"{way} of [{u}, {other}] differs: [{x}, {y}]", text=t)
                return
    parts(obs, rng, u, t)


def parts(obs, rng, u, t):
    """The values a unit is made of."""
    things = [u.dimensionality()]
    r = drive.outcome(drive.parse, t)
    if r[0] == "ok":
        things.append(r[1])
    if isinstance(u, drive.py.DateUnit):
        things.append(u.reference_date)
        from pyudunits2._datetime import DateTime, Time

        things.append(DateTime(2000, 1, 2, Time(3, 4, 5, 6), tz_offset=Time(1, 0), raw_content="x"))
    if hasattr(u, "_names"):
        things.append(u._names)
    for x in things:
        way = rng.choice(list(WAYS))
        y = drive.outcome(WAYS[way], x)
        if y[0] != "ok" or y[1] != x or x != y[1] or str(y[1]) != str(x):
            obs.violation(f"{way} of {x!r} gives {y[1]!r}", text=t)
            return
        h = drive.outcome(hash, x)
        if h[0] == "ok" and hash(y[1]) != h[1]:
            obs.violation(f"{way} of {x!r} has another hash", text=t)
            return


def systems(ctx, obs, rng):
    """Copied unit systems: alike, and independent of one another."""
    ops = registry.random_history(rng, rng.randint(4, 14))
    M, R = registry.Model(), registry.Real(times=True)
    for n, op in enumerate(ops):
        r = drive.outcome(R.apply, op)
        if r[0] == "ok" and r[1][0] == "ok":
            if not registry.apply_model(M, op, n):
                return  # C08 judges registration
    unresolved(obs, rng, ops)
    keys = registry.keys(ops)
    rng.shuffle(keys)
    keys = keys[:60]
    if rng.random() < 0.5:
        for k in keys[:30]:
            drive.outcome(R.S.unit_by_name_or_symbol, k)
    for way in rng.sample(["deepcopy", "pickle2", "pickle4", "pickle5"], 2):
        c = drive.outcome(WAYS[way], R.S)
        obs.count("systems")
        if c[0] != "ok":
            obs.violation(f"{way} of a unit system: {c[1]}: {c[2]}", operations=ops)
            return
        c = c[1]
        originals = {}
        for k in keys:
            obs.count("system_lookups")
            # The copy first: it resolves definitions on its own.
            b, a = registry.got(c, k), registry.got(R.S, k)
            originals[k] = a
            if a != b:
                obs.violation(f"{way} of a unit system reads {k!r} as {b}, the original as {a}", operations=ops)
                return
            if a[0] == "unknown" or rng.random() < 0.25:
                continue
            u, v = R.S.unit_by_name_or_symbol(k), c.unit_by_name_or_symbol(k)
            w = WAYS[rng.choice(list(WAYS))](u)
            a, b, e = (drive.outcome(answers, x)[:2] for x in (u, v, w))
            obs.count("system_answers")
            obs.count("other_time_units", u.is_time_unit())
            if not a == b == e:
                obs.violation(f"{k!r} of a system answers {a}, of its copy ({way}) {b}, copied itself {e}", operations=ops)
                return
        obs.case((repr(ops), way), f"{way} of a system made by {len(ops)} operations")
        # Whatever happens to the copy stays there, and the other way round.
        first, second = (c, R.S) if rng.random() < 0.5 else (copy.deepcopy(R.S), c)
        later = registry.Real()
        later.S = first
        word = rng.choice(keys)
        drive.outcome(later.apply, ["unit", "basis", None, ["newbasis", None], [word], [], [], True])
        drive.outcome(later.apply, ["prefix", "newprefix", "7", ["y"]])
        obs.count("modified_copies")
        for k in keys[:25] + ["newbasis", "newprefixnewbasis", "y" + word]:
            a = registry.got(second, k)
            if a != originals.get(k, a) or "newbasis" in repr(a):
                obs.violation(f"after a change to one copy ({way}) of a system, {k!r} is {a} in the other one, before {originals.get(k)}", operations=ops)
                return


def unresolved(obs, rng, ops):
    """Definitions not used yet are read by the system that holds them."""
    word = lambda: "".join(rng.choice("cdefghij") for _ in range(4))
    waiting, ready = sorted({word() + "v" for _ in range(3)}), sorted({word() + "w" for _ in range(3)})
    primes = rng.sample(registry.PRIMES[200:], 9)
    ops = ops + [["unit", "lazy", f"{primes.pop()} {rng.choice(['', 'zeta'])}{rng.choice(waiting)}", [w, None], [], [], [], False] for w in ready]
    if rng.random() < 0.5:
        ops.append(["unit", "lazy", f"3 {ready[0]}", [ready[0] + "y", None], [], [], [], False])
    rng.random() < 0.3 and rng.shuffle(ops)
    R, kept = registry.Real(), []
    for op in ops:
        r = drive.outcome(R.apply, op)
        if r[0] == "ok" and r[1][0] == "ok":
            kept.append(op)
    if rng.random() < 0.3:
        for w in ready:
            registry.got(R.S, w)  # not known yet
    way = rng.choice(["deepcopy", "deepcopy", "pickle2", "pickle5"])
    c = drive.outcome(WAYS[way], R.S)
    if c[0] != "ok":
        obs.violation(f"{way} of a unit system: {c[1]}: {c[2]}", operations=ops)
        return
    both = []
    for S in (R.S, c[1]):
        M, own = registry.Model(), registry.Real()
        own.S = S
        mine = [["unit", "basis", None, [word() + "u", None], [], [], [], False]]
        mine += [["unit", "lazy", f"{primes.pop() if primes else 7} {mine[0][3][0]}", [w, None], [], [], [], False] for w in waiting if rng.random() < 0.8]
        for n, op in enumerate(kept + mine):
            registry.apply_model(M, op, n)
        for op in mine:
            drive.outcome(own.apply, op)
        both.append((S, M, mine))
    rng.shuffle(both)
    obs.count("unresolved")
    for w in ready + [ready[0] + "y", "kilo" + ready[1], "zeta" + ready[0]] + waiting:
        for S, M, mine in both:
            a, b = registry.got(S, w), registry.want(M, w)
            if a != b:
                obs.violation(f"{w!r} is {a} in one of two copies ({way}) of a system that was then given {mine}; it means {b}", operations=kept)
                return


SCRIPT = r"""
import sys, json, os, types, pickle, base64
job = json.loads(sys.stdin.buffer.read())
sys.path.insert(0, job["repo"])
if not os.path.exists(job["repo"] + "/pyudunits2/_version.py"):
    stub = types.ModuleType("pyudunits2._version"); stub.__version__ = "0"
    sys.modules["pyudunits2._version"] = stub
import warnings; warnings.simplefilter("ignore")
out = []
S = None
for blob, pairs in job["cases"]:
    us = pickle.loads(base64.b64decode(blob))
    from pyudunits2 import Converter, DateUnit, UnitSystem
    S = S or UnitSystem.from_udunits2_xml()
    res = []
    for u in us:
        d = u.dimensionality()
        res.append([type(u).__name__, str(u), u.expanded(), sorted([str(b), n] for b, n in d.items()), u.is_dimensionless(), u.is_time_unit()])
    conv = []
    for i, j, text in pairs:
        for a, b in ((us[i], us[j]), (us[i], S.unit(text)), (S.unit(text), us[i])):
            try:
                c = Converter(a, b)
                conv.append([float(c.convert(v)) for v in (2.5, 100.0)] + [a.is_convertible_to(b)])
            except ArithmeticError:
                conv.append("arithmetic")
            except Exception as exc:
                conv.append(type(exc).__name__)
    out.append([res, conv])
sys.stdout.buffer.write(json.dumps(out).encode("ascii"))
"""


def process(ctx, obs, rng):
    """Units that travel to another process."""
    import base64

    S = drive.system()
    cases, wants = [], []
    for _ in range(6):
        us, ts, pairs = [], [], []
        while len(us) < 4:
            t = random_unit_text(rng)
            r = drive.outcome(S.unit, t)
            if r[0] != "ok":
                continue
            ts.append(t)
            us.append(r[1])
            o = partner(rng, S, t)
            if o is not None:
                if rng.random() < 0.5:
                    convert(r[1], o)
                us.append(o)
                ts.append(str(o))
                pairs.append((len(us) - 2, len(us) - 1, str(o)))
        want = [[type(u).__name__, str(u), u.expanded(), sorted([str(b), n] for b, n in u.dimensionality().items()),
                 u.is_dimensionless(), u.is_time_unit()] for u in us]
        conv = []
        for i, j, text in pairs:
            for a, b in ((us[i], us[j]), (us[i], S.unit(text)), (S.unit(text), us[i])):
                try:
                    c = drive.py.Converter(a, b)
                    conv.append([float(c.convert(v)) for v in (2.5, 100.0)] + [a.is_convertible_to(b)])
                except ArithmeticError:
                    conv.append("arithmetic")
                except Exception as exc:
                    conv.append(type(exc).__name__)
        blob = drive.outcome(pickle.dumps, us, protocol=rng.choice([2, 4, 5]))
        if blob[0] != "ok":
            obs.violation(f"units {ts} cannot be pickled: {blob[2]!r}", texts=ts)
            return
        cases.append((base64.b64encode(blob[1]).decode("ascii"), pairs))
        wants.append((ts, want, conv))
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env |= {"PYTHONPYCACHEPREFIX": str(ctx.scratch / "pyc"), "PYTHONHASHSEED": str(rng.randrange(1, 2**32 - 1))}
    job = json.dumps({"repo": str(core.REPO), "cases": cases}).encode("ascii")
    r = subprocess.run([sys.executable, "-c", SCRIPT], input=job, capture_output=True, timeout=300, env=env, cwd="/tmp")
    if r.returncode:
        obs.violation(f"pickled units fail in another process: {r.stderr.decode('utf8', 'replace')[-600:]}", texts=[w[0] for w in wants])
        return
    for (ts, want, conv), (got, gotconv) in zip(wants, json.loads(r.stdout)):
        obs.count("elsewhere", len(ts))
        for t, w, g in zip(ts, want, got):
            if json.loads(json.dumps(w)) != g:
                obs.violation(f"unit({t!r}) arrives in another process as {g}, it was {w}", text=t)
                return
        for w, g in zip(conv, gotconv):
            obs.count("values")
            if isinstance(w, str) or isinstance(g, str):
                # Whether a division by zero raises may depend on the order of terms.
                if w != g and "arithmetic" not in (w, g):
                    obs.violation(f"units {ts} pickled to another process convert as {g} instead of {w}", texts=ts)
                    return
                continue
            if w[2] != g[2] or any(not (a == b or (a != a and b != b) or abs(a - b) <= 1e-11 * max(abs(a), abs(b))) for a, b in zip(w[:2], g[:2])):
                obs.violation(f"units {ts} pickled to another process convert as {g} instead of {w}", texts=ts)
                return
