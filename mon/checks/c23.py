"""Value types: dates and times, expression nodes, references to units."""
import dataclasses
import re
from decimal import Decimal

from .. import drive, gen

PROPERTY = "C23"
RULE = (
    "Random families of near-equal DateTime and Time values (one field changed, the original text changed, fields "
    "swapped), expression graphs of random texts and their copies, and name/prefix/reference records. Recorded: ==, != "
    "both ways, hash, set and dict membership, str() of times, attempts to assign. Oracle: equal exactly if all fields "
    "but the original text are; equal means equal hash; a time's text re-reads (own reader) to the same fields; every "
    "assignment is refused and changes nothing. Non-trivial: distinct pair."
)
ASSUMPTIONS = ["fields are ints in their ordinary ranges (texts of times are not claimed outside them)"]
FLOORS = {"datetime_pairs": {"quick": 10000, "thorough": 100000}, "equal": {"quick": 2000, "thorough": 20000}, "times": {"quick": 4000, "thorough": 40000},
          "frozen": {"quick": 3000, "thorough": 30000}, "graphs": {"quick": 1000, "thorough": 10000}, "neighbours": {"quick": 3000, "thorough": 30000}}
BATCH = 10


def plan(ctx):
    return list(range(ctx.pick(2400, 24000)))


def fields_of_time(rng):
    return [rng.choice([0, rng.randint(0, 23)]), rng.choice([0, rng.randint(0, 59)]), rng.choice([0, 0, rng.randint(0, 59), 60]),
            rng.choice([0, 0, 1, 5, 10, 500000, rng.randint(0, 999999)])]


def run_items(ctx, obs, items, shard):
    from pyudunits2._datetime import DateTime, Time

    for i in items:
        rng = ctx.rng(i)
        times(obs, rng, Time)
        datetimes(obs, rng, DateTime, Time)
        if rng.random() < 0.5:
            graphs(obs, rng)
        records(obs, rng)


def times(obs, rng, Time):
    a = fields_of_time(rng)
    b = list(a)
    if rng.random() < 0.6:
        j = rng.randrange(4)
        b[j] = fields_of_time(rng)[j]
    x, y = Time(*a), Time(*b)
    judge(obs, x, y, a == b)
    for t, f in ((x, a), (y, b)):
        obs.count("times")
        s = str(t)
        m = re.fullmatch(r"(\d\d):(\d\d)(?::(\d\d)(?:\.(\d{1,6}))?)?", s)
        if not m:
            obs.violation(f"Time{tuple(f)} is written {s!r}")
            continue
        h, mi, se, us = m.groups()
        back = [int(h), int(mi), int(se or 0), int((us or "0").ljust(6, "0"))]
        if back != f:
            obs.violation(f"Time{tuple(f)} is written {s!r}, which reads as {back}")
    frozen(obs, rng, x)


def datetimes(obs, rng, DateTime, Time):
    def make():
        return [rng.choice([1, 2000, -4713, rng.randint(-9999, 9999)]), rng.randint(1, 12), rng.randint(1, 31), Time(*fields_of_time(rng)),
                rng.choice(["UTC", "UTC", "Z", Time(1, 0), Time(*fields_of_time(rng))])]

    f = make()
    family = [f]
    for _ in range(3):
        g = list(f)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            j = rng.randrange(5)
            if j in (3, 4) and rng.random() < 0.3 and isinstance(g[4], Time):
                g[3], g[4] = g[4], g[3]
            elif j == 1 and g[2] <= 12 and rng.random() < 0.3:
                g[1], g[2] = g[2], g[1]
            else:
                g[j] = make()[j]
        family.append(g)
    raws = [None, "", "2000-01-01", "x"]
    values = [DateTime(*g, raw_content=rng.choice(raws)) for g in family]
    for n, x in enumerate(values):
        for m, y in enumerate(values):
            obs.count("datetime_pairs")
            judge(obs, x, y, family[n] == family[m])
    distinct = []
    for g in family:
        if g not in distinct:
            distinct.append(g)
    if len(set(values)) != len(distinct):
        obs.violation(f"a set of {values} has {len(set(values))} members, expected {len(distinct)}")
    d = {x: n for n, x in enumerate(values)}
    for g in family:
        if d.get(DateTime(*g, raw_content="other")) != max(n for n, h in enumerate(family) if h == g):
            obs.violation(f"lookup of {g} by value in {d} fails")
    for thing in (None, "2000-01-01", tuple(f), f[3]):
        if values[0] == thing or not (values[0] != thing):
            obs.violation(f"{values[0]} is equal to {thing!r}")
    frozen(obs, rng, values[0])


def judge(obs, x, y, equal):
    obs.case((repr(x), repr(y)))
    obs.count("equal" if equal else "unequal")
    r = [x == y, y == x, not (x != y), not (y != x)]
    if r != [equal] * 4:
        obs.violation(f"{x!r} and {y!r}: ==, reversed ==, !=, reversed != give {r}, expected equal={equal}")
    if equal and hash(x) != hash(y):
        obs.violation(f"{x!r} == {y!r} but their hashes differ")
    if hash(x) != hash(x):
        obs.violation(f"hash of {x!r} varies")


def frozen(obs, rng, x):
    """Assigning or deleting any attribute is refused and changes nothing."""
    before = repr(x)
    for f in dataclasses.fields(x):
        obs.count("frozen")
        old = getattr(x, f.name)
        for act in (lambda: setattr(x, f.name, old), lambda: setattr(x, f.name, 7), lambda: delattr(x, f.name)):
            r = drive.outcome(act)
            if r[0] == "ok" or not isinstance(r[2], AttributeError):
                obs.violation(f"{f.name} of {before} can be changed: {r[:2]}")
        if getattr(x, f.name) is not old or repr(x) != before:
            obs.violation(f"{before} became {x!r}")


def nodes(n):
    yield n
    for c in n.children():
        yield from nodes(c)


def neighbours(rng, n):
    """Nodes which differ from n in one field, or in nothing but their kind."""
    from pyudunits2._expr import graph as g

    if isinstance(n, g.BinaryOp):
        kinds = [k for k in (g.Multiply, g.Divide, g.Raise) if k is not type(n)]
        yield rng.choice(kinds)(n.lhs, n.rhs)
        if n.lhs != n.rhs and repr(n.lhs) != repr(n.rhs):
            yield type(n)(n.rhs, n.lhs)
    elif isinstance(n, g.Logarithm):
        yield g.Logarithm(rng.choice([f for f in ("lg", "log", "ln", "lb") if f != n.function]), n.term)
        yield g.Logarithm(n.function, g.Logarithm(n.function, n.term))
    elif isinstance(n, g.Shift):
        yield g.Shift(n.unit, g.Number(12345, raw_content="12345"))
        yield g.Multiply(n.unit, n.shift_from)
    elif isinstance(n, g.Identifier):
        yield g.Unhandled(n.name)
        yield g.Identifier(n.name + "s")
        if n.name.swapcase() != n.name:
            yield g.Identifier(n.name.swapcase())
    elif isinstance(n, g.Number):
        yield g.Number(n.value + 1, raw_content=n.raw_content)
        yield g.Number(n.value, raw_content=f"0{n.raw_content}")
        if n.value:
            yield g.Number(-n.value, raw_content=n.raw_content)


def graphs(obs, rng):
    names = drive.name_pool(rng, 2)
    ast = gen.expr(rng, names, rng.randint(0, 3), 0.08, 0.08, zero=True)
    text = drive.text(ast, rng)
    p, q = drive.outcome(drive.parse, text), drive.outcome(drive.parse, text)
    if p[0] != "ok":
        return
    p, q = p[1], q[1]
    obs.count("graphs")
    before = (str(p), repr(p))
    judge(obs, p, q, True)
    every = list(nodes(p))
    for n in every:
        frozen(obs, rng, n)
    for n in every:
        for m in neighbours(rng, n):
            obs.count("neighbours")
            judge(obs, n, m, False)
    if {n: str(n) for n in every} != {n: str(n) for n in nodes(q)}:
        obs.violation(f"the parts of {text!r} read twice differ")
    if (str(p), repr(p)) != before:
        obs.violation(f"{before[0]} changed to {p}")
    other = gen.expr(rng, names, 1, 0.08, 0.08)
    o = drive.outcome(drive.parse, drive.text(other, rng))
    if o[0] == "ok":
        if str(o[1]) != str(p):
            judge(obs, p, o[1], False)


def records(obs, rng):
    from pyudunits2._unit_reference import Name, Prefix, UnitReference

    word = lambda: rng.choice(["a", "b", "as", "m"])
    tup = lambda: tuple(word() for _ in range(rng.randint(0, 2)))
    kind = rng.randrange(3)

    def make():
        if kind == 0:
            return [word(), rng.choice([None, word()])], Name
        if kind == 1:
            return [word(), rng.choice(["1", "1e3", ".01"]), tup()], Prefix
        return [Name(word()), tup(), (Name(word()),), tup(), rng.choice([None, "", "x", "y"])], (
            lambda n, s, an, as_, d: UnitReference(name=n, symbols=s, alias_names=an, alias_symbols=as_, description=d))

    f, cls = make()
    g, _ = make()
    k = rng.random()
    if k < 0.4:
        g = list(f)
    elif k < 0.7:
        # Other in one field only.
        n = rng.randrange(len(f))
        g = f[:n] + g[n : n + 1] + f[n + 1 :]
    x, y = cls(*f), cls(*g)
    judge(obs, x, y, f == g)
    frozen(obs, rng, x)
