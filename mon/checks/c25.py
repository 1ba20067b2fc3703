"""Operations interrupted at any line."""
import sys

from .. import core, drive

PROPERTY = "C25"
LEVEL = "fault_enumeration"
RULE = (
    "Each operation (lookup, conversion set-up, converting, comparison, expansion, dimensionality, registration, "
    "loading) runs once with a tracer counting the executed lines of pyudunits2, then again from an identical fresh "
    "state with a KeyboardInterrupt or MemoryError raised at the k-th line, for sampled (thorough: all) k. Recorded: how "
    "the interrupted call ended, the same call repeated on the same objects, and probes of related units. Oracle: the "
    "results of an undisturbed run. Non-trivial: distinct (operation, source line, visit) that was interrupted."
)
ASSUMPTIONS = ["faults are injected between lines of pyudunits2 itself, not inside sympy or the ANTLR runtime"]
FLOORS = {"interrupted": {"quick": 1200, "thorough": 15000}, "recovered": {"quick": 1200, "thorough": 15000},
          "source_lines_summed_over_workers": {"quick": 250, "thorough": 300}, "op:unit": 300, "op:converter": 200, "op:eq": 100, "op:add": 60, "op:load": 10}
BATCH = 1
SHARD0 = 0
CASE_LIMIT = 400

UNITS = ["degF", "horsepower", "kilofeet", "mmHg", "dBZ", "hours since 2000-01-01 12:00", "lg(re 2 mW)", "furlong2 per s", "°F @ 10",
         "acre_foot", "Bm", "µm", "(m s-1)^2/kg", "nosuchunit", "m (s @ 2000)", "light_year/fortnight", "rad"]
PAIRS = [("degF", "degC"), ("psi", "mmHg"), ("km/h", "s/m"), ("Bm", "mW"), ("acre_foot", "m3"), ("rad/s", "Hz"), ("degF", "m"),
         ("K @ 10", "degF"), ("lg(re mW)", "lb(re W)")]
EQS = [("km", "1000 m"), ("psi", "lbf/in2"), ("degF", "degC"), ("Hz", "s-1"), ("lg(re W)", "lg(re J/s)"), ("m", "s")]


def plan(ctx):
    ops = [("unit", t) for t in UNITS] + [("warm", t) for t in UNITS[:8]]
    ops += [("converter", p) for p in PAIRS] + [("convert", p) for p in PAIRS[:4]]
    ops += [("eq", p) for p in EQS] + [("expand", t) for t in UNITS[:6]] + [("dims", t) for t in UNITS[:6]]
    ops += [("add", k) for k in ("named", "lazy", "basis", "replace", "prefix", "duplicate")] + [("load", None)]
    parts = ctx.pick(2, 6)
    return [(op, part, parts) for op in ops for part in range(parts)]


def traced(path):
    return path.startswith(str(core.REPO / "pyudunits2")) and "_antlr4_runtime" not in path and "/parser/" not in path


class Injector:
    """Counts lines, and raises at the k-th."""

    def __init__(self, k=None, fault=KeyboardInterrupt):
        self.k, self.fault, self.n, self.where = k, fault, 0, None

    def call(self, frame, event, arg):
        return self.line if traced(frame.f_code.co_filename) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.k:
                self.where = (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno)
                raise self.fault("injected")
        return self.line

    def run(self, fn):
        sys.settrace(self.call)
        try:
            try:
                r = ("ok", fn())
            finally:
                sys.settrace(None)
        except (Exception, KeyboardInterrupt) as exc:
            r = ("raised", type(exc).__name__)
        return r


def describe(u):
    if isinstance(u, tuple):
        return u
    return (type(u).__name__, str(u), u.expanded(), drive.dims_of(u))


def lookup(S, t):
    r = drive.outcome(S.unit, t)
    return describe(r[1]) if r[0] == "ok" else r[:2] + (str(r[2]),)


def converter(a, b):
    c = drive.py.Converter(a, b)
    return (str(c.expression), repr(c.convert(2.5)))


def scenario(op):
    """(run, probe): the operation, and what everything gives afterwards."""
    kind, arg = op
    py = drive.py
    S = drive.fresh_system()
    probes = ["degF", "psi", "kilofeet", "W", "mm", "hours since 2000-01-01"]
    if kind in ("unit", "warm"):
        if kind == "warm":
            # Half of what the unit needs is already there.
            for t in ("ft", "lbf", "K", "W", "in"):
                S.unit(t)
        return (lambda: describe(S.unit(arg))), (lambda: [lookup(S, t) for t in [arg] + probes])
    if kind == "converter":
        a, b = (S.unit(t) for t in arg)
        return (lambda: converter(a, b)), (lambda: [
            summary(lambda: converter(a, b)), summary(lambda: converter(b, a)), describe(a), describe(b)] + [lookup(S, t) for t in probes[:2]])
    if kind == "convert":
        import numpy as np

        c = py.Converter(*(S.unit(t) for t in arg))
        ints = np.array([1, 2, 3])
        return (lambda: [repr(c.convert(v)) for v in (1, 2.5, ints)]), (lambda: [
            repr(c.convert(v)) for v in (1, 2.5, ints)] + [str(c.expression), repr(ints)])
    if kind == "eq":
        a, b = (S.unit(t) for t in arg)
        return (lambda: (a == b, b == a)), (lambda: [(a == b, b == a), (a != b, a == a, b == b), describe(a), describe(b)])
    if kind == "expand":
        a = S.unit(arg)
        return (lambda: a.expanded()), (lambda: [describe(a), str(a)])
    if kind == "dims":
        a = S.unit(arg)
        return (lambda: drive.dims_of(a)), (lambda: [describe(a), a.is_dimensionless(), a.is_time_unit()])
    if kind == "load":
        return (lambda: describe(drive.fresh_system().unit("degF"))), (lambda: [lookup(drive.fresh_system(), t) for t in probes])
    # Registration: repeated with replace, it must be complete whatever went before.
    from pyudunits2._unit_reference import Name, Prefix, UnitReference
    from pyudunits2._unit_system import LazilyDefinedUnit

    ref = UnitReference(name=Name("zorp", "zorps"), symbols=("zp",), alias_names=(Name("zarp", "zarpen"),), alias_symbols=("za",))
    texts = ["zorp", "zorps", "zp", "zarp", "zarpen", "za", "kilozorp", "qqzorp", "kzp", "m", "degF", "meter", "metre"]
    replace = kind != "add"
    again = True
    if arg == "basis":
        unit = py.BasisUnit(names=ref)
    elif arg == "named":
        expr = drive.parse("3 m")
        (i,) = [n for n in (expr.lhs, expr.rhs) if str(n) == "m"]
        unit = py.NamedUnit(definition=expr, identifier_references={i: S.unit_by_name_or_symbol("m")}, names=ref)
    elif arg == "lazy":
        unit = LazilyDefinedUnit(S, "3 kilofeet", ref)
    elif arg == "replace":
        ref = UnitReference(name=Name("meter", "zorps"), symbols=("zp",))
        unit = LazilyDefinedUnit(S, "3 kg", ref)
        replace = True
    elif arg == "duplicate":
        ref = UnitReference(name=Name("zorp", "zorps"), symbols=("m",), alias_symbols=("za",))
        unit = LazilyDefinedUnit(S, "3 kg", ref)
        again = False
    if arg == "prefix":
        p = Prefix("qq", "1e7", ("zzq",))
        return (lambda: S.add_prefix(p)), (lambda: [S.add_prefix(p)] + [lookup(S, t) for t in texts + ["zzqm", "qqmeter"]])

    def probe():
        if again:
            S.add_unit(unit, replace=True)
        return [lookup(S, t) for t in texts]

    return (lambda: S.add_unit(unit, replace=replace)), probe


def summary(fn):
    r = drive.outcome(fn)
    return r if r[0] == "ok" else r[:2] + (str(r[2]),)


_SEEN = set()


def run_items(ctx, obs, items, shard):
    for op, part, parts in items:
        op = (op[0], tuple(op[1]) if isinstance(op[1], list) else op[1])
        rng = ctx.rng(op, part)
        run, probe = scenario(op)
        count = Injector()
        clean = count.run(run)
        want = probe()
        # A second clean run: the number of lines must not depend on the past.
        run, probe = scenario(op)
        again = Injector()
        if again.run(run) != clean or probe() != want:
            obs.violation(f"{op}: two undisturbed runs differ", op=op)
            continue
        n = min(count.n, again.n)
        if not n:
            continue
        ks = list(range(1 + part, n + 1, parts))
        limit = ctx.pick(14, 250 if op[0] == "load" else 1500)
        if len(ks) > limit:
            ks = rng.sample(ks, limit)
        for k in ks:
            run, probe = scenario(op)
            inj = Injector(k, rng.choice([KeyboardInterrupt, MemoryError]))
            r = inj.run(run)
            if inj.where is None:
                obs.count("not_reached")
                continue
            obs.count("interrupted")
            obs.count(f"op:{op[0]}" if op[0] != "warm" else "op:unit")
            obs.case((op, inj.where, k), f"{op} interrupted at {inj.where[0]}:{inj.where[1]} (line event {k} of {n})")
            if inj.where not in _SEEN:
                _SEEN.add(inj.where)
            if r[0] == "ok" and r != clean:
                obs.violation(f"{op} interrupted at {inj.where} returned {r[1]!r} instead of {clean!r}", op=op, k=k)
                break
            if r != ("raised", inj.fault.__name__):
                obs.violation(f"{inj.fault.__name__} at {inj.where} during {op} did not surface: {r!r:.300}", op=op, k=k)
                break
            got = drive.outcome(probe)
            if got[0] != "ok":
                obs.violation(f"after {op} was interrupted at {inj.where}, repeating it raises {got[1]}: {got[2]}", op=op, k=k)
                break
            if got[1] != want:
                i = next(i for i, (x, y) in enumerate(zip(got[1], want)) if x != y)
                obs.violation(f"after {op} was interrupted at {inj.where}: {got[1][i]!r}, expected {want[i]!r}", op=op, k=k)
                break
            obs.count("recovered")


def finish_shard(ctx, obs, shard):
    obs.count("source_lines_summed_over_workers", len(_SEEN))
