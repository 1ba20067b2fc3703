"""Random registration histories, applied to real and to model unit systems."""
from __future__ import annotations

from fractions import Fraction

from . import drive, model, refparse

# Some begin with another one.
PREFIX_NAMES = ["kilo", "mega", "tri", "me", "kilok"]
PREFIX_SYMBOLS = ["k", "M", "q", "ka", "kk", "Mm"]
WORDS = ["a", "x", "ka", "kx", "qa", "Mx", "kiloa", "megax", "ilo", "k", "as", "xs", "m", "mm", "tria", "aa", "kkx", "µa", "ax", "gax", "max", "kk", "value", "pi", "E"]
PRIMES = [p for p in range(1009, 4000) if all(p % d for d in range(2, 64))]


class Model(model.System):
    def __init__(self):
        super().__init__({}, {}, [])

    def add(self, e, replace):
        """True if accepted, False if it must raise ValueError and change nothing."""
        if not replace:
            if any(n in self.tables[0] for n in e.names) or any(s in self.tables[2] for s in e.symbols):
                return False
        for table, keys in zip(self.tables, (e.names, e.alias_names, e.symbols, e.alias_symbols)):
            for k in keys:
                table[k] = e
        self.forget()
        return True

    def prefix(self, name, value, symbols):
        self.pnames[name] = value
        for s in symbols:
            self.psymbols[s] = value
        self.forget()

    def forget(self):
        self._units.clear()
        self._lookup.clear()


def random_history(rng, n, again=0.0):
    """A list of JSON-able operations; with ``again``, some register the same
    unit object once more, or another one of the same meaning."""
    # The prefix of definitions is never changed: what a definition means is
    # settled when it is first used.
    ops, basis, serial = [["prefix", "zeta", "1e2", ["z"]]], [], 0
    for step in range(n):
        k = rng.random()
        if k < 0.12:
            ops.append(["prefix", rng.choice(PREFIX_NAMES), rng.choice(["1000", "1e6", ".01", "3", "1e-3"]),
                        rng.sample(PREFIX_SYMBOLS, rng.randint(0, 2))])
            continue
        earlier = [j for j, op in enumerate(ops) if op[0] == "unit"]
        if earlier and rng.random() < again:
            j = rng.choice(earlier)
            ops.append(["unit", f"again {j}"] + ops[j][2:7] + [rng.random() < 0.4])
            continue
        serial += 1
        words = lambda hi: [rng.choice(WORDS) for _ in range(rng.choice([0, 0, 1, 1, 2][:hi + 3]))]
        kind = rng.choice(["basis", "named", "lazy", "lazy"])
        if not basis:
            kind = "basis"
        if kind == "basis":
            b = f"b{'abcdefghij'[serial // 10 % 10]}{'abcdefghij'[serial % 10]}"
            basis.append(b)
            name = [b, None if rng.random() < 0.5 else b + "es"]
            definition = None
        else:
            name = None
            if rng.random() < 0.7:
                w = rng.choice(WORDS)
                name = [w, None if rng.random() < 0.4 else rng.choice(WORDS) if rng.random() < 3 * again else w + "s"]
            tag = PRIMES[serial]
            dep = rng.choice(basis)
            if kind == "lazy" and rng.random() < 0.2:
                dep = rng.choice(["zeta", "z"]) + dep
            if kind == "lazy" and rng.random() < 0.15:
                dep = f"b{rng.choice('abcdefghij')}{rng.choice('abcdefghij')}"  # perhaps registered later
            definition = f"{tag} {dep}"
            same = [op[2] for op in ops if op[0] == "unit" and op[1] == "named"]
            if same and rng.random() < again * 3:
                definition = rng.choice(same)
        symbols = words(1)
        if name is None and not symbols:
            symbols = [rng.choice(WORDS)]
        aliases = [[w, rng.choice([None, w + "s"])] for w in words(0)]
        ops.append(["unit", kind, definition, name, symbols, aliases, words(0),
                    kind == "basis" or rng.random() < 0.35])
    return ops


def is_time(basis):
    """Whether a basis unit of a random history is one of time."""
    return basis[-1] in "cfi"


class Real:
    def __init__(self, times=False):
        self.S = drive.py.UnitSystem()
        self.times = times  # whether some basis units are those of time
        self.made: list = []

    def apply(self, op):
        """outcome of one operation; a unit that cannot even be built is skipped."""
        from pyudunits2._unit_reference import Name, Prefix, UnitReference
        from pyudunits2._unit_system import LazilyDefinedUnit
        from pyudunits2._expr.atoms import ExtractIdentifiers

        self.made.append(None)
        if op[0] == "prefix":
            return drive.outcome(self.S.add_prefix, Prefix(op[1], op[2], tuple(op[3])))
        _, kind, definition, name, symbols, aliases, alias_symbols, replace = op
        ref = UnitReference(
            name=Name(*name) if name else None,
            symbols=tuple(symbols),
            alias_names=tuple(Name(*a) for a in aliases),
            alias_symbols=tuple(alias_symbols),
        )
        if kind.startswith("again"):
            unit = self.made[int(kind.split()[1])]
        elif kind == "basis":
            unit = drive.py.BasisUnit(names=ref, is_time_unit=self.times and is_time(name[0]))
        elif kind == "named":
            expr = drive.parse(definition)
            refs = {i: self.S.unit_by_name_or_symbol(i.content) for i in ExtractIdentifiers().visit(expr)}
            unit = drive.py.NamedUnit(definition=expr, identifier_references=refs, names=ref)
        else:
            unit = LazilyDefinedUnit(self.S, definition, ref)
        self.made[-1] = unit
        return drive.outcome(self.S.add_unit, unit, replace=replace)


def apply_model(M, op, index):
    if op[0] == "prefix":
        M.prefix(op[1], Fraction(op[2]), op[3])
        return True
    _, kind, definition, name, symbols, aliases, alias_symbols, replace = op
    flat = lambda pairs: [x for a in pairs for x in a if x]
    e = model.Entry(index, definition, False, flat([name] if name else []), symbols, flat(aliases), alias_symbols)
    return M.add(e, replace)


def keys(ops):
    """Every text worth looking up in a system made by these operations."""
    out = set(WORDS)
    for op in ops:
        if op[0] == "unit":
            for pair in ([op[3]] if op[3] else []) + op[5]:
                out |= {x for x in pair if x}
            out |= set(op[4]) | set(op[6])
    return sorted(out) + sorted(p + k for p in PREFIX_NAMES + PREFIX_SYMBOLS for k in out)


def meaning(unit):
    """(scale, dims) read from the unit's expansion."""
    u = model.evaluate(drive.ast_of(unit.expanded()), lambda n: model.Lin(Fraction(1), ((n, 1),)))
    return (u.scale, u.dims)


def want(M, key):
    try:
        u = M.lookup(key)
    except (model.Unknown, model.Undefined, refparse.Rejected):
        return ("unknown",)
    return (u.scale, u.dims)


def got(S, key, by_text=False):
    r = drive.outcome(S.unit if by_text else S.unit_by_name_or_symbol, key)
    if r[0] != "ok":
        return ("unknown",) if r[1] == "UnresolvableUnitException" else (r[1], str(r[2]))
    return meaning(r[1])
