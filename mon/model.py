"""Reference semantics of units, independent of pyudunits2.

Exact arithmetic (Fraction) except for the exponentials of logarithmic units,
which use mpmath at 60 digits.

A unit maps a number v to a quantity in basis units:

    Lin:  base = scale * (v + offset)
    Log:  base = scale * B ** (k * (v + shift))      (possibly nested)
"""
from __future__ import annotations

import dataclasses
import functools
import pathlib
import xml.etree.ElementTree as ET
from decimal import Decimal
from fractions import Fraction

import mpmath

from . import refparse

mpmath.mp.dps = 60
HERE = pathlib.Path(__file__).parent / "ref"


class Unknown(Exception):
    """The name does not denote a unit."""


class Undefined(Exception):
    """No meaning is claimed (e.g. a logarithmic unit times a metre)."""


@dataclasses.dataclass(frozen=True)
class Lin:
    scale: Fraction
    dims: tuple  # sorted ((basis, order), ...) without dimensionless bases
    offset: Fraction = Fraction(0)
    #: Powers of dimensionless basis units, which do not influence values.
    angles: tuple = ()

    @property
    def is_log(self):
        return False

    def to_base(self, v):
        return mpf(self.scale) * (v + mpf(self.offset))

    def from_base(self, b):
        return b / mpf(self.scale) - mpf(self.offset)


@dataclasses.dataclass(frozen=True)
class Log:
    fn: str
    inner: object  # Lin with no offset, or Log
    k: Fraction = Fraction(1)
    shift: Fraction = Fraction(0)
    #: offset inside the reference, ignored by pyudunits2 (known finding)
    ref_offset: Fraction = Fraction(0)
    angles: tuple = ()

    @property
    def is_log(self):
        return True

    @property
    def dims(self):
        return self.inner.dims

    @property
    def B(self):
        return {"lb": mpmath.mpf(2), "ln": mpmath.e, "lg": mpmath.mpf(10), "log": mpmath.mpf(10)}[self.fn]

    def power(self, v, buggy=False):
        # pyudunits2 divides by the factor where UDUNITS-2 multiplies (known
        # finding "scaled-log"); a shift is applied outermost.
        w = v + mpf(self.shift)
        w = w / mpf(self.k) if buggy else w * mpf(self.k)
        return self.B ** w

    def to_base(self, v, buggy=False, offset=False):
        x = self.power(v, buggy)
        if self.inner.is_log:
            return self.inner.to_base(x, buggy, offset)
        off = mpf(self.ref_offset) if offset else 0
        return mpf(self.inner.scale) * (x + off)

    def from_base(self, b, buggy=False, offset=False):
        if self.inner.is_log:
            x = self.inner.from_base(b, buggy, offset)
        else:
            x = b / mpf(self.inner.scale)
            if offset:
                x -= mpf(self.ref_offset)
        w = mpmath.log(x) / mpmath.log(self.B)
        w = w * mpf(self.k) if buggy else w / mpf(self.k)
        return w - mpf(self.shift)

    def has_factor(self):
        return self.k != 1 or (self.inner.is_log and self.inner.has_factor())

    def has_ref_offset(self):
        return self.ref_offset != 0 or (self.inner.is_log and self.inner.has_ref_offset())


@functools.lru_cache(100_000)
def mpf(q):
    if isinstance(q, Fraction):
        return mpmath.mpf(q.numerator) / mpmath.mpf(q.denominator)
    return mpmath.mpf(q)


def merge(a, b, sign=1):
    d = dict(a)
    for k, n in b:
        d[k] = d.get(k, 0) + sign * n
    return tuple(sorted((k, n) for k, n in d.items() if n))


def times(a, b, sign=1):
    """a*b or a/b. Offsets are dropped: the operands act as intervals."""
    if a.is_log or b.is_log:
        if a.is_log and b.is_log:
            raise Undefined("product of logarithmic units")
        if b.is_log:
            if sign < 0:
                raise Undefined("division by a logarithmic unit")
            a, b = b, a
        if b.dims:
            raise Undefined("logarithmic unit times a dimension")
        if b.scale == 0:
            raise Undefined("zero factor")
        if a.shift:
            raise Undefined("scaled, shifted logarithmic unit")
        return dataclasses.replace(
            a, k=a.k * b.scale if sign > 0 else a.k / b.scale, angles=merge(a.angles, b.angles, sign)
        )
    if sign < 0 and b.scale == 0:
        raise Undefined("division by zero")
    return Lin(
        a.scale * b.scale if sign > 0 else a.scale / b.scale,
        merge(a.dims, b.dims, sign),
        Fraction(0),
        merge(a.angles, b.angles, sign),
    )


LIMIT = 250  # decimal digits of magnitude beyond which floats are of no use


def evaluate(ast, lookup):
    """The meaning of an AST; ``lookup(name)`` gives Lin/Log or raises Unknown."""
    k = ast[0]
    if k == "empty":
        return Lin(Fraction(1), ())
    if k == "num":
        if not isinstance(ast[1], Fraction):
            raise Undefined("magnitude")
        return Lin(ast[1], ())
    if k == "id":
        return lookup(ast[1])
    if k in ("mul", "div"):
        r = times(evaluate(ast[1], lookup), evaluate(ast[2], lookup), 1 if k == "mul" else -1)
    elif k == "pow":
        u = evaluate(ast[1], lookup)
        n = ast[2]
        if u.is_log:
            raise Undefined("power of a logarithmic unit")
        if n <= 0 and u.scale == 0:
            raise Undefined("zero to a non-positive power")
        if abs(n) > 40:
            raise Undefined("magnitude")
        r = Lin(
            u.scale**n,
            tuple((b, o * n) for b, o in u.dims if o * n),
            Fraction(0),
            tuple((b, o * n) for b, o in u.angles if o * n),
        )
    elif k == "shift":
        u = evaluate(ast[1], lookup)
        if not isinstance(ast[2], Fraction):
            raise Undefined("magnitude")
        if u.is_log:
            r = dataclasses.replace(u, shift=u.shift + ast[2])
        else:
            r = dataclasses.replace(u, offset=u.offset + ast[2])
    elif k == "log":
        u = evaluate(ast[2], lookup)
        if u.is_log:
            if u.k != 1 or u.shift:
                raise Undefined("nested scaled logarithm")
            r = Log("lg" if ast[1] == "log" else ast[1], u, angles=u.angles)
        else:
            if u.scale <= 0:
                raise Undefined("non-positive reference")
            r = Log("lg" if ast[1] == "log" else ast[1], dataclasses.replace(u, offset=Fraction(0)), ref_offset=u.offset, angles=u.angles)
    elif k == "date":
        raise Undefined("date")
    else:
        raise AssertionError(k)
    s = r
    while s.is_log:
        s = s.inner
    if s.scale and not -LIMIT < Decimal(s.scale.numerator).adjusted() - Decimal(s.scale.denominator).adjusted() < LIMIT:
        raise Undefined("magnitude")
    return r


def prefixed(value: Fraction, u):
    return times(Lin(value, ()), u)


def inverse_dims(dims):
    return tuple((b, -n) for b, n in dims)


def convertible(a, b) -> str | None:
    """'direct', 'reciprocal' or None."""
    if a.dims == b.dims:
        return "direct"
    if inverse_dims(a.dims) == b.dims:
        return "reciprocal"
    return None


def convert(a, b, v, **kw):
    """The value of v·a in b, or None outside the domain; mpmath numbers."""
    how = convertible(a, b)
    base = a.to_base(mpf(v), **(kw if a.is_log else {}))
    if how == "reciprocal":
        if base == 0:
            return None
        base = 1 / base
    if b.is_log:
        if base <= 0:
            return None
        try:
            r = b.from_base(base, **kw)
        except ValueError:
            return None
        if isinstance(r, mpmath.mpc):
            return None
        return r
    return b.from_base(base)


# --------------------------------------------------------------------------
# The UDUNITS-2 database


def plural(singular: str) -> str:
    """UDUNITS-2's formPlural()."""
    if len(singular) <= 1:
        return singular + "s"
    last, prev = singular[-1], singular[-2]
    if last == "y":
        return singular + "s" if prev in "aeiou" else singular[:-1] + "ies"
    if last in "sxz" or singular.endswith(("ch", "sh")):
        return singular + "es"
    return singular + "s"


@dataclasses.dataclass
class Entry:
    index: int
    definition: str | None  # None for a basis unit
    dimensionless: bool
    names: list  # singular and plural of the name
    symbols: list
    alias_names: list
    alias_symbols: list

    @property
    def basis(self):
        return (self.names or self.symbols)[0]


def read_xml(path):
    """(prefixes {text: Fraction} for names, for symbols, entries)."""

    def local(e):
        return e.tag.split("}")[-1] if isinstance(e.tag, str) else ""

    root = ET.parse(path).getroot()
    system = next(e for e in root.iter() if local(e) == "unit-system")
    pnames, psymbols, entries = {}, {}, []

    def names_of(e):
        sing = plur = None
        noplural = False
        for c in e:
            if local(c) == "singular":
                sing = c.text.strip()
            elif local(c) == "plural":
                plur = c.text.strip()
            elif local(c) == "noplural":
                noplural = True
        if noplural:
            return [sing]
        return [sing, plur or plural(sing)]

    for e in system:
        if local(e) == "prefix":
            value = name = None
            for c in e:
                if local(c) == "value":
                    value = Fraction(Decimal(c.text.strip()))
            for c in e:
                if local(c) == "name":
                    pnames[c.text.strip()] = value
                elif local(c) == "symbol":
                    psymbols[c.text.strip()] = value
        elif local(e) == "unit":
            en = Entry(len(entries), None, False, [], [], [], [])
            for c in e:
                t = local(c)
                if t == "name":
                    en.names = names_of(c)
                elif t == "symbol":
                    en.symbols.append((c.text or "").strip())
                elif t == "def":
                    en.definition = (c.text or "").strip()
                elif t == "dimensionless":
                    en.dimensionless = True
                elif t == "aliases":
                    for a in c:
                        if local(a) == "name":
                            en.alias_names += names_of(a)
                        elif local(a) == "symbol":
                            en.alias_symbols.append((a.text or "").strip())
            entries.append(en)
    return pnames, psymbols, entries


class System:
    """The reference unit system."""

    def __init__(self, pnames, psymbols, entries):
        self.pnames, self.psymbols, self.entries = pnames, psymbols, entries
        self.tables = [{}, {}, {}, {}]  # names, alias names, symbols, alias symbols
        for e in entries:
            for table, keys in zip(self.tables, (e.names, e.alias_names, e.symbols, e.alias_symbols)):
                for k in keys:
                    table[k] = e
        self._units: dict[int, object] = {}
        self._busy: set[int] = set()
        self._lookup: dict[str, object] = {}

    @classmethod
    @functools.lru_cache(None)
    def udunits2(cls):
        return cls(*read_xml(HERE / "udunits2_combined.xml"))

    def exact(self, name):
        for table in self.tables:
            if name in table:
                return table[name]
        return None

    def unit_of(self, e: Entry):
        if e.index in self._units:
            r = self._units[e.index]
        else:
            if e.index in self._busy:
                raise Undefined("cyclic definition")
            self._busy.add(e.index)
            try:
                if e.definition is None:
                    if e.dimensionless:
                        r = Lin(Fraction(1), (), angles=((e.basis, 1),))
                    else:
                        r = Lin(Fraction(1), ((e.basis, 1),))
                else:
                    try:
                        r = evaluate(refparse.parse(e.definition), self.lookup)
                    except (Undefined, Unknown, refparse.Rejected) as exc:
                        r = exc
            finally:
                self._busy.discard(e.index)
            self._units[e.index] = r
        if isinstance(r, Exception):
            raise r
        return r

    def candidates(self, name):
        """[(prefix text, value, rest, Entry)] for a name with one prefix."""
        out = []
        for table in (self.pnames, self.psymbols):
            hits = [(p, table[p], name[len(p):]) for p in table if p and name.startswith(p)]
            hits = [(p, v, r, self.exact(r)) for p, v, r in hits if r and self.exact(r) is not None]
            out += sorted(hits, key=lambda h: -len(h[0]))
        return out

    def lookup(self, name):
        if name in self._lookup:
            r = self._lookup[name]
        else:
            try:
                r = self._find(name)
            except (Undefined, Unknown, refparse.Rejected) as exc:
                r = exc
            self._lookup[name] = r
        if isinstance(r, Exception):
            raise r
        return r

    def _find(self, name):
        e = self.exact(name)
        if e is not None:
            return self.unit_of(e)
        c = self.candidates(name)
        if not c:
            raise Unknown(name)
        return prefixed(c[0][1], self.unit_of(c[0][3]))

    def unit(self, text: str):
        return evaluate(refparse.parse_cached(text), self.lookup)

    def addressable(self, name: str) -> bool:
        """Whether the text of this name reads as that one identifier."""
        try:
            return refparse.parse_cached(name) == ("id", name)
        except refparse.Rejected:
            return False
