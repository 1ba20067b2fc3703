"""Driving pyudunits2 and reading back what it did."""
from __future__ import annotations

import functools
import math
from fractions import Fraction

import mpmath

from . import core, gen, model, refparse
from .model import Lin, Log, Undefined, Unknown

py = core.import_target()


def fresh_system():
    return py.UnitSystem.from_udunits2_xml()


@functools.lru_cache(None)
def system():
    return fresh_system()


def dims_of(unit) -> tuple:
    """Observed dimensionality, in the model's form."""
    out = {}
    for basis, order in unit.dimensionality().items():
        out[str(basis)] = out.get(str(basis), 0) + order
    return tuple(sorted((b, n) for b, n in out.items()))


def ast_of(unit_text: str):
    return refparse.of_graph(parse(unit_text))


def parse(text):
    from pyudunits2._grammar import parse as p

    return p(text)


def normalize(text):
    from pyudunits2._grammar import normalize as n

    return n(text)


def outcome(fn, *args, **kw):
    """('ok', value) or ('raised', exception type name, exception)."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception as exc:
        return ("raised", type(exc).__name__, exc)


def fate(result):
    """A comparable summary of an outcome."""
    return result[:1] if result[0] == "ok" else result[:2]


# --- catalogue of database units, by dimensions ---------------------------


@functools.lru_cache(None)
def catalogue():
    """{dims: [name]} for plain (linear, unshifted) addressable names, with
    names of ordinary magnitude."""
    M = model.System.udunits2()
    out: dict = {}
    for table in M.tables:
        for name in table:
            if not M.addressable(name) or name in ("per", "PER") or name in DATE_WORDS:
                continue
            try:
                u = M.lookup(name)
            except (Undefined, Unknown, refparse.Rejected):
                continue
            if isinstance(u, Lin) and not u.offset and u.scale > 0 and Fraction(1, 10**40) < u.scale < 10**40:
                out.setdefault(u.dims, []).append(name)
    return {k: sorted(set(v)) for k, v in out.items()}


@functools.lru_cache(None)
def plain_names():
    return sorted({n for v in catalogue().values() for n in v})


@functools.lru_cache(None)
def common_names():
    """Everyday names, so that random expressions often share dimensions."""
    M = model.System.udunits2()
    names = ["m", "s", "kg", "K", "A", "mol", "cd", "rad", "km", "cm", "mm", "hour", "minute", "day", "g", "mg", "N",
             "J", "W", "Pa", "hPa", "Hz", "V", "ohm", "F", "C", "tesla", "Wb", "L", "ft", "inch", "mile", "lb", "degree",
             "percent", "ppm", "yd", "acre", "bar", "atm", "kWh" if False else "eV", "knot", "sr", "lm", "lux", "Bq",
             "Gy", "kat", "year", "week", "micron", "au", "hectare", "dyn", "erg", "poise", "gallon", "liter",
             "kilometers", "millibars", "MHz", "uF", "ns"]
    ok = []
    for n in names:
        try:
            M.lookup(n)
            if M.addressable(n):
                ok.append(n)
        except (Undefined, Unknown, refparse.Rejected):
            pass
    return ok


@functools.lru_cache(None)
def prefix_texts():
    M = model.System.udunits2()
    return sorted(M.pnames), sorted(M.psymbols)


def random_name(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(common_names())
    name = rng.choice(plain_names())
    if r < 0.8:
        return name
    return with_prefix(rng, name) or name


def with_prefix(rng, name):
    """A prefixed spelling that the model reads as prefix x name, or None."""
    M = model.System.udunits2()
    a, b = prefix_texts()
    p = rng.choice(a if rng.random() < 0.5 else b)
    full = p + name
    if M.exact(full) is not None or not M.addressable(full):
        return None
    c = M.candidates(full)
    if not c or c[0][0] != p or c[0][2] != name:
        return None
    return full


def name_pool(rng, n=6):
    return [random_name(rng) for _ in range(n)]


@functools.lru_cache(None)
def lookalikes():
    """Pairs of names of equal dimensions whose spellings hardly differ: in
    letter case only, or in one letter."""
    M = model.System.udunits2()
    cat = catalogue()
    found: dict = {}
    _, symbols = prefix_texts()
    for dims, names in cat.items():
        every = set(names)
        for name in names:
            if name in common_names() or len(name) <= 2:
                every |= {p + name for p in symbols if len(p) == 1 and M.addressable(p + name) and M.exact(p + name) is None
                          and M.candidates(p + name)[:1] and M.candidates(p + name)[0][2] == name}
        keys: dict = {}
        for name in sorted(every):
            keys.setdefault(name.lower(), []).append(name)
            for k in range(len(name)):
                keys.setdefault((k, name[:k], name[k + 1:]), []).append(name)
                keys.setdefault((k, name[:k], name[k:]), []).append(name)
        for key, group in keys.items():
            for i, x in enumerate(group):
                for y in group[i + 1:]:
                    found.setdefault(isinstance(key, str), set()).add((x, y))
    return sorted(found[True]), sorted(found[False])


def lookalike(rng):
    """A pair of ASTs."""
    a, b = rng.choice(lookalikes()[rng.random() < 0.4])
    pair = [("id", a), ("id", b)]
    rng.shuffle(pair)
    return pair


BASES = ("meter", "kilogram", "second", "ampere", "kelvin", "mole", "candela")


def wide(rng):
    """An AST of four to seven basis units."""
    return same_dims(rng, tuple(sorted((b, rng.choice([-3, -2, -1, -1, 1, 1, 2, 3])) for b in rng.sample(BASES, rng.randint(4, 7)))))


def same_dims(rng, dims):
    """An AST with the given dimensions, made of other units."""
    cat = catalogue()
    if dims in cat and rng.random() < 0.5:
        base = ("id", rng.choice(cat[dims]))
        parts = [base]
    elif model.inverse_dims(dims) in cat and dims and rng.random() < 0.4:
        parts = [("pow", ("id", rng.choice(cat[model.inverse_dims(dims)])), -1)]
    else:
        parts = []
        for b, n in dims:
            pool = cat.get(((b, 1),), []) or [b]
            left = abs(n)
            while left:
                take = rng.randint(1, left) if left < 6 else left
                left -= take
                name = rng.choice(pool)
                q = ("id", name)
                e = take if n > 0 else -take
                parts.append(q if e == 1 else ("pow", q, e))
        rng.shuffle(parts)
        if not parts:
            parts = [("num", Fraction(1))]
    if rng.random() < 0.35:
        parts.append(("num", rng.choice(gen.NUMBERS)))
    if rng.random() < 0.15:
        parts.append(("id", rng.choice(["rad", "degree", "percent", "sr"])))
    rng.shuffle(parts)
    ast = parts[0]
    for p in parts[1:]:
        if p[0] == "pow" and p[2] < 0 and rng.random() < 0.5:
            ast = ("div", ast, p[1] if p[2] == -1 else ("pow", p[1], -p[2]))
        else:
            ast = ("mul", ast, p)
    return ast


def lookup(name):
    return model.System.udunits2().lookup(name)


def evaluate(ast):
    """Model meaning, or None where none is claimed."""
    try:
        return model.evaluate(ast, lookup)
    except (Undefined, Unknown, refparse.Rejected):
        return None


def array_state(x):
    """Everything that could be changed about an array."""
    import numpy as np

    if isinstance(x, np.ma.MaskedArray):
        return ("masked", array_state(x.data), np.ma.getmaskarray(x).tobytes(), x.mask is np.ma.nomask, repr(x.fill_value), x.hardmask, x._sharedmask)
    f = x.flags
    base = x.base.tobytes() if isinstance(x.base, np.ndarray) and x.base.size < 20000 else None
    return (type(x).__name__, x.dtype.str, x.shape, x.strides, f.writeable, f.c_contiguous, f.f_contiguous, f.owndata, x.tobytes(), base)


# --- comparing numbers -----------------------------------------------------

VALUES = [0.0, 1.0, -1.0, 3.0, 10.0, 0.5, 1e-3, 273.15, -40.0, 1e6, 12345.678, 2, -7, 100]


REL = "1e-12"


def is_number(x) -> bool:
    import numbers

    import numpy as np

    return isinstance(x, (numbers.Real, np.floating, np.integer)) and not isinstance(x, bool)


def linear_terms(a: Lin, b: Lin, v):
    q = model.mpf(a.scale / b.scale)
    return max(abs(q * model.mpf(v)), abs(q * model.mpf(a.offset)), abs(model.mpf(b.offset)))


def expected(a, b, v, **kw):
    """(value, absolute tolerance) of converting v, or None if out of domain
    or ill conditioned."""
    how = model.convertible(a, b)
    mv = model.mpf(v)
    rel = mpmath.mpf(REL)
    # The quantity in basis units and its relative uncertainty.
    if a.is_log:
        exps = _log_exponent(a, mv, kw.get("buggy", False))
        if exps is None or exps > 600:
            return None
        base = a.to_base(mv, **kw)
        rbase = rel * (1 + exps)
    else:
        base = a.to_base(mv)
        size = max(abs(mv), abs(model.mpf(a.offset)))
        if base == 0:
            rbase = None
        else:
            rbase = rel * size / abs(mv + model.mpf(a.offset))
    if how == "reciprocal":
        if rbase is None or rbase > 1e-6:
            return None
        base = 1 / base
    if b.is_log:
        if rbase is None or rbase > 1e-6 or base <= 0:
            return None
        try:
            r = b.from_base(base, **kw)
        except (ValueError, ZeroDivisionError):
            return None
        if isinstance(r, mpmath.mpc) or not mpmath.isfinite(r):
            return None
        tol = 20 * (rbase + rel) * (1 + abs(r) + abs(1 / model.mpf(b.k))) * _log_slope(b, base)
        return r, tol
    r = b.from_base(base)
    big = abs(base / model.mpf(b.scale))
    if big > mpmath.mpf("1e290") or (big and big < mpmath.mpf("1e-290")):
        return None
    if how == "direct" and not a.is_log:
        tol = rel * linear_terms(a, b, v)
    else:
        tol = (rbase or rel) * big + rel * abs(model.mpf(b.offset))
    return r, tol


def _log_exponent(u, v, buggy):
    """Total exponent growth, the condition number of exponentiation."""
    try:
        w = v + model.mpf(u.shift)
        w = w / model.mpf(u.k) if buggy else w * model.mpf(u.k)
        e = abs(w * mpmath.log(u.B))
        if e > 700:
            return None
        if u.inner.is_log:
            inner = _log_exponent(u.inner, u.B**w, buggy)
            return None if inner is None else e + inner * (1 + e)
        return e
    except (OverflowError, ValueError):
        return None


def _log_slope(u, base):
    """Condition of nested logarithms near one."""
    slope = mpmath.mpf(1)
    x = base
    chain = []
    while u.is_log:
        chain.append(u)
        u = u.inner
    x = base / model.mpf(u.scale)
    for step in reversed(chain[1:]):
        x = mpmath.log(x) / mpmath.log(step.B)
        if x <= 0:
            return mpmath.mpf("1e30")
        slope *= 1 + 1 / abs(x)
    return slope


def close(got, want, tol) -> bool:
    try:
        g = mpmath.mpf(float(got)) if not isinstance(got, int) else mpmath.mpf(got)
    except (TypeError, ValueError, OverflowError):
        return False
    if mpmath.isnan(g) or not mpmath.isfinite(g):
        return False
    return abs(g - want) <= tol


def text(ast, rng=None) -> str:
    t = gen.spell(ast, rng)
    if rng is not None:
        # For example after a bracketed " @ " the lexer stays in its date mode, where some
        # spellings are not available (see the finding shift-mode-identifiers).
        try:
            refparse.parse(t)
        except refparse.Rejected:
            return gen.spell(ast, None)
    return t


def inner_shift(ast) -> bool:
    return any(
        "shift" in kinds(p)
        for p in ast[1:]
        if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge"
    )


DATE_WORDS = {"T", "Z", "UTC", "GMT", "TZ"}


def float_input(v):
    return v


# --- dates -----------------------------------------------------------------

SECOND = (("second", 1),)


def dims(ast, find=None):
    """Dimensions of an AST whatever its magnitude, or None where no meaning
    is claimed (unknown names, a logarithm times something else)."""
    find = find or lookup
    k = ast[0]
    if k in ("empty", "num"):
        return {}
    if k == "id":
        try:
            return dict(find(ast[1]).dims)
        except (Undefined, Unknown, refparse.Rejected):
            return None
    if k == "shift":
        return dims(ast[1], find)
    if k == "date":
        return dims(ast[1], find)
    if k == "log":
        return dims(ast[2], find)
    if k == "pow":
        d = dims(ast[1], find)
        return None if d is None else {b: n * ast[2] for b, n in d.items() if n * ast[2]}
    if k in ("mul", "div"):
        a, b = dims(ast[1], find), dims(ast[2], find)
        if a is None or b is None:
            return None
        out = dict(a)
        for x, n in b.items():
            out[x] = out.get(x, 0) + (n if k == "mul" else -n)
        return {x: n for x, n in out.items() if n}
    raise AssertionError(k)


def kinds(ast, out=None):
    out = set() if out is None else out
    out.add(ast[0])
    for p in ast[1:]:
        if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge":
            kinds(p, out)
    return out


def classify(ast, find=None):
    """'unit', 'date' (time shifted by a reference at the outermost level),
    'nested' (a date anywhere else: refused), or None if not claimed."""

    def nested(a):
        if a[0] == "date":
            return True
        if a[0] == "shift":
            d = dims(a[1], find)
            if d is None:
                raise Undefined("name")
            if d == dict(SECOND) or not isinstance(a[2], Fraction):
                return True
        return any(nested(p) for p in a[1:] if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge")

    try:
        if ast[0] in ("shift", "date"):
            d = dims(ast[1], find)
            if d is None:
                return None
            if d == dict(SECOND):
                return "nested" if nested(ast[1]) else "date"
        if dims(ast, find) is None:
            return None
        return "nested" if nested(ast) else "unit"
    except Undefined:
        return None
