"""Arrays are converted element by element."""
import numpy as np

from .. import convlib, drive, gen, model

PROPERTY = "C18"
RULE = (
    "Random converters (linear, reciprocal, offset, logarithmic) applied to arrays: every integer, float and complex dtype and "
    "bool, extreme integers, empty, long (up to 5000, some up to a million), half and long double precision, 0-d, 2-d, strided, reversed, Fortran-ordered, read-only, masked, subclassed; and "
    "to numpy and Python scalars. Recorded: result, its shape and mask, the input before and after. Oracle: "
    "element-wise equality with the scalar conversion of float(element), unchanged input. Non-trivial: distinct "
    "converter and array."
)
FLOORS = {"arrays": {"quick": 900, "thorough": 15000}, "elements": {"quick": 3000, "thorough": 50000}, "masked": 60, "integer": 250,
          "readonly": 60, "huge": {"quick": 40, "thorough": 400}, "empty": 40, "long": 100, "complex": {"quick": 200, "thorough": 2500}, "scalars": {"quick": 300, "thorough": 5000}}
BATCH = 2
SHARD0 = 0.1
DTYPES = ["f8", "f8", "f4", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "?", ">f8", ">i4", "g", "f2"]


def plan(ctx):
    return list(range(ctx.pick(2500, 30000)))


def converter(rng, S):
    for _ in range(40):
        k = rng.random()
        if k < 0.25:
            a, b = ("id", rng.choice(["degC", "degF", "K"])), ("id", rng.choice(["degC", "degF", "K", "degR"]))
        else:
            a = gen.expr(rng, drive.name_pool(rng, 2), rng.randint(0, 2), 0, 0)
            d = drive.dims(a)
            if d is None:
                continue
            d = tuple(sorted(d.items()))
            b = drive.same_dims(rng, model.inverse_dims(d) if k > 0.85 else d)
            if k < 0.35:
                b = ("log", rng.choice(["lg", "ln", "lb"]), b)
            elif k < 0.45:
                a = ("shift", a, rng.choice(gen.NUMBERS))
            if rng.random() < 0.15:
                a = ("mul", ("num", gen.Fraction(rng.choice([*gen.LONG_INTS, "18446744073709551616", "1e25"]))), a)
            if rng.random() < 0.3:
                a, b = b, a
        ma, mb = convlib.defined(a), convlib.defined(b)
        if ma is None or mb is None or any(not u.is_log and u.scale == 0 for u in (ma, mb)):
            continue
        ta, tb = drive.text(a, rng), drive.text(b, rng)
        c = drive.py.Converter(S.unit(ta), S.unit(tb))
        return c, (ta, tb)
    return None, None


class Sub(np.ndarray):
    pass


def array(rng):
    dt = np.dtype(rng.choice(DTYPES))
    shape = rng.choice([(3,), (4,), (2, 3), (1,), (0,), (), (2, 0), (5,), (2, 2, 2)])
    if rng.random() < 0.2:
        # Beyond any small-size path of the code.
        shape = rng.choice([(65,), (129,), (17, 9), (600,), (1025,), (5000,), (70, 70)])
    n = int(np.prod(shape))
    if dt.kind == "f":
        vals = [rng.choice([0.0, 1.0, -2.5, 1e3, 0.125, 273.15, 1e-3, -40.0, float("nan"), 1.5]) for _ in range(n)]
    elif dt.kind == "b":
        vals = [rng.random() < 0.5 for _ in range(n)]
    else:
        info = np.iinfo(dt)
        vals = [rng.choice([0, 1, 2, 100, info.max, info.min, info.max - 1, info.max // 2, 7]) for _ in range(n)]
    x = np.array(vals, dtype=dt).reshape(shape)
    notes = []
    k = rng.random()
    if k < 0.1 and x.ndim == 1 and n:
        y = np.zeros(2 * n, dtype=dt)
        y[::2] = x
        x = y[::2]
        notes.append("strided")
    elif k < 0.2 and x.ndim == 1:
        x = x[::-1]
        notes.append("reversed")
    elif k < 0.3:
        x = np.asfortranarray(x)
    elif k < 0.42:
        x = np.ma.array(x, mask=np.array([rng.random() < 0.4 for _ in range(n)], dtype=bool).reshape(shape))
        notes.append("masked")
    elif k < 0.48:
        x = x.view(Sub)
    if "masked" not in notes and rng.random() < 0.2:
        x.flags.writeable = False
        notes.append("readonly")
    if n == 0:
        notes.append("empty")
    if n > 64:
        notes.append("long")
    if dt.kind in "iu":
        notes.append("integer")
    return x, notes


def scalar(c, v, memo=None):
    if memo is not None:
        key = repr(float(v))
        if key not in memo:
            memo[key] = scalar(c, v)
        return memo[key]
    r = drive.outcome(c.convert, float(v))
    return float(r[1]) if r[0] == "ok" and drive.is_number(r[1]) else None


def agree(g, w, single):
    g = float(g)
    if w is None or not np.isfinite(w):
        # 1/0, log(0): whatever the array form gives, it must not be a number
        # that looks sound. Python raises or returns zoo where numpy has inf.
        return not np.isfinite(g) or w is None
    if not np.isfinite(g):
        return single
    if single:
        # Single precision: only the order of magnitude of rounding errors.
        return not 1e-25 < abs(w) < 1e25 or abs(g - w) <= 2e-4 * abs(w) + 1e-3
    return abs(g - w) <= 1e-12 * abs(w)


def fits(c, v, g, w, single):
    """Whether an element agrees with the scalar, up to what rounding does to both."""
    if agree(g, w, single):
        return True
    zero = scalar(c, 0.0)
    if w is not None and np.isfinite(w) and np.isfinite(float(g)) and zero is not None and np.isfinite(zero) \
            and abs(float(g) - w) <= (1e-5 if single else 1e-13) * abs(zero):
        return True
    if single:
        # Factors which themselves are not single precision numbers.
        from sympy import Float, Rational

        return any(n and not 1e-25 < abs(float(n)) < 1e25 for n in c.expression.atoms(Float, Rational))
    if w is None or not np.isfinite(w) or not np.isfinite(float(g)):
        return False
    # Terms that cancel, such as log(1000*0.001): what does a change of the last digits do?
    noise = [scalar(c, float(v) * (1 + e)) for e in (-1e-13, 1e-13)]
    return all(n is not None and np.isfinite(n) for n in noise) and abs(float(g) - w) <= max(abs(n - w) for n in noise) <= 1e-9


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        c, texts = converter(rng, S)
        if c is None:
            continue
        for _ in range(9):
            x, notes = array(rng)
            one(obs, c, texts, x, notes)
        if rng.random() < 0.15:
            huge(obs, rng, c, texts)
        if rng.random() < 0.3:
            complex_case(obs, rng, c, texts)
        for v in [3, 2.5, -1, np.float64(4.5), np.int32(7), np.int8(100), np.uint8(200), np.float32(1.5), np.True_, 10**18, 10**22]:
            if rng.random() < 0.4:
                continue
            obs.count("scalars")
            r = drive.outcome(c.convert, v)
            w = scalar(c, v)
            if w is None or not np.isfinite(w):
                continue
            if r[0] != "ok" or not drive.is_number(r[1]) or not fits(c, v, r[1], w, isinstance(v, np.float32)):
                obs.violation(f"{texts}: {v!r} ({type(v).__name__}) gives {r[1]!r}, float {w!r}", units=texts)


def huge(obs, rng, c, texts):
    """Very long arrays: all elements are judged, but few distinct ones occur."""
    n = rng.choice([20011, 50003, 65537, 70001, 131073, 262147, 1000003])
    pool = np.array([0.0, 1.0, -2.5, 1e3, 0.125, 273.15, -40.0, 1.5, 7.0])
    dt = np.dtype(rng.choice(["f8", "f8", "i4", "f4", "i8"]))
    pool = pool.astype(dt)
    which = np.random.default_rng(rng.randrange(2**32)).integers(0, len(pool), n)
    x = pool[which]
    rows = rng.choice([1, 1, 7])
    if rows > 1:
        x, which = x[: n // 7 * 7].reshape(7, -1), which[: n // 7 * 7]
    masked = rng.random() < 0.3
    mask = np.zeros(x.shape, bool)
    if masked:
        mask.reshape(-1)[[0, 5, x.size // 2, x.size - 1]] = True
        x = np.ma.array(x, mask=mask)
    before = np.ma.getdata(x).copy()
    what = f"{texts} {dt} array of {x.shape}{' masked' if masked else ''}"
    r = drive.outcome(c.convert, x)
    obs.count("huge")
    if r[0] != "ok":
        obs.violation(f"{what}: {r[1]}: {r[2]}", units=texts)
        return
    y = r[1]
    if np.shape(y) != x.shape:
        obs.violation(f"{what}: result has shape {np.shape(y)}", units=texts)
        return
    if not np.array_equal(np.ma.getdata(x), before):
        obs.violation(f"{what}: the input array was modified", units=texts)
        return
    mask_out = np.ma.getmaskarray(y)
    if masked and (mask & ~mask_out).any():
        obs.violation(f"{what}: masked elements became valid", units=texts)
        return
    flat, mo = np.asarray(np.ma.getdata(y)).reshape(-1), mask_out.reshape(-1)
    bare = ~mask.reshape(-1)
    for k, v in enumerate(pool):
        w = scalar(c, v)
        here = bare & (which == k)
        got, lost = flat[here], mo[here]
        obs.count("elements", int(here.sum()))
        if w is not None and np.isfinite(w):
            if lost.any():
                obs.violation(f"{what}: element {v!r} became masked", units=texts)
                return
        got = got[~lost]
        # Equal elements may differ in rounding only: judge the distinct results.
        for g in np.unique(got)[:50]:
            if not fits(c, v, g, w, dt == np.dtype("f4")):
                obs.violation(f"{what}: element {v!r} became {g!r}, alone it is {w!r}", units=texts)
                return


def complex_case(obs, rng, c, texts):
    """An affine conversion applies to real and imaginary part alike, the offset to the real part."""
    zero, w1, w2 = (scalar(c, v) for v in (0.0, 1.0, -1000.0))
    if None in (zero, w1, w2) or not np.isfinite([zero, w1, w2]).all() or not 1e-15 < abs(w1 - zero) < 1e15:
        return
    if abs((w2 - zero) + 1000 * (w1 - zero)) > 1e-9 * (abs(w2) + abs(zero)) or "log" in str(c.expression):
        return
    n = rng.choice([1, 3, 4, 70])
    part = lambda: rng.choice([0.0, 1.0, -2.5, 1e3, 0.125, 273.15, -40.0])
    x = np.array([complex(part(), part()) for _ in range(n)], dtype=rng.choice(["c16", "c16", ">c16"]))
    if rng.random() < 0.3:
        x = x.reshape(-1, 1)
    before = x.copy()
    r = drive.outcome(c.convert, x)
    what = f"{texts} {x.dtype} {x.shape}"
    if r[0] != "ok" or np.shape(r[1]) != x.shape:
        obs.violation(f"{what}: {r[1]!r:.200}", units=texts, array=repr(before))
        return
    if x.tobytes() != before.tobytes():
        obs.violation(f"{what}: the input array was modified", units=texts, array=repr(before))
        return
    obs.count("complex")
    obs.case((texts, repr(before)), what)
    for v, g in zip(before.reshape(-1), np.asarray(r[1]).reshape(-1)):
        a, b = scalar(c, v.real), scalar(c, v.imag)
        w = complex(a, b - zero)
        if abs(complex(g) - w) > 1e-12 * (abs(a) + abs(b) + abs(zero)):
            obs.violation(f"{what}: element {v!r} became {g!r}, expected {w!r}", units=texts, array=repr(before))
            return


def one(obs, c, texts, x, notes):
    obs.count("arrays")
    for n in notes:
        obs.count(n)
    before = x.copy()
    state = drive.array_state(x)
    r = drive.outcome(c.convert, x)
    what = f"{texts} {x.dtype} {x.shape} {notes}"
    if r[0] != "ok":
        obs.violation(f"{what}: {r[1]}: {r[2]}", units=texts, array=repr(before))
        return
    y = r[1]
    if drive.array_state(x) != state:
        obs.violation(f"{what}: the input array was modified", units=texts, array=repr(before))
        return
    if np.shape(y) != x.shape:
        obs.violation(f"{what}: result has shape {np.shape(y)}", units=texts, array=repr(before))
        return
    mask_in = np.ma.getmaskarray(x)
    if "masked" in notes:
        if not isinstance(y, np.ma.MaskedArray) and x.shape:
            obs.violation(f"{what}: the result of a masked array is {type(y).__name__}", units=texts)
            return
        if y is np.ma.masked or not x.shape:
            return
        mask_out = np.ma.getmaskarray(y)
        if (mask_in & ~mask_out).any():
            obs.violation(f"{what}: masked elements became valid", units=texts, array=repr(before))
            return
    else:
        mask_out = np.zeros(x.shape, bool)
    if x.size and not (mask_in | mask_out).all():
        obs.case((texts, repr(before)), f"{what}")
    if np.asarray(np.ma.getdata(y)).dtype.kind not in "fiub":
        obs.violation(f"{what}: result has dtype {np.asarray(y).dtype}", units=texts)
        return
    flat_in, flat_out = np.ma.getdata(x).reshape(-1), np.asarray(np.ma.getdata(y)).reshape(-1)
    single = x.dtype == np.dtype("f4")
    memo: dict = {}
    for v, g, m, mo in zip(flat_in, flat_out, mask_in.reshape(-1), mask_out.reshape(-1)):
        if m:
            continue
        w = scalar(c, v, memo)
        if mo:
            # numpy masks what is out of domain.
            if w is not None and np.isfinite(w):
                obs.violation(f"{what}: element {v!r} became masked", units=texts, array=repr(before))
                return
            continue
        obs.count("elements")
        if x.dtype == np.dtype("f2"):
            # Factors themselves lose in half precision: only gross errors count.
            a, b = abs(float(v)), abs(w) if w is not None else np.inf
            if "re" not in "".join(texts).lower() and 0.01 < a < 1e4 and 0.01 < b < 1e4 and 1e-3 < a / b < 1e3 and np.isfinite(g) \
                    and abs(float(g) - w) > 0.05 * b + 1:
                obs.violation(f"{what}: element {v!r} became {g!r}, alone it is {w!r}", units=texts)
                return
            continue
        if np.isnan(float(v)):
            if not np.isnan(g):
                obs.violation(f"{what}: nan became {g!r}", units=texts)
                return
            continue
        if x.dtype == np.dtype("g") and w is not None and np.isfinite(w) and np.isfinite(g):
            # More digits than the scalar has: terms that cancel show them.
            zero = scalar(c, 0.0, memo)
            if abs(float(g) - w) <= 1e-12 * max(abs(w), abs(zero) if zero is not None and np.isfinite(zero) else 0):
                continue
        if not fits(c, v, g, w, single):
            obs.violation(f"{what}: element {v!r} became {g!r}, alone it is {w!r}", units=texts, array=repr(before))
            return
