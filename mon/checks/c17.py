"""Conversions compose."""
import math

from .. import convlib, drive, gen, model

PROPERTY = "C17"
RULE = (
    "Triples a, b, c of random mutually convertible units (linear, reciprocal, offset, logarithmic). Recorded: "
    "conversions a-a, a-b, b-a, b-c, a-c at several values. Oracle: the laws identity, round trip and composition "
    "between the recorded numbers, with a tolerance from probing each recorded function's sensitivity to 1e-10 "
    "relative input noise. Non-trivial: distinct triple with at least one judged law."
)
ASSUMPTIONS = ["values whose intermediate results are finite, real and non-zero"]
FLOORS = {"triples": {"quick": 130, "thorough": 2500}, "identity": {"quick": 300, "thorough": 5000},
          "roundtrip": {"quick": 250, "thorough": 4500}, "composition": {"quick": 250, "thorough": 4500},
          "reciprocal": {"quick": 15, "thorough": 500}, "log": {"quick": 20, "thorough": 300}, "offset": {"quick": 30, "thorough": 500}}
BATCH = 2
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(2800, 30000)))


def partner(rng, d):
    b = drive.same_dims(rng, d)
    k = rng.random()
    if k < 0.15:
        b = ("shift", b, rng.choice(gen.NUMBERS))
    elif k < 0.3:
        b = ("log", rng.choice(["lg", "ln", "lb"]), b)
    elif k < 0.4 and d == (("kelvin", 1),):
        b = ("id", rng.choice(["degC", "degF"]))
    return b


def call(c, v):
    r = drive.outcome(c.convert, v)
    if r[0] != "ok":
        return None
    try:
        x = float(r[1])
    except (TypeError, ValueError, OverflowError):
        return None
    return x if math.isfinite(x) and abs(x) < 1e200 and (x == 0 or abs(x) > 1e-200) else None


def spread(c, v):
    """How much the result moves under 1e-10 relative input noise."""
    lo, mid, hi = call(c, v * (1 - 1e-10)), call(c, v), call(c, v * (1 + 1e-10))
    if lo is None or mid is None or hi is None:
        return None
    s = max(abs(hi - lo), abs(hi - mid), abs(lo - mid))
    return s if s <= 1e-4 * abs(mid) else None


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        if rng.random() < 0.15:
            d = (("kelvin", 1),)
        else:
            x = gen.expr(rng, drive.name_pool(rng, 2), rng.randint(0, 2), 0, 0) if rng.random() < 0.93 else drive.wide(rng)
            d = drive.dims(x)
            if d is None:
                continue
            d = tuple(sorted(d.items()))
        asts = [partner(rng, d), partner(rng, model.inverse_dims(d) if rng.random() < 0.32 else d), partner(rng, d)]
        if rng.random() < 0.2:
            a, b = drive.lookalike(rng)
            d = drive.dims(a)
            if d is None:
                continue
            asts = [a, partner(rng, tuple(sorted(d.items()))), b]
        rng.shuffle(asts)
        models = [convlib.defined(a) for a in asts]
        if any(m is None or (not m.is_log and m.scale <= 0) for m in models):
            continue
        texts = [drive.text(a, rng) for a in asts]
        A, B, C = (S.unit(t) for t in texts)
        mk = lambda x, y: drive.py.Converter(x, y)
        try:
            aa, ab, ba, bc, ac = mk(A, A), mk(A, B), mk(B, A), mk(B, C), mk(A, C)
        except drive.py.IncompatibleUnitsError as exc:
            obs.violation(f"convertible units refused: {exc}", units=texts)
            continue
        obs.count("triples")
        if any(m.is_log for m in models):
            obs.count("log")
        if any(not m.is_log and m.offset for m in models):
            obs.count("offset")
        if len({m.dims for m in models}) > 1:
            obs.count("reciprocal")
        judged = False
        for v in [rng.choice(drive.VALUES) for _ in range(2)] + [rng.uniform(0.2, 5)]:
            v = float(v)
            got = call(aa, v)
            same = spread(aa, v)
            if got is not None and same is not None:
                obs.count("identity")
                judged = True
                if abs(got - v) > 1e-9 * abs(v) + 10 * same + 1e-12:
                    obs.violation(f"{v} {texts[0]!r} in the same unit is {got}", units=texts, value=v)
                    break
            y = call(ab, v)
            if y is None or y == 0:
                continue
            back, s, s0 = call(ba, y), spread(ba, y), spread(ab, v)
            if back is None or s is None or s0 is None:
                continue
            moved = call(ab, v + 1e-3 * abs(v))
            if moved is None or abs(moved - y) < 1e-9 * abs(y):
                continue  # the value drowns in an offset of the other unit
            scale = offset_size(models[0])
            obs.count("roundtrip")
            judged = True
            if abs(back - v) > 1e-9 * (abs(v) + scale) + 20 * s:
                obs.violation(f"{v} {texts[0]!r} -> {y} {texts[1]!r} -> {back}", units=texts, value=v)
                break
            direct, via, s2, s3 = call(ac, v), call(bc, y), spread(bc, y), spread(ac, v)
            if direct is None or via is None or s2 is None or s3 is None:
                continue
            obs.count("composition")
            if abs(direct - via) > 1e-9 * (abs(direct) + offset_size(models[2])) + 20 * (s2 + s3):
                obs.violation(f"{v} {texts[0]!r} is {direct} {texts[2]!r}, but {via} by way of {texts[1]!r}",
                              units=texts, value=v)
                break
        if judged:
            obs.case(texts, texts)


def offset_size(m):
    if m.is_log:
        return float(abs(m.shift)) + 1
    return float(abs(m.offset))
