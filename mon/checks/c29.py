"""Doing the same work again and again needs no more room."""
import collections
import gc
import os
import threading

import numpy as np
from sympy.core.cache import clear_cache

from .. import drive, gen, model

PROPERTY = "C29"
RULE = (
    "Random programs (parsing, lookups of known, prefixed, unknown and malformed texts, comparison, dimensionality, "
    "expansion, building converters, scalars and arrays, now and then loading the database) repeated on one unit system "
    "in three long windows after warming up. Recorded after each window, with garbage collected: live objects per "
    "pyudunits2 type, all objects "
    "and entries of containers, characters of texts, threads, open files; sympy's own cache, which is bounded, is emptied first. Oracle: none of these grows in proportion to the repetitions. "
    "Non-trivial: distinct program."
)
ASSUMPTIONS = ["caches keyed by the question may fill while it is asked the first times"]
FLOORS = {"programs": {"quick": 30, "thorough": 400}, "repetitions": {"quick": 600, "thorough": 8000}, "operations": {"quick": 10000, "thorough": 100000},
          "refusals": {"quick": 1000, "thorough": 10000}}
BATCH = 1
SHARD0 = 0.1
WARM, WINDOW = 4, 8
HELD = (str, bytes, bytearray, tuple)


def plan(ctx):
    return list(range(ctx.pick(48, 500)))


def program(rng):
    base = gen.expr(rng, drive.name_pool(rng, 3), 2, 0, 0)
    d = drive.dims(base)
    asts = [base, ("log", rng.choice(["lg", "ln", "lb"]), base), ("shift", base, rng.choice(gen.NUMBERS))]
    if d is not None:
        dims = tuple(sorted(d.items()))
        asts += [drive.same_dims(rng, dims), drive.same_dims(rng, model.inverse_dims(dims))]
    texts = [drive.text(a, rng) for a in asts if drive.classify(a) == "unit"]
    texts += [drive.random_name(rng) for _ in range(3)] + [rng.choice(["degC", "degF", "hours since 2000-01-01", "Bm", "radian"])]
    # A long one, too: what is kept per text may depend on its length.
    joint = rng.choice([" ", ".", "*", "·"])
    texts.append(joint.join(rng.choice(["m", "s", "kg", "km", "hour", "mm"]) for _ in range(rng.choice([12, 30, 60]))))
    ops = [("unit", texts[-1]), ("normalize", texts[-1]), ("bad", texts[-1] + " (")]
    for _ in range(14):
        k = rng.random()
        a, b = rng.choice(texts), rng.choice(texts)
        if k < 0.2:
            ops.append(("unit", a))
        elif k < 0.35:
            ops.append(("bad", rng.choice(["nosuchunit", "m s-", "kilokilom", "m (s @ 2000)", "(((", "lg(re", "zz" + a[:4], "漢"])))
        elif k < 0.5:
            ops.append(("eq", a, b))
        elif k < 0.65:
            ops.append(("convertible", a, b))
        elif k < 0.9:
            ops.append(("convert", a, b))
        elif k < 0.97:
            ops.append(("normalize", a))
        else:
            ops.append(("load",))
    return ops


def perform(S, op):
    kind = op[0]
    if kind in ("unit", "bad"):
        u = S.unit(op[1])
        return str(u), u.expanded(), str(u.dimensionality()), u.is_time_unit(), u.is_dimensionless(), repr(u) and None
    if kind == "normalize":
        return drive.normalize(op[1])
    if kind == "load":
        return drive.fresh_system().unit("km").expanded()
    a, b = S.unit(op[1]), S.unit(op[2])
    if kind == "eq":
        return a == b, a != b
    if kind == "convertible":
        return a.is_convertible_to(b)
    c = drive.py.Converter(a, b)
    return c.convert(2.5), c.convert(np.array([1.0, 2.0])), str(c.expression)


def census():
    """What is alive, after all garbage has gone."""
    clear_cache()
    for _ in range(2):
        gc.collect()
    types: collections.Counter = collections.Counter()
    total = 0
    inside = 0
    held = 0
    for o in gc.get_objects():
        t = type(o)
        total += 1
        if isinstance(o, (dict, list, set, collections.deque)):
            total += len(o)
        if isinstance(o, dict):
            held += sum(len(v) for v in list(o.values()) if isinstance(v, HELD))
        module = getattr(t, "__module__", None)
        if isinstance(module, str) and module.startswith("pyudunits2"):
            types[t.__qualname__] += 1
            inside += 1
            held += sum(len(v) for v in gc.get_referents(o) if isinstance(v, HELD))
    out = {f"{k} objects": n for k, n in types.items()}
    out["pyudunits2 objects"] = inside
    out["gc objects and entries"] = total
    out["characters and entries of attributes"] = held
    out["threads"] = threading.active_count()
    try:
        out["open files"] = len(os.listdir("/proc/self/fd"))
    except OSError:
        pass
    return out


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        ops = program(rng)
        obs.count("programs")

        def rounds(n):
            for _ in range(n):
                obs.count("repetitions")
                for op in ops:
                    obs.count("operations")
                    if drive.outcome(perform, S, op)[0] != "ok":
                        obs.count("refusals")

        rounds(WARM)
        counts = [census()]
        for _ in range(3):
            rounds(WINDOW)
            counts.append(census())
        obs.case(ops, ops[:4])
        for key in counts[-1]:
            grown = [b.get(key, 0) - a.get(key, 0) for a, b in zip(counts, counts[1:])]
            if min(grown) >= WINDOW - 1:
                obs.violation(f"{key}: {[c.get(key, 0) for c in counts]} after each {WINDOW} repetitions of the same operations",
                              operations=ops, which=key)
                return
