"""Using units changes nothing, and every question has one answer."""
import time

import numpy as np

from .. import drive, gen, model

PROPERTY = "C24"
RULE = (
    "Random programs over one pool of units and converters: every kind of question (text, expansion, dimensionality, "
    "predicates, ==, convertibility, building converters, converting scalars, lists and arrays, failing requests) in "
    "random order with repetition. Recorded: each answer, inputs before and after. Oracle: the first answer to the same "
    "question, the answers of untouched twins, bytewise equality of inputs, and for arrays changed in place the answer for a copy. Non-trivial: distinct program."
)
ASSUMPTIONS = ["converting to the same unit may hand back the array it was given"]
FLOORS = {"programs": {"quick": 120, "thorough": 1500}, "questions": {"quick": 5000, "thorough": 60000}, "repeated": {"quick": 1500, "thorough": 20000},
          "arrays": {"quick": 300, "thorough": 4000}, "refusals": {"quick": 200, "thorough": 2500}, "twins": {"quick": 1000, "thorough": 12000},
          "passing": {"quick": 6000, "thorough": 100000}, "reused": {"quick": 300, "thorough": 4000}, "kept": {"quick": 200, "thorough": 3000}}
BATCH = 1
# Some units take long to work with: what a program gets round to is limited.
SLOW = 20
SHARD0 = 0.1


def plan(ctx):
    return list(range(ctx.pick(200, 3000)))


def pool(rng):
    """Texts of units, many of them convertible into each other."""
    base = gen.expr(rng, drive.name_pool(rng, 3), 2, 0, 0)
    d = drive.dims(base)
    asts = [base]
    if d is not None:
        dims = tuple(sorted(d.items()))
        asts += [drive.same_dims(rng, dims) for _ in range(2)]
        asts += [("div", ("num", gen.Fraction(1)), drive.same_dims(rng, dims))]
    asts += [("log", rng.choice(["lg", "ln", "lb"]), base), ("shift", base, rng.choice(gen.NUMBERS))]
    texts = [drive.text(a, rng) for a in asts if drive.classify(a) == "unit"]
    return texts + rng.sample(["degC", "degF", "K", "hours since 2000-01-01", "radian", "1", "", "Bm", "mW", "kelvin @ 3"], 3)


ARRAYS = [np.array([1.0, 2.5, -3.0]), np.array([[1, 2], [3, 4]]), np.array([1, 2, 3], dtype="int32"), np.array([], dtype=float),
          np.array(4.0), np.array([1.5, 2.5], dtype="float32"), np.arange(6.0)[::2], np.array([True, False]),
          np.linspace(-50.0, 900.0, 66), np.arange(3000.0).reshape(50, 60), np.arange(700, dtype="float32"), np.arange(700)]


def freeze(x):
    """A comparable summary of an answer."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, float):
        return ("float", repr(x))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    return (type(x).__name__, str(x))


def summary(r):
    return freeze(r[1]) if r[0] == "ok" else ("raised", r[1], str(r[2]))


def question(rng, n):
    k = rng.randrange(11)
    i, j = rng.randrange(n), rng.randrange(n)
    if k == 0:
        return ("str", i)
    if k == 1:
        return ("expanded", i)
    if k == 2:
        return ("dims", i)
    if k == 3:
        return ("predicates", i)
    if k == 4:
        return ("eq", i, j)
    if k == 5:
        return ("convertible", i, j)
    if k == 6:
        return ("expression", i, j)
    if k == 7:
        return ("convert", i, j, rng.choice([1, 2.5, -3, 0.1, 10**6]))
    if k == 8:
        return ("array", i, j, rng.randrange(len(ARRAYS)))
    if k == 9:
        return ("bad", rng.randrange(5), i)
    return ("repr", i)


def ask(S, units, convs, q, obs, kept=None):
    kind = q[0]
    if kind == "bad":
        what = [lambda: S.unit("m s-"), lambda: S.unit("nosuchunit"), lambda: S.unit("m (s @ 2000)"),
                lambda: drive.py.Converter(units[q[2]], S.unit("kg7/A5")),
                lambda: units[q[2]].dimensionality()["nosuch"]][q[1]]
        return what()
    u = units[q[1]]
    if kind == "str":
        return str(u)
    if kind == "repr":
        return repr(u)
    if kind == "expanded":
        return u.expanded()
    if kind == "dims":
        return drive.dims_of(u)
    if kind == "predicates":
        return (u.is_dimensionless(), u.is_time_unit())
    v = units[q[2]]
    if kind == "eq":
        return (u == v, u != v)
    if kind == "convertible":
        return u.is_convertible_to(v)
    key = (q[1], q[2])
    c = convs.get(key)
    if c is None:
        c = drive.py.Converter(u, v)
        if len(convs) < 12:
            convs[key] = c
    if kind == "expression":
        return str(c.expression)
    if kind == "convert":
        return c.convert(q[3])
    a = ARRAYS[q[3]].copy()
    if q[3] == 6:
        a = np.arange(6.0)[::2]
    before, state = freeze(a), drive.array_state(a)
    r = c.convert(a)
    if obs is not None:
        obs.count("arrays")
        if drive.array_state(a) != state:
            obs.violation(f"converting {before} from {u} to {v} changed the array", expression=str(c.expression))
        if isinstance(r, np.ndarray) and not np.shares_memory(a, r):
            kept.append((r, freeze(r), q))
            reused(obs, c, u, v, a)
    return r


def reused(obs, c, u, v, a):
    """The same array, given other values, is converted anew."""
    for _ in range(2):
        a[...] = np.roll(a, 1, axis=None) if a.dtype == bool else a + a.dtype.type(1)
        obs.count("reused", a.size > 0)
        if freeze(c.convert(a)) != freeze(c.convert(a.copy())):
            obs.violation(f"an array that was changed to {a!r:.200} converts from {u} to {v} as if it were another one", expression=str(c.expression))
            return


def run_items(ctx, obs, items, shard):
    S = drive.system()
    for i in items:
        rng = ctx.rng(i)
        texts = pool(rng)
        units = [S.unit(t) for t in texts]
        convs: dict = {}
        answers: dict = {}
        kept: list = []
        obs.count("programs")
        program = []
        n = ctx.pick(45, 70)
        start = time.monotonic()
        for step in range(n):
            if time.monotonic() - start > SLOW:
                break
            if program and rng.random() < 0.4:
                q = rng.choice(program)
            else:
                q = question(rng, len(units))
            program.append(q)
            r = drive.outcome(ask, S, units, convs, q, obs, kept)
            a = freeze(r[1]) if r[0] == "ok" else ("raised", r[1], str(r[2]))
            obs.count("questions")
            if r[0] != "ok":
                obs.count("refusals")
            if q in answers:
                obs.count("repeated")
                if answers[q] != a:
                    obs.violation(f"{show(q, texts)} first gave {answers[q]!r:.300}, later {a!r:.300}",
                                  program=[show(p, texts) for p in program])
                    return
            answers[q] = a
            if kept and rng.random() < 0.2:
                # An answer belongs to the one who asked.
                mine, frozen, what = kept.pop(rng.randrange(len(kept)))
                obs.count("kept")
                if freeze(mine) != frozen:
                    obs.violation(f"the answer to {show(what, texts)} changed afterwards: {frozen!r:.300} became {freeze(mine)!r:.300}",
                                  program=[show(p, texts) for p in program])
                    return
                if mine.flags.writeable:
                    mine[...] = 7
        for mine, frozen, what in kept:
            obs.count("kept")
            if freeze(mine) != frozen:
                obs.violation(f"the answer to {show(what, texts)} changed afterwards: {frozen!r:.300} became {freeze(mine)!r:.300}",
                              program=[show(p, texts) for p in program])
                return
        obs.case((texts, program), f"{texts}: {[show(q, texts) for q in program[:4]]}")
        # Twins nobody asked anything before.
        for q in rng.sample(sorted(answers, key=repr), min(len(answers), 10)):
            if time.monotonic() - start > 2 * SLOW:
                break
            twins = [S.unit(t) for t in texts]
            r = drive.outcome(ask, S, twins, {}, q, None)
            a = freeze(r[1]) if r[0] == "ok" else ("raised", r[1], str(r[2]))
            obs.count("twins")
            if q[0] == "repr":
                continue
            if a != answers[q]:
                obs.violation(f"{show(q, texts)} gave {answers[q]!r:.300}, an untouched twin gives {a!r:.300}",
                              program=[show(p, texts) for p in program])
                return
        # Units that live only for one question, so that their memory is used again.
        first = [S.unit(t) for t in texts]
        table = {}
        for _ in range(ctx.pick(60, 120)):
            if time.monotonic() - start > 3 * SLOW:
                break
            i, j = rng.randrange(len(texts)), rng.randrange(len(texts))
            kind = rng.choice(["convertible"] * 4 + ["eq", "convert"])
            obs.count("passing")

            def about(u, v):
                if kind == "convertible":
                    return (u.is_convertible_to(v), v.is_convertible_to(u))
                if kind == "eq":
                    return (u == v, v == u)
                return drive.py.Converter(u, v).convert(2.5)

            key = (kind, i, j)
            if key not in table:
                table[key] = summary(drive.outcome(about, S.unit(texts[i]), first[j]))
            got = summary(drive.outcome(lambda: about(units[i], S.unit(texts[j]))))
            if got != table[key]:
                obs.violation(f"{show(key, texts)} gives {got!r:.300} with a short-lived unit, {table[key]!r:.300} otherwise",
                              program=[show(p, texts) for p in program])
                return
        for t, u in zip(texts, units):
            if str(u) != str(S.unit(t)):
                obs.violation(f"{t!r} is now written {u}", program=[show(p, texts) for p in program])


def show(q, texts):
    return (q[0],) + tuple(texts[x] if k < 2 and isinstance(x, int) and q[0] != "bad" else x for k, x in enumerate(q[1:]))
