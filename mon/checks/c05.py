"""Parsing is total, bounded and depends on nothing but the text."""
import decimal
import sys
import unicodedata

from .. import drive, gen, refparse

PROPERTY = "C05"
RULE = (
    "Hostile texts: arbitrary unicode, control characters, unbalanced and deep brackets, long products, truncated and "
    "mutated sentences. Recorded per text: outcome (graph text or exception type) on first use, again in another "
    "order after unrelated and failing parses, and for a unit system the outcome of unit(). Oracle: only a graph or "
    "SyntaxError; unit() adds UnresolvableUnitException and, for nested dates, ValueError; outcomes are identical on "
    "every repetition, and equal to what an interpreter of the grammar without memory says, also after texts that are easily taken for the same; the number of Python calls stays under a budget proportional to the text. Non-trivial: "
    "distinct text."
)
ASSUMPTIONS = ["bracket depth under 25; texts under 300 characters, apart from long numbers and long chains"]
FLOORS = {"texts": {"quick": 1500, "thorough": 20000}, "repeats": {"quick": 1500, "thorough": 20000},
          "raised:SyntaxError": 400, "ok": 400, "unit_ok": 100, "step_counted": {"quick": 600, "thorough": 9000}, "judged_alone": {"quick": 1500, "thorough": 20000},
          "limits": {"quick": 180, "thorough": 4000}, "lookups_counted": {"quick": 100, "thorough": 2500}}
BATCH = 1
CALLS_PER_CHAR = 60_000  # measured: under 4,000 on hostile input
CALLS_OF_LOOKUP_PER_CHAR = 300  # of pyudunits2 after parsing; measured: 10


def plan(ctx):
    return list(range(ctx.pick(140, 2600)))


def hostile(rng):
    k = rng.random()
    if k < 0.15:
        return "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x80, 0x250), rng.randrange(0x2000, 0x2200), rng.randrange(0, 32)])) for _ in range(rng.randint(1, 25)))
    if k < 0.3:
        return gen.soup(rng, 1, 14, junk=0.15)
    if k < 0.4:
        d = rng.randint(1, 20)
        return "(" * d + rng.choice(["m", "", "K @ 1", "2"]) + ")" * rng.choice([d, d, d - 1, d + 1])
    if k < 0.5:
        n = rng.randint(2, 40)
        return rng.choice(["·", " ", "/", ".", "*"]).join(rng.choice(["m", "s", "kg", "2", "K2"]) for _ in range(n))
    if k < 0.55:
        return rng.choice(["1" * rng.randint(1, 300), "1e%d" % rng.randint(0, 10**6), "m^%d" % rng.randint(-10**9, 10**9), "0." + "0" * 100 + "1"])
    if k < 0.6:
        d = rng.randint(1, 8)
        return "lg(re " * d + "m" + ")" * d
    t = gen.sentence(rng, rng.randint(2, 5))
    if k < 0.8:
        t = gen.mutate(rng, t)
    elif k < 0.9:
        t = t[: rng.randint(0, len(t))]
    elif k < 0.95:
        t = gen.confuse(rng, t)
    return t


def huge(rng):
    """Numbers at and beyond what an int or a Decimal can be made of."""
    n = rng.choice([4299, 4300, 4301, 4302])
    d = "".join(rng.choice("123456789") for _ in range(n))
    e = rng.choice([9, 10, 17, 18, 19, 20, 30])
    e = rng.choice("123456789") + "".join(rng.choice("0123456789") for _ in range(e - 1))
    e = rng.choice([e, "999999999999999999", "1000000000000000000", "1999999999999999997", "1999999999999999998"])
    f = rng.choice(["1", "1.5", "0", "0.0", "12345678901234567890.5", "0.000001", ".5", "7.", "+3", "-2.25"]) + rng.choice("eE") + rng.choice(["", "+", "-"]) + e
    return rng.choice([
        lambda: d, lambda: d + " m", lambda: "m" + d, lambda: "m^-" + d, lambda: "m^+" + d, lambda: "-" + d, lambda: "m" + d.translate(UP), lambda: "K @ " + d,
        lambda: "m/" + d, lambda: "lg(re " + d + " m)", lambda: d + ".5", lambda: "0." + d, lambda: f, lambda: f + " m", lambda: "K @ " + f, lambda: "m/" + f,
        lambda: f"lg(re {f} m)", lambda: "days since " + d, lambda: "0" * n + "7", lambda: "m^" + "0" * n + "2"])()


def chain(rng):
    """A long text of few different parts, whose lookup must not take longer and longer per part."""
    n = rng.choice([15, 22, 30, 40])
    a = rng.choice(["(K @ 2)", "K", "(lg(re m))", "degC", "(m/s)", "2", "km"])
    b = rng.choice(["m", "s", "(K @ 1)", "2", "kg2", "Hz", "(m.s)", "s-1"])
    op = rng.choice(["/", "·", " ", "*", None])
    if op is not None:
        return a + (op + b) * n
    k = min(n, 12)
    return rng.choice([lambda: "(" * k + a + f"/{b})" * k, lambda: "(" * k + a + ")2" * k, lambda: f"({b}·" * k + a + ")" * k,
                       lambda: "(" * (k // 2) + a + " @ 1)" * (k // 2), lambda: f"1/({b}·" * k + a + ")" * k])()


def fold(rng, t):
    """A text that careless normalisation takes for the same."""
    return rng.choice([
        lambda: unicodedata.normalize("NFKC", t), lambda: unicodedata.normalize("NFD", t), lambda: t.casefold(), lambda: t.upper(),
        lambda: t.replace(" ", ""), lambda: " ".join(t.split()), lambda: t.replace("*", "."), lambda: t.replace("(", "").replace(")", ""),
        lambda: t.replace("·", " "), lambda: t.replace("^", ""), lambda: t.replace("**", "*"), lambda: t.translate(UP), lambda: t.replace("-", ""),
        lambda: t.encode("ascii", "ignore").decode(), lambda: t[: max(1, len(t) - 1)], lambda: t.replace("+", ""), lambda: t.translate(TABS)])()


UP = str.maketrans("0123456789-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁻")
TABS = str.maketrans(" ", "\t")


def describe(r):
    return ("ok", str(r[1]), repr(refparse.of_graph(r[1]))) if r[0] == "ok" else r[:2]


def run_items(ctx, obs, items, shard):
    for i in items:
        rng = ctx.rng(i)
        texts = [t for t in (hostile(rng) for _ in range(14)) if len(t) < 300]
        for t in rng.sample(texts, 5) + [gen.sentence(rng, rng.randint(2, 4)) for _ in range(3)]:
            texts.insert(rng.randrange(len(texts) + 1), t)
            texts.insert(rng.randrange(len(texts) + 1), fold(rng, t))
        texts = [t for t in texts if not gen.absurd(t)]
        first = {}
        for n, t in enumerate(texts):
            if n == 0 or len(t) > 12 or rng.random() < 0.2:
                try:
                    r, calls = counted(CALLS_PER_CHAR * (len(t) + 5), drive.parse, t)
                except OverBudget:
                    obs.violation(f"parsing {t!r} takes more than {CALLS_PER_CHAR * (len(t) + 5)} calls", text=t)
                    return
                obs.count("step_counted")
                obs.events["max_calls_per_char"] = max(obs.events.get("max_calls_per_char", 0), calls // (len(t) + 5))
            else:
                r = drive.outcome(drive.parse, t)
            obs.count("texts")
            obs.count(r[0] if r[0] == "ok" else f"raised:{r[1]}")
            if r[0] != "ok" and r[1] != "SyntaxError":
                obs.violation(f"parse({t!r}) raised {r[1]}: {r[2]}", text=t)
            first[t] = describe(r)
            obs.case(t, f"{t!r} -> {first[t][:2]}")
        again = list(first)
        rng.shuffle(again)
        for t in again:
            r = describe(drive.outcome(drive.parse, t))
            obs.count("repeats")
            if r != first[t]:
                obs.violation(f"parse({t!r}) gave {first[t]} and later {r}", text=t)
        # Not what was read before either.
        for t in again:
            if len(t) < 90:
                try:
                    want = ("ok", repr(refparse.parse(t)))
                except refparse.Rejected:
                    want = ("raised", "SyntaxError")
                obs.count("judged_alone")
                if want != first[t][::2] and want != first[t]:
                    obs.violation(f"parse({t!r}) gave {first[t]} after other texts, the grammar says {want}", text=t, history=texts)
                    return
        S = drive.system()
        for t in texts:
            unit_case(obs, S, t)
        for _ in range(2):
            limit_case(obs, rng, huge(rng))
        for _ in range(1):
            t = chain(rng)
            budget = CALLS_OF_LOOKUP_PER_CHAR * (len(t) + 5)
            try:
                r, calls = counted(budget, S.unit, t, parsing=False)
            except OverBudget:
                obs.violation(f"unit({t!r}) takes more than {budget} calls", text=t)
                return
            obs.count("lookups_counted")
            obs.events["max_calls_per_char_of_lookups"] = max(obs.events.get("max_calls_per_char_of_lookups", 0), calls // (len(t) + 5))
            if r[0] != "ok" and r[1] != "SyntaxError":
                obs.violation(f"unit({t!r}) raised {r[1]}: {r[2]}", text=t)
                return
        names = drive.name_pool(rng, 4)
        for _ in range(2):
            unit_case(obs, S, drive.text(gen.expr(rng, names + ["nosuchunit"] * (rng.random() < 0.3), 3, 0.1, 0.15), rng))


def limit_case(obs, rng, t):
    """However big the number: an expression, whose text reads back, or SyntaxError, whatever the caller's decimal context."""
    obs.count("limits")
    r = drive.outcome(drive.parse, t)
    what = f"{t[:60]!r} ({len(t)} characters)"
    if r[0] != "ok" and r[1] != "SyntaxError":
        obs.violation(f"parse({what}) raised {r[1]}: {str(r[2])[:200]}", text=t)
        return
    obs.count(f"limits:{r[0]}")
    with decimal.localcontext(decimal.Context(prec=rng.choice([1, 5, 50]), traps=rng.choice([[], [decimal.Inexact], [decimal.InvalidOperation]]))):
        again = drive.outcome(drive.parse, t)
    if again[:1] != r[:1] or (r[0] == "ok" and again[1] != r[1]) or (r[0] != "ok" and again[1] != r[1]):
        obs.violation(f"parse({what}) gave {str(r[:2])[:200]} and in another decimal context {str(again[:2])[:200]}", text=t)
    if r[0] == "ok":
        s = drive.outcome(str, r[1])
        back = drive.outcome(lambda: str(drive.parse(s[1])))
        if s[0] != "ok" or back != s:
            obs.violation(f"the text of parse({what}), {str(s[1])[:100]}, reads back as {str(back[1])[:100]}", text=t)


def unit_case(obs, S, t):
    r1 = drive.outcome(S.unit, t)
    if r1[0] == "ok":
        obs.count("unit_ok")
    elif r1[1] in ("SyntaxError", "UnresolvableUnitException"):
        obs.count(f"unit:{r1[1]}")
    elif r1[1] == "ValueError" and nested_date(S, t):
        obs.count("unit:nested date")
    else:
        obs.violation(f"unit({t!r}) raised {r1[1]}: {r1[2]}", text=t)
    r2 = drive.outcome(S.unit, t)
    a, b = ((type(r[1]).__name__, str(r[1])) if r[0] == "ok" else r[:2] for r in (r1, r2))
    if a != b:
        obs.violation(f"unit({t!r}) gave {a} and then {b}", text=t)


def nested_date(S, t):
    """A date-like shift somewhere inside, or shifting something not a time."""
    try:
        ast = refparse.parse(t)
    except refparse.Rejected:
        return False

    def walk(a):
        if a[0] in ("shift", "date"):
            yield a
        for p in a[1:]:
            if isinstance(p, tuple) and p and isinstance(p[0], str):
                yield from walk(p)

    return any(a[0] == "date" or is_time(a[1]) for a in walk(ast))


def is_time(ast):
    from .. import model

    try:
        return model.evaluate(ast, drive.lookup).dims == (("second", 1),)
    except model.Undefined:
        return True
    except Exception:
        return False


class OverBudget(BaseException):
    pass


def counted(limit, fn, *args, parsing=True):
    """The outcome, and the number of calls made: all of them, or those of pyudunits2 itself outside its parser."""
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        if event == "call" and (parsing or ("/pyudunits2/" in frame.f_code.co_filename and "/_grammar/" not in frame.f_code.co_filename)):
            n += 1
            if n > limit:
                sys.setprofile(None)
                raise OverBudget

    sys.setprofile(prof)
    try:
        r = drive.outcome(fn, *args)
    finally:
        sys.setprofile(None)
    return r, n
