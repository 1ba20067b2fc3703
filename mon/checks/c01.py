"""Unit text means what the published grammar says."""
from .. import drive, gen, refparse

PROPERTY = "C01"
RULE = (
    "Texts derived at random from the published grammar, token soup, mutations of both, and every definition of "
    "the database. Non-trivial: at least two tokens, distinct text. The recorded event is pyudunits2's answer "
    "(graph or SyntaxError); the oracle is an independent interpreter of a frozen copy of the grammar."
)
ASSUMPTIONS = ["mon/ref holds the grammar as published with this version", "numbers of ordinary length"]
FLOORS = {"accepted": {"quick": 1500, "thorough": 20000}, "rejected": {"quick": 1000, "thorough": 10000},
          "node:shift": 50, "node:log": 50, "node:date": 50, "node:pow": 200, "node:div": 200, "node:mul": 200}
BATCH = 20


def plan(ctx):
    from ..model import System

    fixed = sorted({e.definition for e in System.udunits2().entries if e.definition})
    return [("fixed", t) for t in fixed] + [("rand", i) for i in range(ctx.pick(13000, 200000))]


def make(ctx, item):
    kind, x = item
    if kind == "fixed":
        return x
    rng = ctx.rng(x)
    text = plain(rng)
    return gen.confuse(rng, text) if rng.random() < 0.06 else text


def plain(rng):
    k = rng.random()
    if k < 0.5:
        return gen.sentence(rng, rng.randint(2, 5))
    if k < 0.7:
        return gen.soup(rng)
    if k < 0.9:
        return gen.mutate(rng, gen.sentence(rng, 3))
    return drive.text(gen.expr(rng, ["m", "s", "kg", "K", "µm", "days"], 3, 0.15, 0.15, zero=True, big=True), rng)


def run_items(ctx, obs, items, shard):
    for item in items:
        text = make(ctx, item)
        if len(text) > 90 or gen.absurd(text):
            continue
        check(obs, text)


def check(obs, text):
    try:
        want = refparse.parse(text)
    except refparse.Rejected:
        want = None
    got = drive.outcome(drive.parse, text)
    obs.count("accepted" if want else "rejected")
    if want is None:
        if got[0] == "ok":
            obs.violation(f"accepted {text!r} as {got[1]}, which the grammar does not allow", text=text)
        elif got[1] != "SyntaxError":
            obs.violation(f"{got[1]} instead of SyntaxError for {text!r}", text=text)
    elif got[0] != "ok":
        obs.violation(f"refused {text!r} ({got[1]}: {got[2]}); the grammar reads it as {refparse.show(want)}", text=text)
    else:
        seen = refparse.of_graph(got[1])
        for kind in kinds(want):
            obs.count(f"node:{kind}")
        if seen != want:
            obs.violation(f"read {text!r} as {refparse.show(seen)}; the grammar says {refparse.show(want)}", text=text)
    if len(text) > 1:
        obs.case(text, f"{text!r} -> {refparse.show(want) if want else 'SyntaxError'}")


def kinds(ast):
    out = {ast[0]}
    for p in ast[1:]:
        if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge":
            out |= kinds(p)
    return out
