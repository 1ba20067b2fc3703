"""Canonical text reads back as the same expression."""
import re

from .. import drive, gen, refparse
from ..fingerprint import fingerprint

PROPERTY = "C03"
RULE = (
    "Random accepted texts, random expressions over database units. Recorded: normalize(t), normalize(normalize(t)), "
    "the graphs of both, str() of units built from them. Oracle: equality of the two canonical texts and of a "
    "fingerprint that evaluates the independent reading of both over a 61-bit prime field (identifiers, shifts, dates "
    "and logarithms as opaque functions). Non-trivial: at least one operator."
)
FLOORS = {"roundtrips": {"quick": 2500, "thorough": 30000}, "unit_roundtrips": {"quick": 150, "thorough": 2000},
          "op:pow": 200, "op:div": 200, "op:shift": 100, "op:log": 100}
BATCH = 10


def plan(ctx):
    return [("text", i) for i in range(ctx.pick(5200, 90000))] + [("unit", i) for i in range(ctx.pick(320, 6000))]


def run_items(ctx, obs, items, shard):
    for kind, i in items:
        rng = ctx.rng(kind, i)
        if kind == "text":
            if rng.random() < 0.6:
                names = ["m", "s", "kg", "T", "day", "µm", "e"]
                t = drive.text(gen.expr(rng, names, rng.randint(2, 5), 0.12, 0.1, zero=True, big=True), rng)
            else:
                t = gen.sentence(rng, rng.randint(2, 5))
            if len(t) <= 140:
                text_case(obs, t)
        else:
            names = drive.name_pool(rng)
            t = drive.text(gen.expr(rng, names, 3, 0.08, 0.08), rng)
            unit_case(obs, t)


def text_case(obs, t):
    try:
        want = refparse.parse(t)
    except refparse.Rejected:
        return
    first = drive.outcome(drive.parse, t)
    if first[0] != "ok":
        obs.count("not_accepted")  # C01 judges acceptance
        return
    mine = refparse.of_graph(first[1])
    canon = str(first[1])
    obs.count("roundtrips")
    if drive.normalize(t) != canon:
        obs.violation(f"normalize({t!r}) = {drive.normalize(t)!r} but str(parse()) = {canon!r}", text=t)
    again = drive.outcome(drive.parse, canon)
    if again[0] != "ok":
        # Known: after a bracketed " @ " the lexer stays in its date mode, where
        # T, Z, UTC, GMT and TZ are not identifiers. With other names it works.
        other = re.sub(r"(?<![^\W_])(T|Z|UTC|GMT|TZ)(?![^\W_])", r"q\1q", canon)
        if " @ " in canon and other != canon:
            r = drive.outcome(drive.parse, other)
            if r[0] == "ok" and fingerprint(rename(mine)) == fingerprint(refparse.of_graph(r[1])):
                obs.finding("shift-mode-identifiers", f"{t!r} -> {canon!r}")
                return
        obs.violation(f"canonical text {canon!r} of {t!r} does not parse: {again[2]}", text=t, canonical=canon)
        return
    back = refparse.of_graph(again[1])
    if str(again[1]) != canon:
        obs.violation(f"canonical text is not stable: {t!r} -> {canon!r} -> {str(again[1])!r}", text=t)
    for src in (mine, want):
        if fingerprint(back) != fingerprint(src):
            obs.violation(
                f"{t!r} is written as {canon!r}, which reads as {refparse.show(back)} instead of {refparse.show(src)}",
                text=t, canonical=canon)
            break
    ops = kinds(mine)
    for k in ops:
        obs.count(f"op:{k}")
    if ops - {"num", "id", "empty"}:
        obs.case(t, f"{t!r} -> {canon!r}")


def rename(ast):
    if ast[0] == "id":
        return ("id", f"q{ast[1]}q") if ast[1] in ("T", "Z", "UTC", "GMT", "TZ") else ast
    return tuple(rename(p) if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge" else p for p in ast)


def unit_case(obs, t):
    S = drive.system()
    r = drive.outcome(S.unit, t)
    if r[0] != "ok":
        return
    u = r[1]
    s = str(u)
    back = drive.outcome(S.unit, s)
    if back[0] != "ok":
        obs.violation(f"str(unit({t!r})) = {s!r} is not accepted: {back[2]!r}", text=t)
        return
    v = back[1]
    obs.count("unit_roundtrips")
    if drive.dims_of(u) != drive.dims_of(v):
        obs.violation(f"unit({t!r}) and unit({s!r}) differ in dimensionality", text=t)
    fu, fv = (fingerprint(drive.ast_of(x.expanded())) for x in (u, v))
    if fu != fv:
        obs.violation(f"unit({t!r}) is written {s!r}, which expands differently: {u.expanded()} / {v.expanded()}", text=t)
    obs.case(("unit", t), f"unit({t!r}) -> {s!r}")


def kinds(ast):
    out = {ast[0]}
    for p in ast[1:]:
        if isinstance(p, tuple) and p and isinstance(p[0], str):
            out |= kinds(p)
    return out
