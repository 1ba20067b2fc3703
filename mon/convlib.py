"""Judging conversions against the exact model (C13-C16)."""
from __future__ import annotations

from . import drive, gen, model

BIG = [1e12, -3.5e-9, 7e5, 1 / 3]


def values(rng, n):
    pool = drive.VALUES + BIG + [rng.uniform(-100, 100), rng.uniform(0, 1)]
    return rng.sample(pool, n)


def family(a, b):
    if a.is_log or b.is_log:
        return "log"
    if model.convertible(a, b) == "reciprocal" and a.dims:
        return "reciprocal"
    if a.offset or b.offset:
        return "offset"
    return "linear"


def defined(ast):
    """Model meaning of a plain unit, or None."""
    if drive.classify(ast) != "unit":
        return None
    return drive.evaluate(ast)


def judge(obs, rng, S, a, b, want_family, n=3, known=False):
    """Convert between two ASTs and compare. Returns True if it was judged."""
    ma, mb = defined(a), defined(b)
    if ma is None or mb is None or model.convertible(ma, mb) is None or family(ma, mb) != want_family:
        return False
    if any(not u.is_log and u.scale == 0 for u in (ma, mb)):
        return False
    ta, tb = drive.text(a, rng), drive.text(b, rng)
    ua, ub = drive.outcome(S.unit, ta), drive.outcome(S.unit, tb)
    for t, u in ((ta, ua), (tb, ub)):
        if u[0] != "ok":
            obs.violation(f"unit({t!r}) raised {u[1]}: {u[2]}", text=t)
            return False
    return judge_units(obs, rng, ua[1], ub[1], ma, mb, ta, tb, n, known)


def judge_units(obs, rng, ua, ub, ma, mb, ta, tb, n=3, known=False):
    conv = drive.outcome(drive.py.Converter, ua, ub)
    if conv[0] != "ok":
        obs.violation(f"{ta!r} to {tb!r}: {conv[1]}: {conv[2]}", units=(ta, tb))
        return False
    c = conv[1]
    judged = 0
    for v in values(rng, n):
        e = drive.expected(ma, mb, v, offset=True)
        if e is None:
            obs.count("out_of_domain")
            continue
        got = drive.outcome(c.convert, v)
        obs.count("values")
        judged += 1
        if got[0] == "ok" and drive.close(got[1], *e):
            continue
        if known and explained(obs, ma, mb, v, got, ta, tb):
            continue
        obs.violation(
            f"{v} {ta!r} is {got[1]!r} {tb!r}, expected {float(e[0])!r} (expression {c.expression})",
            units=(ta, tb), value=v, expected=str(e[0]))
        break
    if judged:
        obs.count("pairs")
        obs.case((ta, tb), f"{ta} -> {tb}: {c.expression}")
    return bool(judged)


def explained(obs, ma, mb, v, got, ta, tb):
    """The listed defects of logarithmic units, and nothing else."""
    logs = [u for u in (ma, mb) if u.is_log]
    factor = any(u.has_factor() for u in logs)
    offset = any(u.has_ref_offset() for u in logs)
    if not (factor or offset) or got[0] != "ok":
        return False
    e = drive.expected(ma, mb, v, buggy=factor, offset=False)
    if e is None:
        # The factor on the wrong side takes the value out of the range of floats.
        obs.count("known_overflow")
    elif not drive.close(got[1], *e):
        return False
    if factor:
        obs.finding("scaled-log", f"{v} {ta!r} -> {got[1]!r} {tb!r}")
    if offset:
        obs.finding("log-ref-offset", f"{v} {ta!r} -> {got[1]!r} {tb!r}")
    return True

