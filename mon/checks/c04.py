"""Spelling variants of one expression mean the same."""
from .. import drive, gen, refparse

PROPERTY = "C04"
RULE = (
    "A random expression tree is written in several random ways (space . * · -less products, / per PER, ^ ** and "
    "superscripts and juxtaposed exponents, @ since from after ref, redundant brackets, number notations, lg/log, "
    "re/RE, outer blanks). Recorded: the graph of each text, and for units their dimensionality and expansion. "
    "Oracle: all must equal the tree the texts were written from; where numerals are written alike, canonical texts are equal. Non-trivial: two or more different texts."
)
FLOORS = {"same_text": {"quick": 400, "thorough": 5000}, "variants": {"quick": 4000, "thorough": 50000}, "unit_variants": {"quick": 150, "thorough": 2000}}
BATCH = 6


def plan(ctx):
    return [("parse", i) for i in range(ctx.pick(1300, 24000))] + [("unit", i) for i in range(ctx.pick(130, 2500))]


def lgs(ast):
    if ast[0] == "log" and ast[1] == "log":
        ast = ("log", "lg", ast[2])
    return tuple(lgs(p) if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge" else p for p in ast)


DATES = ["2000-01-01", "1990-1-1 12:30", "2000-01-01T00:00:00", "19900101T1230", "2000-01-01 12:30 UTC", "1999-12-31 6:00 -3:30"]


def run_items(ctx, obs, items, shard):
    for kind, i in items:
        rng = ctx.rng(kind, i)
        if kind == "parse":
            names = ["m", "s", "kg", "K", "µm", "day", "Ω", "Eu", "lbf", "ref_", "persec"]
            ast = gen.expr(rng, names, rng.randint(1, 4), 0.1, 0.08, zero=True, big=True)
            if rng.random() < 0.1:
                ast = ("date", ast if ast[0] != "shift" else ast[1], rng.choice(DATES))
            texts = {gen.spell(ast)}
            # With equal numerals the canonical texts are equal, too.
            numbers = rng.random() < 0.5
            for _ in range(4):
                texts.add(outer(rng, gen.spell(ast, rng, numbers)))
            canon = set()
            texts = {t for t in texts if len(t) < 160}
            if has_nested_shift(ast):
                # After a bracketed shift the published lexer keeps reading in
                # its date mode; only texts the grammar reads as intended count.
                texts = {t for t in texts if reads_as(t, ast)}
            for t in sorted(texts):
                r = drive.outcome(drive.parse, t)
                obs.count("variants")
                if r[0] != "ok":
                    obs.violation(f"{t!r}, a spelling of {refparse.show(ast)}, is refused: {r[2]}", text=t)
                    continue
                got = lgs(refparse.of_graph(r[1]))
                if got != lgs(ast):
                    obs.violation(f"{t!r} reads as {refparse.show(got)}, not {refparse.show(ast)}", text=t)
                canon.add(str(r[1]).replace("log(", "lg("))
            if not numbers and len(texts) > 1:
                obs.count("same_text")
                if len(canon) > 1:
                    obs.violation(f"spellings of {refparse.show(ast)} have different canonical texts: {sorted(canon)}", texts=sorted(texts))
            if len(texts) > 1:
                obs.case(tuple(sorted(texts)), " == ".join(repr(t) for t in sorted(texts)))
        else:
            S = drive.system()
            ast = gen.expr(rng, drive.name_pool(rng), 2, 0.08, 0.0)
            texts = {outer(rng, gen.spell(ast, rng)) for _ in range(3)} | {gen.spell(ast)}
            seen = {}
            for t in sorted(texts):
                r = drive.outcome(S.unit, t)
                obs.count("unit_variants")
                if r[0] != "ok":
                    seen[t] = r[:2]
                else:
                    from ..fingerprint import fingerprint

                    seen[t] = (drive.dims_of(r[1]), fingerprint(drive.ast_of(r[1].expanded())))
            if len(set(seen.values())) > 1:
                obs.violation(f"spellings of one unit differ: {seen}", texts=sorted(texts))
            if len(texts) > 1:
                obs.case(("unit",) + tuple(sorted(texts)), " == ".join(repr(t) for t in sorted(texts)))


BLANKS = [chr(c) for c in range(0x3001) if chr(c).isspace()]


def outer(rng, t):
    if rng.random() < 0.3:
        t = rng.choice([" ", "  ", "\t", "\n"]) + t + rng.choice(["", " ", "\n "])
    elif rng.random() < 0.15:
        # Any other white space, which is stripped as well.
        t = rng.choice(BLANKS + [""]) + t + rng.choice(BLANKS)
    return t


def has_nested_shift(ast, top=True):
    if ast[0] in ("shift", "date") and not top:
        return True
    return any(has_nested_shift(p, False) for p in ast[1:] if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0] != "huge")


def reads_as(t, ast):
    try:
        return lgs(refparse.parse(t)) == lgs(ast)
    except refparse.Rejected:
        return False
