"""The command line tool."""
import ast as pyast
import io
import os
import re
import subprocess
import sys
from contextlib import redirect_stderr, redirect_stdout

from .. import convlib, core, drive, gen, model, refparse
from .c19 import Bad, interval

PROPERTY = "C26"
RULE = (
    "main() with random arguments: convertible, inconvertible, date, unknown and malformed units for conversion-expr and "
    "explain-unit, token soup for debug-parser, missing and unknown commands; a part of them as processes of their own. "
    "Recorded: standard output and error, exit status or exception. Oracle: the printed expression evaluated by an "
    "independent evaluator equals the exact model, the explanation re-reads to the same meaning, the token listing "
    "equals that of an independent lexer and loses nothing. Non-trivial: distinct command line."
)
ASSUMPTIONS = ["units that do not begin with '-' (argparse would read an option)", "relative tolerance 1e-12"]
WAITS = True
FLOORS = {"expressions": {"quick": 150, "thorough": 2000}, "expr_values": {"quick": 200, "thorough": 3000}, "inconvertible": {"quick": 60, "thorough": 700},
          "explained": {"quick": 150, "thorough": 2000}, "tokens": {"quick": 300, "thorough": 4000}, "bad_units": {"quick": 60, "thorough": 800},
          "processes": 10, "usage": 10}
BATCH = 4
SHARD0 = 0.1


def plan(ctx):
    items = [("expr", i) for i in range(ctx.pick(420, 5200))] + [("explain", i) for i in range(ctx.pick(340, 4000))]
    items += [("tokens", i) for i in range(ctx.pick(420, 5200))] + [("bad", i) for i in range(ctx.pick(110, 1300))]
    items += [("usage", i) for i in range(14)] + [("process", i) for i in range(ctx.pick(14, 70))]
    return items


def call(*args):
    """(status, stdout, stderr); status is an exit code, or the name of an exception."""
    from pyudunits2.__main__ import main

    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["pyudunits2", *args]
    try:
        with redirect_stdout(out), redirect_stderr(err):
            try:
                main()
                status = 0
            except SystemExit as exc:
                status = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
            except Exception as exc:
                status = type(exc).__name__
    finally:
        sys.argv = old
    return status, out.getvalue(), err.getvalue()


SCRIPT = """
import sys, types, os, runpy
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
if not os.path.exists(sys.argv[1] + '/pyudunits2/_version.py'):
    stub = types.ModuleType('pyudunits2._version'); stub.__version__ = '0'
    sys.modules['pyudunits2._version'] = stub
sys.argv = ['pyudunits2'] + sys.argv[2:]
runpy.run_module('pyudunits2', run_name='__main__')
"""


def process(*args):
    env = {k: v for k, v in os.environ.items() if k not in ("COLUMNS",)} | {"PYTHONIOENCODING": "utf8", "PYTHONPYCACHEPREFIX": "/nonexistent/pycache"}
    r = subprocess.run([sys.executable, "-c", SCRIPT, str(core.REPO), *args], capture_output=True, timeout=120, env=env, cwd="/")
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")


def plain(text):
    return not text.startswith("-") and text == text.strip() and "\x00" not in text


def run_items(ctx, obs, items, shard):
    for item in items:
        rng = ctx.rng(item)
        kind = item[0]
        if kind == "expr":
            expr(obs, rng, call)
        elif kind == "explain":
            explain(obs, rng, call)
        elif kind == "tokens":
            tokens(obs, rng, call)
        elif kind == "bad":
            bad(obs, rng, call)
        elif kind == "usage":
            usage(obs, rng, call, item[1])
        else:
            obs.count("processes")
            [expr, explain, tokens, bad, usage][item[1] % 5](obs, rng, process, *([item[1]] if item[1] % 5 == 4 else []))


def random_unit(rng, date=0.0):
    if rng.random() < date:
        return ("date", ("id", rng.choice(["days", "hours", "s"])), "2000-01-01")
    names = drive.name_pool(rng, 3)
    if rng.random() < 0.2:
        names.append(rng.choice(["degC", "degF"]))
    return gen.expr(rng, names, rng.randint(0, 2), 0.08, 0.06)


def expr(obs, rng, run):
    a = random_unit(rng, 0.04)
    d = drive.dims(a)
    if d is None:
        return
    dims = tuple(sorted(d.items()))
    b = random_unit(rng, 0.04) if rng.random() < 0.3 else drive.same_dims(rng, dims if rng.random() < 0.8 else model.inverse_dims(dims))
    if rng.random() < 0.1:
        b = ("log", rng.choice(["lg", "ln", "lb"]), b)
    ka, kb = drive.classify(a), drive.classify(b)
    if ka not in ("unit", "date") or kb not in ("unit", "date"):
        return
    ta, tb = drive.text(a, rng), drive.text(b, rng)
    if not plain(ta) or not plain(tb):
        return
    S = drive.system()
    ua, ub = drive.outcome(S.unit, ta), drive.outcome(S.unit, tb)
    if ua[0] != "ok" or ub[0] != "ok":
        return
    ua, ub = ua[1], ub[1]
    possible = False
    if ka == kb == "unit":
        ma, mb = drive.evaluate(a), drive.evaluate(b)
        if ma is None or mb is None:
            return
        possible = model.convertible(ma, mb) is not None
        if possible and any(not u.is_log and u.scale == 0 or u.is_log and (u.has_factor() or u.has_ref_offset()) for u in (ma, mb)):
            return
    status, out, err = run("conversion-expr", ta, tb)
    args = ("conversion-expr", ta, tb)
    obs.case(args, f"{args} -> {out[-120:]!r}")
    if not possible:
        obs.count("inconvertible")
        if status != 1 or out.strip() != f'It is not possible to convert from "{ua}" to "{ub}"' or err:
            obs.violation(f"{args}: exit {status}, output {out!r}, {err[-200:]!r}, expected a refusal", args=args)
        return
    obs.count("expressions")
    lines = out.strip().splitlines()
    if status != 0 or err or len(lines) != 2 or f'"{ua}"' not in lines[0] or f'"{ub}"' not in lines[0]:
        obs.violation(f"{args}: exit {status}, output {out!r}, {err[-300:]!r}", args=args)
        return
    own = drive.outcome(lambda: str(drive.py.Converter(ua, ub).expression))
    if own != ("ok", lines[1]):
        obs.violation(f"{args} prints {lines[1]!r}, the library gives {own[:2]}", args=args)
        return
    try:
        tree = pyast.parse(lines[1], mode="eval")
    except SyntaxError:
        obs.violation(f"{args}: {lines[1]!r} is not an expression", args=args)
        return
    for v in convlib.values(rng, 3):
        e = drive.expected(ma, mb, v, offset=True)
        if e is None:
            continue
        try:
            got, slack = interval(tree, float(v))
        except ZeroDivisionError:
            continue
        except Bad as exc:
            obs.violation(f"{args}: cannot evaluate {lines[1]!r}: {exc}", args=args)
            return
        obs.count("expr_values")
        if abs(got - e[0]) > e[1] + 4 * slack:
            obs.violation(f"{args}: the expression {lines[1]} gives {float(got)!r} at {v}, expected {float(e[0])!r}", args=args)
            return


def explain(obs, rng, run):
    a = random_unit(rng, 0.1)
    kind = drive.classify(a)
    if kind not in ("unit", "date"):
        return
    t = drive.text(a, rng)
    if not plain(t):
        return
    args = ("explain-unit", t)
    status, out, err = run(*args)
    obs.count("explained")
    obs.case(args, f"{args} -> {out!r:.200}")
    m = re.fullmatch(r"Unit: (.*)\nIn basis form: (.*)\nDimensionality: (\{.*\})\n?", out)
    if status != 0 or err or not m:
        obs.violation(f"{args}: exit {status}, output {out!r}, {err[-300:]!r}", args=args)
        return
    unit, basis, dims = m.groups()
    S = drive.system()
    u = S.unit(t)
    if unit != str(u) or basis != u.expanded():
        obs.violation(f"{args} says {unit!r} = {basis!r}, the library {str(u)!r} = {u.expanded()!r}", args=args)
    want = {b: n for b, n in drive.dims(a).items() if n}
    if pyast.literal_eval(dims) != want:
        obs.violation(f"{args}: dimensionality {dims}, expected {want}", args=args)


def tokens(obs, rng, run):
    text = gen.soup(rng, 1, 9, 0.05) if rng.random() < 0.6 else gen.sentence(rng, 3)
    if text.startswith("-") or "\x00" in text or "\ud800" in text or not text.strip():
        return
    _, lexer, _ = refparse.machinery()
    want = [(k, v) for k, v, _ in lexer.tokens(text.strip()) if k != "EOF"]
    args = ("debug-parser", text)
    status, out, err = run(*args)
    obs.count("tokens")
    obs.case(args, f"{args} -> {out!r:.200}")
    good = drive.outcome(refparse.parse, text)[0] == "ok"
    full = "".join(f"{v}: {k}\n" for k, v in want)
    if status != 0 or (out != full if good else not full.startswith(out)):
        obs.violation(f"{args}: exit {status}, tokens {out!r}, expected {full!r}; {err[-300:]!r}", args=args)


def bad(obs, rng, run):
    """Nothing that is not a unit gets an answer."""
    t = rng.choice(["nosuchunit", "m s-", "m (", "kg nosuch", "lg(m)", "m (s @ 2000)", "m $ s", "1e", "(days since 2000)^2", "m since 2000-01-01",
                    rng.choice(drive.common_names()) + rng.choice([" zzq", "^", "/", " (", " )", "$"])])
    if drive.outcome(drive.system().unit, t)[0] == "ok":
        return
    args = rng.choice([("explain-unit", t), ("conversion-expr", t, "m"), ("conversion-expr", "m", t), ("conversion-expr", t, t)])
    status, out, err = run(*args)
    obs.count("bad_units")
    obs.case(args + (run.__name__,), f"{args} -> {status}")
    if status == 0 or out.strip():
        obs.violation(f"{args}: exit {status}, output {out!r} for something that is not a unit", args=args)


def usage(obs, rng, run, i):
    args, want = [((), 1), (("nosuch-command",), 2), (("conversion-expr", "m"), 2), (("explain-unit",), 2), (("explain-unit", "m", "s"), 2),
                  (("--help",), 0), (("conversion-expr", "m", "s", "kg"), 2)][i % 7]
    status, out, err = run(*args)
    obs.count("usage")
    obs.case(args + (run.__name__,), f"{args} -> {status}")
    if status != want or (want and (out or not err)) or (not want and "conversion-expr" not in out):
        obs.violation(f"{args}: exit {status}, expected {want}; output {out!r:.200}, {err!r:.200}", args=args)
