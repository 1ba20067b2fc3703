"""The same answers in every process."""
import json
import os
import subprocess
import sys

from .. import core, drive, gen, model

PROPERTY = "C28"
RULE = (
    "Random programs (lookups, texts, expansions, dimensionalities, comparisons, conversions, refusals) run in several "
    "processes that differ in hash seed, optimisation flags, locale and preferred encoding, working directory, decimal "
    "context, numpy error state, garbage collection, import order and what was looked up before. Recorded: every "
    "answer. Oracle: all processes agree (converted values within 1e-12), and texts agree with this process. "
    "Non-trivial: distinct program."
)
ASSUMPTIONS = ["one version of Python, sympy and numpy"]
WAITS = True
FLOORS = {"processes": {"quick": 30, "thorough": 300}, "answers": {"quick": 1000, "thorough": 10000}, "values": {"quick": 120, "thorough": 1500},
          "hash_seeds": {"quick": 12, "thorough": 150}, "optimised": 3, "ascii_locale": 3, "decimal_context": 3}
BATCH = 1
SHARD0 = 1
CASE_LIMIT = 400

SCRIPT = r"""
import sys, json, os, types
job = json.loads(sys.stdin.buffer.read())
sys.path.insert(0, job["repo"])
if not os.path.exists(job["repo"] + "/pyudunits2/_version.py"):
    stub = types.ModuleType("pyudunits2._version"); stub.__version__ = "0"
    sys.modules["pyudunits2._version"] = stub
env = job["env"]
if env.get("numpy_first"):
    import numpy
if env.get("main_first"):
    import pyudunits2.__main__
if env.get("gc"):
    import gc
    gc.disable() if env["gc"] == "off" else gc.set_threshold(5)
if env.get("decimal"):
    import decimal
    decimal.getcontext().prec = env["decimal"]
    decimal.getcontext().rounding = decimal.ROUND_UP
if env.get("locale"):
    import locale
    locale.setlocale(locale.LC_ALL, env["locale"])
if env.get("recursion"):
    sys.setrecursionlimit(env["recursion"])
import pyudunits2
from pyudunits2 import UnitSystem, Converter
import numpy
numpy.seterr(all=env.get("numpy_errors", "ignore"))
import warnings; warnings.simplefilter(env.get("warnings", "ignore"))
S = UnitSystem.from_udunits2_xml()
for t in env.get("before", []):
    try:
        S.unit(t)
    except Exception:
        pass

def answer(q):
    kind = q[0]
    try:
        if kind == "unit":
            u = S.unit(q[1])
            d = sorted((str(b), n) for b, n in u.dimensionality().items())
            return ["text", type(u).__name__, str(u), u.expanded(), d, u.is_time_unit(), u.is_dimensionless(), str(u.dimensionality())]
        a, b = S.unit(q[1]), S.unit(q[2])
        if kind == "eq":
            return ["text", a == b, a.is_convertible_to(b)]
        c = Converter(a, b)
        return ["values", [float(c.convert(v)) for v in q[3]], [float(x) for x in c.convert(numpy.array(q[3]))],
                sorted(str(s) for s in c.expression.free_symbols)]
    except ArithmeticError as exc:
        return ["arithmetic"]
    except Exception as exc:
        return ["raised", type(exc).__name__]

out = [answer(q) for q in job["program"]]
sys.stdout.buffer.write(json.dumps(out).encode("ascii"))
"""


def plan(ctx):
    return list(range(ctx.pick(10, 100)))


FIXED = ["µm", "°F", "Å", "Ω", "dau", "mm", "rad/s", "degC @ 10", "hours since 2000-01-01", "lg(re 2 mW)", "nosuch", "m s-", "psi", "horsepower"]


def program(rng):
    qs = [("unit", t) for t in rng.sample(FIXED, 6)]
    for _ in range(16):
        a = gen.expr(rng, drive.name_pool(rng, 3), rng.randint(0, 3), 0.06, 0.08)
        qs.append(("unit", drive.text(a, rng)))
    for _ in range(14):
        a = gen.expr(rng, drive.name_pool(rng, 2), rng.randint(0, 2), 0, 0.05)
        d = drive.dims(a)
        if d is None or drive.classify(a) != "unit":
            continue
        b = drive.same_dims(rng, tuple(sorted(d.items())) if rng.random() < 0.8 else model.inverse_dims(tuple(sorted(d.items()))))
        if rng.random() < 0.15:
            b = ("log", rng.choice(["lg", "ln", "lb"]), b)
        if rng.random() < 0.15:
            a = ("shift", a, rng.choice(gen.NUMBERS))
        if drive.classify(a) != "unit" or drive.classify(b) != "unit":
            continue
        ta, tb = drive.text(a, rng), drive.text(b, rng)
        qs.append(("convert", ta, tb, [1.5, 20.0, 0.001]) if rng.random() < 0.7 else ("eq", ta, tb))
    # Very large and very small numbers.
    qs.append(("convert", rng.choice(["Ym", "1e25 m", "ym", "1e-25 km"]), rng.choice(["m", "parsec", "1e22 m"]), [1.5, 20.0]))
    # A shift of a shift, whose numbers are added.
    qs.append(("convert", "(K @ 273.15) @ 0.123456789", "degF @ 1.000000001", [1.5, 20.0, 1e4]))
    return qs


def environments(rng, obs, seed_only):
    envs = []
    for n in range(5):
        e: dict = {"flags": [], "vars": {"PYTHONHASHSEED": str(rng.randrange(1, 2**32 - 1))}, "opts": {}}
        if n == 1:
            e["flags"] = [rng.choice(["-O", "-OO"])]
            e["opts"]["main_first"] = True
        if n == 2:
            e["vars"] |= {"LC_ALL": rng.choice(["C", "POSIX"]), "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
            e["opts"]["warnings"] = "error"
            e["opts"]["gc"] = rng.choice(["off", "often"])
        if n == 3:
            e["opts"]["decimal"] = rng.choice([3, 5, 60])
            e["opts"]["numpy_first"] = True
            e["opts"]["recursion"] = 4000
        if n == 4:
            e["vars"] |= {"TZ": "Asia/Kathmandu", "LANG": "xx_XX", "COLUMNS": "20"}
            e["opts"]["before"] = [rng.choice(drive.plain_names()) for _ in range(6)] + ["nosuch", "m s-"]
            e["opts"]["numpy_errors"] = "raise"
        envs.append(e)
    return envs


def run(program, e, cache):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    env |= {"PYTHONPYCACHEPREFIX": str(cache)} | e["vars"]
    job = json.dumps({"repo": str(core.REPO), "env": e["opts"], "program": program}).encode("ascii")
    r = subprocess.run([sys.executable, *e["flags"], "-c", SCRIPT], input=job, capture_output=True, timeout=300, env=env, cwd="/tmp")
    if r.returncode:
        return None, r.stderr.decode("utf8", "replace")[-1500:]
    return json.loads(r.stdout), None


def near(a, b):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b)) + 1e-300


def agree(x, y):
    if x[0] == "values" and y[0] == "values":
        return all(len(a) == len(b) and all(map(near, a, b)) for a, b in zip(x[1:3], y[1:3])) and x[3] == y[3]
    if "arithmetic" in (x[0], y[0]) and {x[0], y[0]} <= {"arithmetic", "values", "raised"}:
        return True  # numpy told to raise
    return x == y


def run_items(ctx, obs, items, shard):
    for i in items:
        rng = ctx.rng(i)
        qs = program(rng)
        results = []
        obs.case(qs, qs[:3])
        for e in environments(rng, obs, False):
            out, err = run(qs, e, ctx.scratch / "pyc")
            obs.count("processes")
            obs.count("hash_seeds")
            obs.count("optimised" if e["flags"] else "ascii_locale" if "PYTHONUTF8" in e["vars"] else "decimal_context" if "decimal" in e["opts"] else "plain")
            if out is None:
                obs.violation(f"with {e} the process failed: {err}", environment=e)
                break
            results.append((e, out))
        for e, out in results[1:]:
            for q, x, y in zip(qs, results[0][1], out):
                obs.count("answers")
                if x[0] == "values":
                    obs.count("values")
                if not agree(x, y):
                    obs.violation(f"{q} gives {x} with {results[0][0]} but {y} with {e}", question=q)
                    return
        S = drive.system()
        for q, x in zip(qs, results[0][1] if results else []):
            if q[0] == "unit" and x[0] == "text":
                u = S.unit(q[1])
                if x[2:4] != [str(u), u.expanded()]:
                    obs.violation(f"{q} gives {x} in another process, {[str(u), u.expanded()]} here", question=q)
                    return
