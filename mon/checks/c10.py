"""One unit system, several threads."""
import collections
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

from .. import core, drive, gen

PROPERTY = "C10"
RULE = (
    "4 threads share one fresh unit system in a fresh process and each performs a random program of lookups, "
    "parses, comparisons, conversions (also by converters that all of them have) and array conversions on overlapping units, with a 1 us switch interval and "
    "random yields injected between lines of pyudunits2; now and then a thread waits inside of a function until another "
    "thread is in it, too. Recorded: every result, and the order in which threads ran. "
    "Oracle: the results of the same calls made alone. Non-trivial: schedule (sequence of threads at yield points) "
    "not seen before."
)
WAITS = True
FLOORS = {"runs": {"quick": 60, "thorough": 900}, "calls": {"quick": 2000, "thorough": 30000}, "switches": {"quick": 20000, "thorough": 300000},
          "met_in_a_function": {"quick": 3000, "thorough": 40000}, "overlapping_resolves": {"quick": 20, "thorough": 300},
          "shared_units": {"quick": 300, "thorough": 4000}, "bursts": {"quick": 100, "thorough": 1500}}
SHARD0 = 1
PARKS = 150  # per thread and session
ASSUMPTIONS = ["the system is not modified while it is used", "CPython with its global lock"]
BATCH = 1
CASE_LIMIT = 300
HOT = ["degF", "psi", "horsepower", "acre_foot", "Bm", "light_year", "knot", "km", "mmHg", "kilofeet", "°F", "BZ", "furlong",
       "hours since 2000-01-01", "lg(re 2 mW)", "nosuch", "m s-", "kg.m2.s-2", "rad", "N/m^2", "lb", "inch2", "degC @ 10"]
PAIRS = [("degF", "degC"), ("psi", "mmHg"), ("km", "furlong"), ("Bm", "mW"), ("horsepower", "W"), ("s", "Hz"), ("m", "s"),
         ("acre_foot", "m3"), ("light_year", "parsec"), ("knot", "km/h"), ("degF", "K")]


def plan(ctx):
    return list(range(ctx.pick(24, 400)))


def program(rng):
    out = []
    for _ in range(rng.randint(7, 12)):
        k = rng.random()
        if k < 0.5:
            out.append(["unit", rng.choice(HOT)])
        elif k < 0.6:
            out.append(["parse", gen.sentence(rng, 2)])
        elif k < 0.7:
            out.append(["eq", *rng.choice([("km", "1000 m"), ("psi", "lbf/in2"), ("degF", "degC"), ("Hz", "s-1")])])
        elif k < 0.9:
            out.append(["convert", *rng.choice(PAIRS), rng.choice([1.0, 2.5, -4.0])])
        else:
            out.append(["array", *rng.choice(PAIRS)])
    return out


def of_shared(rng):
    k = rng.randrange(len(PAIRS))
    i, j = (2 * k, 2 * k + 1) if rng.random() < 0.6 else (2 * k + 1, 2 * k)
    return ["shared", i, j, rng.choice([None, 1.0, 2.5])]


def burst(rng, k):
    """Several values, one after the other, with a converter that all threads have."""
    values = [rng.choice([rng.uniform(1, 1e4), rng.randint(2, 999), [rng.uniform(1, 9)], [rng.randint(1, 99), 5]]) for _ in range(8)]
    return ["burst", *PAIRS[k], values]


def perform(S, shared, call):
    import numpy as np

    kind = call[0]
    try:
        if kind == "unit":
            u = S.unit(call[1])
            return [str(u), u.expanded(), repr(drive.dims_of(u))]
        if kind == "parse":
            return [str(drive.parse(call[1]))]
        if kind == "eq":
            return [S.unit(call[1]) == S.unit(call[2])]
        if kind == "shared":
            u, v = shared["units"][call[1]], shared["units"][call[2]]
            if call[3] is None:
                return [u == v, u.is_convertible_to(v), u.expanded(), repr(drive.dims_of(v))]
            conv = drive.py.Converter(u, v)
            return [str(sorted(map(str, conv.expression.free_symbols))), float(conv.convert(call[3]))]
        key = (call[1], call[2])
        if kind == "burst":
            conv = shared["converters"][key]
            out = []
            for v in call[3]:
                out += [float(x) for x in conv.convert(np.array(v))] if isinstance(v, list) else [float(conv.convert(v))]
            return out
        conv = shared.get(key)
        if conv is None:
            conv = shared[key] = drive.py.Converter(S.unit(call[1]), S.unit(call[2]))
        if kind == "convert":
            return [float(conv.convert(call[3]))]
        return [float(x) for x in conv.convert(np.array([1, 2, 3]))]
    except Exception as exc:
        return ["raised", type(exc).__name__]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, float) and isinstance(y, float):
            if x != y and not abs(x - y) <= 1e-12 * max(abs(x), abs(y)):
                if not (x != x and y != y):
                    return False
        elif x != y:
            return False
    return True


def session(programs, seed, warm):
    """In a child process: run the programs in threads, then one after the other."""
    root = str(core.REPO / "pyudunits2")
    local = threading.local()
    order = []
    stats = {"switches": 0, "resolving": 0, "overlap": 0, "met": 0}
    entered = collections.Counter()
    last = [None]

    def yield_maybe():
        me = threading.get_ident()
        if last[0] != me:
            last[0] = me
            stats["switches"] += 1
            order.append(names[me])
        r = local.rng.random()
        if r < 0.02:
            time.sleep(1e-5)
        elif r < 0.2:
            time.sleep(0)

    def lines(frame, event, arg):
        yield_maybe()
        if event == "return" and frame.f_code.co_name == "resolve":
            stats["resolving"] -= 1
        return lines

    def tracer(frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(root) or "_antlr4_runtime" in code.co_filename:
            return None
        if "/parser/" in code.co_filename:
            return None
        if code.co_name == "resolve":
            stats["resolving"] += 1
            if stats["resolving"] > 1:
                stats["overlap"] += 1
        entered[code] += 1
        if local.rng.random() < 0.06 * local.parks / PARKS:
            local.parks -= 1
            return parking(local.rng.randint(1, 8))
        return lines

    def parking(n):
        """Wait at the n-th line until another thread is in the same function, too."""

        def park(frame, event, arg):
            nonlocal n
            n -= 1
            if n == 0:
                seen, deadline = entered[frame.f_code], time.monotonic() + 0.004
                while entered[frame.f_code] == seen and time.monotonic() < deadline:
                    time.sleep(0)
                if entered[frame.f_code] != seen:
                    stats["met"] += 1
                    time.sleep(local.rng.choice([0, 1e-5, 2e-4, 1e-3]))
            lines(frame, event, arg)
            return park

        return park

    S = drive.fresh_system()
    shared = fresh_shared(S, programs) if warm else {}
    results = [None] * len(programs)
    names = {}
    barrier = threading.Barrier(len(programs))

    def work(k):
        local.rng = random.Random(f"{seed}-{k}")
        local.parks = PARKS
        names[threading.get_ident()] = k
        barrier.wait()
        sys.settrace(tracer)
        try:
            results[k] = [perform(S, shared, c) for c in programs[k]]
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(programs))]
    for t in threads:
        t.start()
    stuck = wait_for(threads)
    sys.setswitchinterval(old)
    out = {"results": results, "after": None, "stats": stats, "stuck": stuck,
           "schedule": hashlib.blake2b(bytes(order), digest_size=8).hexdigest()}
    if not stuck:
        # Afterwards, on the system that was used concurrently.
        if not warm:
            shared |= fresh_shared(S, programs)
        again = {k: shared[k] for k in ("units", "converters")}
        out["after"] = [[perform(S, dict(again), c) for c in p] for p in programs]
    return out


def fresh_shared(S, programs):
    """What all threads have from the beginning."""
    pairs = sorted({(c[1], c[2]) for p in programs for c in p if c[0] == "burst"})
    return {"units": [S.unit(t) for p in PAIRS for t in p],
            "converters": {p: drive.py.Converter(*map(S.unit, p)) for p in pairs}}


def wait_for(threads):
    """
    Wait for all threads to end, or until none of them can.

    At 15 looks in a row, a second apart, every thread is at the same instruction as before and the process has used no
    processor time: they wait for each other.

    """
    past, idle = None, 0
    while True:
        alive = [t for t in threads if t.is_alive()]
        if not alive:
            return None
        alive[0].join(1.0)
        if not alive[0].is_alive():
            past, idle = None, 0
            continue
        frames = sys._current_frames()
        now = [(t.ident, id(frames.get(t.ident)), getattr(frames.get(t.ident), "f_lasti", None)) for t in alive]
        cpu = time.process_time()
        idle = idle + 1 if past and now == past[0] and cpu - past[1] < 0.02 else 0
        past = now, cpu
        if idle >= 15:
            return ["; ".join(f"{e.filename.rsplit('/', 1)[-1]}:{e.lineno} {e.name}" for e in traceback.extract_stack(frames[t.ident])[-4:])
                    for t in alive if t.ident in frames]


def alone(programs):
    """In another child process, which never had a second thread."""
    F = drive.fresh_system()
    own = fresh_shared(F, programs)
    return [[perform(F, dict(own), c) for c in p] for p in programs]


def in_child(fn):
    """The result of a function in a forked process; ["failed", text] if it raises."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            core.fast_basis_hash(True)
            try:
                data = ["ok", fn()]
            except Exception as exc:
                data = ["failed", f"{type(exc).__name__}: {exc}"[:400]]
            with os.fdopen(w, "wb") as fh:
                fh.write(json.dumps(data).encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the session ended without a result")
    return json.loads(data)


SESSIONS = 4


def run_items(ctx, obs, items, shard):
    for i in items:
        # Few units, so that threads meet in the same definitions.
        batches = []
        for n in range(SESSIONS):
            rng = ctx.rng(i, n)
            programs = [program(rng) for _ in range(4)]
            hot = rng.choice(HOT)
            # Unit objects that all threads have are made before they start, which
            # resolves their definitions: every second session only.
            meet = of_shared(rng)
            common = rng.choice([k for k, p in enumerate(PAIRS) if p != ("m", "s")])
            for p in programs:
                if n % 2:
                    for _ in range(4):
                        p.insert(rng.randrange(len(p) + 1), of_shared(rng))
                    p.insert(0, meet)
                    p.insert(rng.randrange(3), burst(rng, common))
                else:
                    p.insert(0, ["unit", hot])
            batches.append(programs)
        want = in_child(lambda: [alone(p) for p in batches])
        if want[0] != "ok":
            obs.violation(f"a single thread fails with {want[1]}", programs=batches)
            return

        def sessions():
            # The first session of a process meets cold caches, the others warm ones.
            out = []
            for n, p in enumerate(batches):
                try:
                    out.append(session(p, repr((ctx.seed, i, n)), n % 2 == 1))
                except Exception as exc:
                    out.append({"failed": f"{type(exc).__name__}: {exc}"[:400]})
                    break
                if out[-1]["stuck"]:
                    break
            return out

        got = in_child(sessions)
        if got[0] != "ok":
            raise RuntimeError(got[1])
        for programs, w, out in zip(batches, want[1], got[1]):
            if not judge(obs, programs, w, out):
                return


def judge(obs, programs, alone, out):
    if "failed" in out:
        obs.violation(f"with several threads, or after them, looking up common units fails: {out['failed']}", programs=programs)
        return False
    if out["stuck"]:
        obs.violation(f"the threads wait for each other forever: {out['stuck']}", programs=programs)
        return False
    obs.count("runs")
    obs.count("switches", out["stats"]["switches"])
    obs.count("overlapping_resolves", out["stats"]["overlap"])
    obs.count("met_in_a_function", out["stats"]["met"])
    obs.case(out["schedule"], f"{len(programs)} threads, {out['stats']['switches']} switches: {programs[0][:4]}")
    for k, p in enumerate(programs):
        for n, call in enumerate(p):
            obs.count("calls")
            obs.count("shared_units", call[0] == "shared")
            obs.count("bursts", call[0] == "burst")
            for which in ("results", "after"):
                got = out[which][k][n] if out[which][k] else None
                want = alone[k][n]
                if got is None or not same(got, want):
                    obs.violation(
                        f"{call} gives {got} {'concurrently' if which == 'results' else 'after concurrent use'}, {want} alone",
                        programs=programs)
                    return False
    return True
