"""Shared machinery: importing the code under test, running workloads on all
cores, collecting what monitors observed, and turning that into a verdict.

A check is a module in ``mon.checks`` with

    PROPERTY = "C01"
    def plan(ctx)            -> list of JSON-able work items (may be large)
    def run_items(ctx, obs, items, shard)   -> drives the code, reports to obs

Verdicts are three-valued: exit 0 (held on what was observed), exit 1 with a
``VIOLATION property=... replay=...`` line, exit 3 (inconclusive: the monitor
was never reached, or observed less than the floor the check declares).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import typing

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
KNOWN = VERIF / "known_findings.jsonl"
EVIDENCE = pathlib.Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
REPLAY = VERIF / "replay"


def import_target():
    """Import pyudunits2 from the working tree of /repo, never a stale copy."""
    if "pyudunits2" in sys.modules:
        return sys.modules["pyudunits2"]
    import lxml.etree, numpy, sympy  # noqa: with their own byte code

    sys.path.insert(0, str(REPO))
    # Never trust byte code lying around in the working tree.
    sys.pycache_prefix = "/nonexistent/pycache"
    sys.dont_write_bytecode = True
    if not (REPO / "pyudunits2" / "_version.py").exists():
        # Written by the build and ignored by git; it only holds the version.
        stub = types.ModuleType("pyudunits2._version")
        stub.__version__ = "0+unknown"
        sys.modules["pyudunits2._version"] = stub
    import pyudunits2

    where = pathlib.Path(pyudunits2.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise RuntimeError(f"pyudunits2 imported from {where}, not {REPO}")
    # Everything that would be imported lazily, from the same sources.
    for path in sorted((REPO / "pyudunits2").rglob("*.py")):
        parts = path.relative_to(REPO).with_suffix("").parts
        if "tests" in parts or parts[-1] in ("compile", "__main__", "__init__"):
            continue
        try:
            importlib.import_module(".".join(parts))
        except ImportError:
            pass
    sys.pycache_prefix = None
    return pyudunits2


_REAL_HASH = None


def fast_basis_hash(on: bool):
    """Workload accelerator, off in shard 0 of every check.

    BasisUnit hashes to a constant, so each dictionary of basis units compares
    them pairwise through sympy (~10 ms each). Two basis units are equal exactly
    if they have the same text, so hashing the text changes nothing but time.
    """
    global _REAL_HASH
    pyudunits2 = import_target()
    B = pyudunits2.BasisUnit
    if _REAL_HASH is None:
        _REAL_HASH = B.__hash__
    B.__hash__ = (lambda self: hash(str(self))) if on else _REAL_HASH


class Timeout(BaseException):
    """Raised by the per-case watchdog. Never a violation by itself."""


class Blocked(BaseException):
    """The only thread waits, without computing anything, for something that nobody can bring about."""


class Obs:
    """What the monitors of one shard observed."""

    def __init__(self, ctx, shard):
        self.ctx = ctx
        self.shard = shard
        self.events: dict[str, int] = {}
        self.distinct: set[bytes] = set()
        self.samples: list = []
        self.violations: list = []
        self.known: dict[str, list] = {}
        self.timeouts = 0
        self.notes: list[str] = []

    def count(self, what: str, n: int = 1):
        self.events[what] = self.events.get(what, 0) + n

    def case(self, key, sample=None):
        """One evaluated, non-trivial case, identified by ``key``."""
        self.count("evaluations")
        self.distinct.add(
            hashlib.blake2b(repr(key).encode("utf8", "backslashreplace"), digest_size=8).digest()
        )
        if len(self.samples) < 3 and random.random() < 0.2:
            self.samples.append(sample if sample is not None else repr(key))

    def violation(self, message: str, **witness):
        if len(self.violations) < 25:
            self.violations.append({"message": message, "witness": witness})
        self.count("violating_observations")

    def finding(self, kid: str, message: str):
        """An observation which matches the mechanism of a known finding."""
        self.count(f"known:{kid}")
        self.known.setdefault(kid, [])
        if len(self.known[kid]) < 3:
            self.known[kid].append(message)


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.nproc = int(os.environ.get("VERIF_PROCS", "8"))
        self.scratch: pathlib.Path = pathlib.Path()

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *what) -> random.Random:
        return random.Random(repr((self.seed, self.prop) + what))


def known_findings(prop: str) -> dict[str, dict]:
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line:
                continue
            entry = json.loads(line)
            if entry.get("kind") == "known" and entry["property"] == prop:
                out[entry["id"]] = entry
    return out


class watchdog:
    """
    A generous wall-clock limit around one case.

    Also notices that a process blocks: at every one of ``IDLE`` ticks in a row, a second apart, it is at the very same
    instruction and has used no processor time. A busy machine doesn't look like this, since whoever gets to handle the
    tick also gets on with the work.

    """

    IDLE = 25

    def __init__(self, seconds, notice_blocking=False):
        self.seconds = seconds
        self.notice_blocking = notice_blocking

    def __enter__(self):
        state = {"where": None, "cpu": 0.0, "idle": 0}
        start = time.monotonic()

        def fire(signum, frame):
            if time.monotonic() - start > self.seconds:
                raise Timeout()
            where, cpu = (id(frame), frame.f_lasti if frame else None), time.process_time()
            still = where == state["where"] and cpu - state["cpu"] < 0.005
            state["idle"] = state["idle"] + 1 if still else 0
            state.update(where=where, cpu=cpu)
            if self.notice_blocking and state["idle"] >= self.IDLE:
                raise Blocked()

        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, 1, 1)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def _worker(mod_name, ctx, shard, items, queue):
    try:
        random.seed(f"{ctx.seed}-{shard}")
        import warnings

        warnings.simplefilter("ignore")
        import numpy

        numpy.seterr(all="ignore")
        mod = importlib.import_module(mod_name)
        obs = Obs(ctx, shard)
        fast_basis_hash(shard != 0)
        deadline = time.monotonic() + getattr(mod, "SOFT_CAP", {"quick": 240, "thorough": 2400})[ctx.tier]
        done = 0
        batch = getattr(mod, "BATCH", 1)
        for i in range(0, len(items), batch):
            if time.monotonic() > deadline:
                obs.notes.append("soft time cap reached")
                break
            if len(obs.violations) >= 25:
                break
            chunk = items[i : i + batch]
            try:
                # Some checks wait for other processes.
                with watchdog(getattr(mod, "CASE_LIMIT", 120), not getattr(mod, "WAITS", False)):
                    try:
                        mod.run_items(ctx, obs, chunk, shard)
                    except Exception as exc:
                        if not target_failure(exc):
                            raise
                        obs.violation(
                            f"unexpected {type(exc).__name__} out of pyudunits2: {exc}"[:500],
                            items=repr(chunk)[:2000],
                            traceback=traceback.format_exc()[-3000:],
                        )
            except Blocked as exc:
                obs.violation(
                    "an operation never ends: it waits without computing anything",
                    items=repr(chunk)[:2000],
                    traceback="".join(traceback.format_exception(exc))[-3000:],
                )
                break
            except Timeout:
                obs.timeouts += 1
                obs.notes.append(f"watchdog fired on {chunk!r:.200}")
                if obs.timeouts >= 2:
                    break
            done += len(chunk)
        if hasattr(mod, "finish_shard"):
            mod.finish_shard(ctx, obs, shard)
        obs.count("work_items_done", done)
        obs.count("work_items_planned", len(items))
        queue.put((shard, "ok", obs.__dict__ | {"ctx": None}))
    except BaseException:
        queue.put((shard, "error", traceback.format_exc()))


def target_failure(exc: BaseException) -> bool:
    """Whether the exception was raised by the code under test."""
    tb = exc.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return any(str(REPO) in f for f in files)


def run_check(prop: str, tier: str) -> int:
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod_name = f"mon.checks.{prop.lower()}"
    mod = importlib.import_module(mod_name)
    ctx = Ctx(prop, tier, seed)
    ctx.scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"mon-{prop}-"))
    try:
        return _run(ctx, mod, mod_name, t0)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def _run(ctx, mod, mod_name, t0) -> int:
    prop, tier, seed = ctx.prop, ctx.tier, ctx.seed
    problems = []
    violations: list = []
    try:
        import_target()
        # Compile every module once before forking.
        importlib.import_module("pyudunits2._udunits2_xml_parser")
        items = mod.plan(ctx)
    except Exception as exc:
        if not target_failure(exc):
            raise
        # The code under test cannot even be imported or set up.
        violations.append(
            {"message": f"set-up failed inside the code under test: {exc!r}",
             "witness": {"traceback": traceback.format_exc()}}
        )
        items = []

    shards = [[] for _ in range(ctx.nproc)]
    # Shard 0 runs without the accelerator and therefore gets less work.
    share0 = getattr(mod, "SHARD0", 0.25)
    n0 = max(1, int(len(items) / ctx.nproc * share0)) if items else 0
    order = list(range(len(items)))
    ctx.rng("shards").shuffle(order)
    for i in order[:n0]:
        shards[0].append(items[i])
    for k, i in enumerate(order[n0:]):
        shards[1 + k % (ctx.nproc - 1)].append(items[i])

    events: dict[str, int] = {}
    distinct: set[bytes] = set()
    samples, notes, known, timeouts = [], [], {}, 0
    method = mp.get_context("fork")
    queue = method.Queue()
    procs = []
    for s, work in enumerate(shards):
        if work:
            p = method.Process(target=_worker, args=(mod_name, ctx, s, work, queue))
            p.start()
            procs.append((s, p))
    hard = time.monotonic() + {"quick": 700, "thorough": 6000}[tier]
    pending = {s: p for s, p in procs}
    while pending and time.monotonic() < hard:
        try:
            shard, status, data = queue.get(timeout=2)
        except Exception:
            for s, p in list(pending.items()):
                if not p.is_alive() and queue.empty():
                    p.join()
                    problems.append(f"worker {s} died with {p.exitcode}")
                    pending.pop(s)
            continue
        pending.pop(shard, None)
        if status == "error":
            problems.append(f"worker {shard} failed:\n{data}")
            continue
        for k, v in data["events"].items():
            events[k] = max(events.get(k, 0), v) if k.startswith("max_") else events.get(k, 0) + v
        distinct |= data["distinct"]
        samples += data["samples"]
        notes += data["notes"]
        timeouts += data["timeouts"]
        violations += data["violations"]
        for k, v in data["known"].items():
            known.setdefault(k, []).extend(v)
    for s, p in pending.items():
        problems.append(f"worker {s} did not finish in time")
        p.kill()
    for _, p in procs:
        p.join(timeout=10)

    listed = known_findings(prop)
    for kid in list(known):
        if kid not in listed:
            violations.append({"message": f"unlisted finding {kid}: {known[kid][:2]}", "witness": {}})
    if violations:
        # A monitor saw the property broken: that stands whatever else happened.
        for p in problems:
            print("note:", p, file=sys.stderr)
        problems_fatal = []
    else:
        problems_fatal = problems

    inconclusive = []
    if not violations and not problems_fatal:
        for name, floor in getattr(mod, "FLOORS", {}).items():
            need = floor[tier] if isinstance(floor, dict) else floor
            if events.get(name, 0) < need:
                inconclusive.append(f"observed only {events.get(name, 0)} x {name}, need {need}")
        if not distinct:
            inconclusive.append("no non-trivial case was evaluated")
        if timeouts > 4:
            # Fewer are cases not explored, which the floors judge.
            inconclusive.append(f"{timeouts} cases hit the watchdog")

    wall = time.monotonic() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": events.get("evaluations", 0),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": [str(s)[:600] for s in (samples or ["(none)"])[:8]],
            "monitor_events": dict(sorted(events.items())),
            "known_findings_observed": {k: v[:3] for k, v in known.items()},
            "notes": sorted(set(notes))[:10],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False) + "\n")

    for kid, entry in listed.items():
        seen = f" (observed {len(known.get(kid, []))}+ times in this run)" if kid in known else ""
        print(f"KNOWN-FINDING: property={prop} {kid}: {entry['what']}{seen}")

    if violations:
        REPLAY.mkdir(exist_ok=True)
        path = REPLAY / f"{prop}-{tier}-{seed}.json"
        path.write_text(
            json.dumps(
                {"property": prop, "tier": tier, "seed": seed,
                 "command": f"VERIF_SEED={seed} VERIF_TIER={tier} /verif/check {prop} {tier}",
                 "violations": violations[:50]},
                indent=1, ensure_ascii=False, default=str,
            )
        )
        for v in violations[:10]:
            print(f"  {v['message'][:700]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems_fatal:
        print("ERROR of the check itself:", *problems_fatal, sep="\n", file=sys.stderr)
        return 2
    if inconclusive:
        print("INCONCLUSIVE:", "; ".join(inconclusive), "; ".join(notes[:5]), file=sys.stderr)
        return 3
    print(
        f"OK {prop} [{tier}, seed {seed}] {events.get('evaluations', 0)} evaluations, "
        f"{len(distinct)} distinct, {wall:.1f}s"
    )
    return 0


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(prop, tier)
