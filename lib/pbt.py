"""Property-based testing driver: generation, parallel shards, shrinking, replay, evidence.

A check module defines PROPERTY, SUBS (list of Sub), RULE and ASSUMPTIONS.  Every generated case is a
plain JSON value, and `check(case, ctx)` is an ordinary function of it: a failure is replayed by
loading the JSON and calling `check`, without the generation library.
"""

from __future__ import annotations
import contextlib
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO") or "/repo"  # another tree only while developing
PKG_DIR = os.path.join(REPO, "src", "tvemoves_rufbad")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
MAX_SAMPLES = 3


class Violation(Exception):
    """The code under test broke the property on the current case."""


class HarnessError(Exception):
    """The machinery itself cannot decide the case."""


def require(cond, msg, *args):
    """Raise a violation unless cond holds."""
    if not cond:
        raise Violation(msg % args if args else msg)


@dataclass
class Sub:
    """One executable statement of (part of) a property."""

    name: str
    strategy: Callable[[str], Any]  # tier -> hypothesis strategy of JSON values
    check: Callable[[Any, "Ctx"], None]
    quick: int  # total number of generated cases, over all shards
    thorough: int
    examples: list = field(default_factory=list)  # explicit cases, always run first
    shards: int = 8


class Ctx:
    """Per-case notes: labels for the distribution and the non-triviality flag."""

    def __init__(self):
        self.labels: list[str] = []
        self.is_nontrivial = False

    def label(self, name):
        self.labels.append(str(name))

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def _canonical(case) -> str:
    return json.dumps(case, sort_keys=True)


def frames_in_package(exc: BaseException) -> bool:
    """Does the traceback of exc (or of an exception it was raised from) pass through the package?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if os.path.abspath(frame.f_code.co_filename).startswith(PKG_DIR + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(sub: Sub, case, ctx: Ctx) -> str | None:
    """Run one case. Returns None if the property holds, else a message. Harness errors propagate."""
    try:
        sub.check(case, ctx)
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except RecursionError:
        raise
    except Exception as e:  # pylint: disable=broad-except
        if frames_in_package(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.path.abspath(f.filename).startswith(PKG_DIR + os.sep)]
            loc = f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else "?"
            return f"the code under test raised {type(e).__name__}: {e} (in {loc})"
        if isinstance(e, (IndexError, KeyError, ArithmeticError)):
            # the oracle could not read the result as the documented structure
            return f"the result cannot be interpreted: {type(e).__name__}: {e}"
        raise
    return None


@contextlib.contextmanager
def _independent(active):
    """While active, hypothesis generates no cases by recombining the parts of earlier ones."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    name = "generate_mutations_from"
    original = getattr(ConjectureRunner, name, None)
    if not active or original is None:
        yield
        return
    setattr(ConjectureRunner, name, lambda self, data: None)
    try:
        yield
    finally:
        setattr(ConjectureRunner, name, original)


class _Found(Exception):
    """Raised inside hypothesis to drive shrinking."""


def _shard_seed(seed: int, prop: str, sub: str, shard: int, batch: int = 0) -> int:
    text = f"{seed}/{prop}/{sub}/{shard}" + (f"/{batch}" if batch else "")
    h = hashlib.sha256(text.encode()).digest()
    return int.from_bytes(h[:6], "big")


def _write_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


BATCH = 250  # cases per freshly seeded hypothesis run
# hypothesis starts a run with the simplest case and nearly simple ones, and follows a case by variations of
# it; short runs leave those out, except for the simple cases in the first shard
WARMUP = 10
SHORT = 60
THOROUGH_BUDGET = 780.0  # seconds of generation of a thorough run (VERIF_BUDGET overrides it)


def _worker(prop, sub: Sub, shard, n, seed, tier, outdir, shrink=True, budget=None):
    """Generate and run the cases of one shard; writes <outdir>/<sub>.<shard>.json.

    The cases come in batches with seeds of their own.  With a budget (seconds) no batch is
    started after it has run out; the evidence counts the cases that were really run."""
    import gc
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    base = os.path.join(outdir, f"{sub.name}.{shard}")
    stats = {
        "evaluations": 0,
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "status": "running",
        "error": None,
    }
    distinct = set()
    labels = Counter()
    best = {"size": None, "first": True}

    def execute(case):
        ctx = Ctx()
        text = _canonical(case)
        msg = run_case(sub, json.loads(text), ctx)
        stats["evaluations"] += 1
        for l in ctx.labels:
            labels[l] += 1
        if ctx.is_nontrivial:
            digest = hashlib.sha1(text.encode()).hexdigest()[:16]
            if digest not in distinct:
                distinct.add(digest)
                if len(stats["samples"]) < MAX_SAMPLES and len(text) < 4000:
                    stats["samples"].append({"sub": sub.name, "case": json.loads(text)})
        if msg is not None:
            if best["size"] is None or len(text) <= best["size"]:
                best["size"] = len(text)
                _write_json(
                    base + ".fail.json",
                    {"case": json.loads(text), "message": msg, "index": stats["evaluations"]},
                )
        return msg

    gc.collect()
    gc.freeze()
    gc.set_threshold(100000, 20, 50)
    try:
        failed = False
        started = time.time()
        if shard == 0:
            for case in sub.examples:
                if execute(case) is not None:
                    failed = True
                    break
        step = BATCH if tier == "quick" else BATCH // 4
        sizes = [min(step, n - i) for i in range(0, n, step)]
        for batch, size in enumerate(sizes):
            if failed:
                break
            if budget is not None and batch > 0 and time.time() - started > budget:
                stats["stopped"] = True
                break
            phases = (Phase.generate, Phase.shrink) if shrink else (Phase.generate,)

            skip = [WARMUP if size < SHORT and (shard or batch) else 0]

            @hypothesis.seed(_shard_seed(seed, prop, sub.name, shard, batch))
            @settings(
                max_examples=size + skip[0],
                database=None,
                deadline=None,
                phases=phases,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )
            @given(sub.strategy(tier))
            def test(case):
                if skip[0]:
                    skip[0] -= 1
                    return
                msg = execute(case)
                if msg is not None:
                    raise _Found(sub.name)

            try:
                with _independent(size < SHORT or shard % 2):
                    test()
            except _Found:
                failed = True
            except BaseException as e:  # Flaky and exception groups
                if best["size"] is not None and not isinstance(e, (HarnessError, KeyboardInterrupt)):
                    failed = True
                else:
                    raise
        stats["status"] = "failed" if failed else "ok"
    except BaseException as e:  # pylint: disable=broad-except
        stats["status"] = "error"
        stats["error"] = "".join(traceback.format_exception(e))[-6000:]
    stats["labels"] = dict(labels)
    stats["nontrivial"] = sorted(distinct)
    _write_json(base + ".json", stats)


def _spawn(target, *args):
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            target(*args)
            code = 0
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    return pid


def _kill(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def _confirm(sub: Sub, case, timeout=240):
    """Re-run a failing case in a fresh process: 'fails', 'holds', or 'error'."""
    fd, path = tempfile.mkstemp(prefix="verif-confirm-")
    os.close(fd)

    def body():
        msg = run_case(sub, case, Ctx())
        _write_json(path, {"message": msg})

    os.unlink(path)
    pid = _spawn(body)
    end = time.time() + timeout
    while time.time() < end:
        done, _ = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        time.sleep(0.02)
    else:
        _kill(pid)
        return "error", None
    if not os.path.exists(path):
        return "error", None
    with open(path, encoding="utf-8") as f:
        msg = json.load(f)["message"]
    os.unlink(path)
    return ("holds", None) if msg is None else ("fails", msg)


def run_property(module, tier: str, seed: int, only=None, scale: float = 1.0, jobs=None) -> int:
    """Run all subs of a check module. Returns the exit code."""
    prop = module.PROPERTY
    start = time.time()
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    outdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    subs = [s for s in module.SUBS if only is None or s.name in only]
    tasks = []
    for s in subs:
        total = s.quick if tier == "quick" else s.thorough
        total = max(1, int(total * scale))
        shards = max(1, min(s.shards, total))
        per = -(-total // shards)
        for i in range(shards):
            tasks.append((s, i, per))
    # round-robin over subs, so that every sub starts early
    tasks.sort(key=lambda t: t[1])
    budget = None
    if tier != "quick":
        total_budget = float(os.environ.get("VERIF_BUDGET") or THOROUGH_BUDGET)
        budget = total_budget / max(1, -(-len(tasks) // jobs))
    pending = list(tasks)
    running: dict[int, tuple] = {}
    first_fail = None
    grace = 40.0 if tier == "quick" else 240.0
    try:
        while pending or running:
            while pending and len(running) < jobs and first_fail is None:
                s, i, per = pending.pop(0)
                pid = _spawn(_worker, prop, s, i, per, seed, tier, outdir, True, budget)
                running[pid] = (s, i, per)
            if first_fail is not None:
                pending = []
            time.sleep(0.02)
            for pid in list(running):
                done, _ = os.waitpid(pid, os.WNOHANG)
                if done:
                    del running[pid]
            if first_fail is None and any(f.endswith(".fail.json") for f in os.listdir(outdir)):
                first_fail = time.time()
            if first_fail is not None:
                # stop as soon as one failing shard has finished shrinking
                finished = False
                for f in os.listdir(outdir):
                    if f.endswith(".fail.json"):
                        base = f[: -len(".fail.json")]
                        if os.path.exists(os.path.join(outdir, base + ".json")):
                            finished = True
                if finished or time.time() - first_fail > grace:
                    for pid in list(running):
                        _kill(pid)
                    running = {}
        return _finish(module, prop, subs, tasks, tier, seed, outdir, start)
    finally:
        for pid in list(running):
            _kill(pid)
        shutil.rmtree(outdir, ignore_errors=True)


def _load(path):
    with open(path, encoding="utf-8") as f:
        return json.load(f)


def _finish(module, prop, subs, tasks, tier, seed, outdir, start) -> int:
    evaluations = 0
    nontrivial = 0
    per_sub = {}
    samples = []
    errors = []
    failures = []
    for s in subs:
        sub_eval = 0
        sub_nt = set()
        labels = Counter()
        for _, i, _ in [t for t in tasks if t[0] is s]:
            base = os.path.join(outdir, f"{s.name}.{i}")
            if os.path.exists(base + ".fail.json"):
                failures.append((s, i, _load(base + ".fail.json")))
            if not os.path.exists(base + ".json"):
                continue
            st = _load(base + ".json")
            if st["status"] == "error":
                errors.append((s.name, i, st["error"]))
            sub_eval += st["evaluations"]
            sub_nt.update(st["nontrivial"])
            labels.update(st["labels"])
            samples.extend(st["samples"][:1] if i else st["samples"][:2])
        evaluations += sub_eval
        nontrivial += len(sub_nt)
        per_sub[s.name] = {
            "evaluations": sub_eval,
            "distinct_nontrivial": len(sub_nt),
            "labels": dict(sorted(labels.items())),
        }
    planned = {(t[0].name, t[1]) for t in tasks}
    have = {
        (s.name, i)
        for s in subs
        for i in range(64)
        if os.path.exists(os.path.join(outdir, f"{s.name}.{i}.json"))
    }

    exit_code = 0
    violations = 0
    lines = []
    if failures:
        # smallest failing case first
        failures.sort(key=lambda f: len(_canonical(f[2]["case"])))
        confirmed = None
        for s, i, fail in failures:
            verdict, msg = _confirm(s, fail["case"])
            if verdict == "fails":
                confirmed = (s, {"kind": "case", "case": fail["case"]}, msg)
                break
        if confirmed is None:
            # state that leaks between cases: replay the whole shard
            s, i, fail = failures[0]
            per = [t[2] for t in tasks if t[0] is s and t[1] == i][0]
            again = tempfile.mkdtemp(prefix=f"verif-{prop}-again-")
            pid = _spawn(_worker, prop, s, i, per, seed, tier, again, False)
            end = time.time() + 300
            while time.time() < end and not os.waitpid(pid, os.WNOHANG)[0]:
                time.sleep(0.05)
            else:
                if time.time() >= end:
                    _kill(pid)
            f2 = os.path.join(again, f"{s.name}.{i}.fail.json")
            if os.path.exists(f2):
                confirmed = (
                    s,
                    {"kind": "shard", "shard": i, "n": per, "seed": seed, "tier": tier},
                    _load(f2)["message"] + " (depends on the cases run before it)",
                )
            shutil.rmtree(again, ignore_errors=True)
        if confirmed is None:
            s, i, fail = failures[0]
            errors.append((s.name, i, "unreproducible failure: " + json.dumps(fail)[:3000]))
        else:
            s, replay, msg = confirmed
            replay.update({"property": prop, "sub": s.name, "message": msg})
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, f"{prop}-{s.name}.json")
            _write_json(rpath, replay)
            lines.append(f"{prop}/{s.name}: {msg}")
            lines.append(f"case: {_canonical(replay.get('case', replay))[:2000]}")
            lines.append(f"VIOLATION property={prop} replay={rpath}")
            violations = 1
            exit_code = 1
    elif planned - have:
        errors.append(("*", 0, f"shards without a result: {sorted(planned - have)}"))
    if exit_code == 0 and errors:
        exit_code = 2

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": module.RULE,
            "samples": samples[:6],
            "subchecks": per_sub,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - start, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    _write_json(os.path.join(VERIF, "evidence", f"{prop}.json"), evidence)
    for name, i, err in errors[:3]:
        print(f"HARNESS ERROR in {prop}/{name} shard {i}:\n{err}", file=sys.stderr)
    for line in lines:
        print(line)
    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, {nontrivial} distinct non-trivial,"
        f" {evidence['wall_s']} s, exit {exit_code}"
    )
    sys.stdout.flush()
    return exit_code


def load_module(prop: str):
    return importlib.import_module(f"checks.{prop.lower()}")


def replay(path: str) -> int:
    """Re-run a saved failure against the current tree, without the generation library for cases."""
    data = _load(path)
    module = load_module(data["property"])
    sub = [s for s in module.SUBS if s.name == data["sub"]][0]
    if data["kind"] == "case":
        msg = run_case(sub, data["case"], Ctx())
    else:
        out = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            _worker(
                data["property"],
                sub,
                data["shard"],
                data["n"],
                data["seed"],
                data["tier"],
                out,
                False,
            )
            f = os.path.join(out, f"{sub.name}.{data['shard']}.fail.json")
            msg = _load(f)["message"] if os.path.exists(f) else None
        finally:
            shutil.rmtree(out, ignore_errors=True)
    if msg is None:
        print(f"replay of {path}: the property holds")
        return 0
    print(f"{data['property']}/{sub.name}: {msg}")
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
