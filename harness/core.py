"""
Core of the harness: clauses, generation/shrinking driver, runner, evidence.

A *property* module (props/cXX.py) declares clauses.  A clause is a Hypothesis
strategy that produces a JSON-able case, and a check(case, ctx) that raises
Violation when the code under test breaks the property on that case.  Every
clause (or shard of it) runs in its own forked process; the parent collects the
results, writes the evidence and prints the verdict.
"""

from . import env  # noqa: F401  (must be first)

import contextlib
import hashlib
import importlib
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import hypothesis
import numpy as np
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st  # noqa: F401

MAX_SHRINK_SECONDS = 45
with contextlib.suppress(Exception):
    from hypothesis.internal.conjecture import engine as _engine

    _engine.MAX_SHRINKING_SECONDS = MAX_SHRINK_SECONDS

CASE_HANG_SECONDS = 300  # a single case that takes this long does not terminate
CLAUSE_BUDGET = {"quick": 150.0, "thorough": 2400.0}  # soft: stops generating
HARD_LIMIT = {"quick": 780.0, "thorough": 7200.0}


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The check cannot decide: something is wrong with the machinery."""


class Lazy:
    """Module imported at first attribute access (after the fork)."""

    def __init__(self, name):
        self.__dict__["_name"] = name
        self.__dict__["_mod"] = None

    def __getattr__(self, attr):
        if self.__dict__["_mod"] is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.__dict__["_mod"] = importlib.import_module(self._name)
        return getattr(self.__dict__["_mod"], attr)


hm = Lazy("harmonica")
xr = Lazy("xarray")
vd = Lazy("verde")


class Ctx:
    """What a check reports about the case it has just judged."""

    def __init__(self):
        self.events = {}
        self.is_trivial = False
        self.known = []

    def event(self, label):
        self.events[str(label)] = self.events.get(str(label), 0) + 1

    def trivial(self, cond=True):
        if cond:
            self.is_trivial = True


class Clause:
    def __init__(self, name, strategy, check, quick, thorough, jit, rule, examples, shards):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.n = {"quick": quick, "thorough": thorough}
        self.jit = jit
        self.rule = rule
        self.examples = list(examples)
        self.shards = shards


class Property:
    def __init__(self, pid, title, rule, assumptions=(), technique="generated inputs against an oracle"):
        self.pid = pid
        self.title = title
        self.technique = technique
        self.rule = rule
        self.assumptions = list(assumptions)
        self.clauses = []
        self.known = []  # (finding id, callable(ctx) -> None raising Violation while present)

    def clause(
        self, name, strategy, quick=200, thorough=None, jit=True, rule="", examples=(),
        shards=1,
    ):
        """Decorator that registers check(case, ctx) as a clause."""

        def deco(fn):
            self.clauses.append(
                Clause(
                    name, strategy, fn, quick, thorough or quick * 20, jit, rule,
                    examples, shards,
                )
            )
            return fn

        return deco

    def known_finding(self, fid):
        def deco(fn):
            self.known.append((fid, fn))
            return fn

        return deco


# ---------------------------------------------------------------- oracles ---
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def close(actual, expected, what, rtol=1e-9, atol=0.0, equal_nan=False):
    """Elementwise comparison with a stated tolerance; shapes must be equal."""
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {e.shape}")
    at = np.broadcast_to(np.asarray(atol, dtype=float), a.shape)
    with np.errstate(all="ignore"):
        ok = np.abs(a - e) <= at + rtol * np.abs(e)
        ok |= a == e
    if equal_nan:
        ok |= np.isnan(a) & np.isnan(e)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(int(k) for k in bad[0])
        with np.errstate(all="ignore"):
            diff = a[i] - e[i]
        raise Violation(
            f"{what}: {len(bad)} of {a.size} values differ; first at {i}: got "
            f"{a[i]!r}, expected {e[i]!r} (difference {diff:.3e}, allowed "
            f"{float(at[i] + rtol * abs(e[i])):.3e})"
        )


def same(actual, expected, what):
    """Bit-for-bit equality (NaN equal to NaN), same shape."""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {e.shape}")
    if a.dtype.kind in "fc" or e.dtype.kind in "fc":
        ok = (a == e) | (np.isnan(a) & np.isnan(e))
    else:
        ok = a == e
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~np.atleast_1d(ok))[0])
        raise Violation(
            f"{what}: differs at {i}: got {np.atleast_1d(a)[i]!r}, expected {np.atleast_1d(e)[i]!r}"
        )


def raises(exc, fn, what):
    """The call must be rejected with exc (and nothing else)."""
    try:
        with quiet():
            out = fn()
    except exc as error:
        return error
    except Exception as error:  # noqa: BLE001
        raise Violation(
            f"{what}: raised {type(error).__name__}: {str(error)[:160]} "
            f"instead of {exc}"
        ) from error
    raise Violation(f"{what}: accepted, returned {str(out)[:160]}")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


# ------------------------------------------------------------- one clause ---
def canonical(case):
    return json.dumps(case, sort_keys=True)


def short(case, limit=700):
    text = canonical(case)
    return case if len(text) <= limit else text[:limit] + "..."


def _describe(error):
    if isinstance(error, Violation):
        return str(error)
    tb = traceback.extract_tb(error.__traceback__)
    where = [f for f in tb if "/harmonica/" in f.filename] or tb
    last = where[-1] if where else None
    at = f" at {os.path.basename(last.filename)}:{last.name}" if last else ""
    return f"unexpected {type(error).__name__}{at}: {str(error)[:300]}"


INFRA = (HarnessError, MemoryError, KeyboardInterrupt, ImportError)


def judge(clause, case):
    """Run one case. Returns (ctx, error message or None)."""
    ctx = Ctx()
    try:
        with quiet():
            clause.check(case, ctx)
    except INFRA:
        raise
    except OSError as error:
        if isinstance(error, (FileNotFoundError, IsADirectoryError)):
            return ctx, _describe(error)
        if getattr(error, "errno", None) in (12, 23, 24, 28, 30):  # resources
            raise
        return ctx, _describe(error)
    except Exception as error:  # noqa: BLE001
        return ctx, _describe(error)
    return ctx, None


def _set_env(clause):
    if clause.jit:
        os.environ.pop("NUMBA_DISABLE_JIT", None)
    else:
        os.environ["NUMBA_DISABLE_JIT"] = "1"


def run_clause(clause, tier, seed, shard, n, budget, progress):
    start = time.time()
    res = {
        "clause": clause.name, "shard": shard, "evaluations": 0, "nontrivial": [],
        "events": {}, "samples": [], "failure": None, "error": None, "skipped": 0,
    }
    seen = set()
    state = {"failed": None, "done": False}

    def one(case, generated=True):
        if generated and state["failed"] is None and time.time() - start > budget:
            res["skipped"] += 1
            return None
        text = canonical(case)
        progress(text)
        ctx, msg = judge(clause, case)
        progress(None)
        if state["failed"] is None:
            res["evaluations"] += 1
            for k, v in ctx.events.items():
                res["events"][k] = res["events"].get(k, 0) + v
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if not ctx.is_trivial and h not in seen:
                seen.add(h)
                if len(res["samples"]) < 2:
                    res["samples"].append(short(case))
        if msg is not None:
            state["failed"] = (json.loads(text), msg)
        return msg

    try:
        if shard == 0:
            for case in clause.examples:
                if one(case, generated=False) is not None:
                    break
        if state["failed"] is None and n > 0:

            @hypothesis.seed(seed)
            @settings(
                max_examples=n, database=None, deadline=None, print_blob=False,
                phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
            )
            @hypothesis.given(clause.strategy)
            def test(case):
                msg = one(case)
                if msg is not None:
                    raise Violation(msg)

            try:
                test()
            except Violation:
                pass
            except hypothesis.errors.Flaky as error:
                # The same case gave two verdicts: report the failing case, it
                # is re-run below before it is believed.
                if state["failed"] is None:
                    raise HarnessError(f"flaky without a failure: {error}") from error
    except BaseException as error:  # noqa: BLE001
        if state["failed"] is None:
            res["error"] = f"{type(error).__name__}: {error}\n{traceback.format_exc()}"
    res["nontrivial"] = sorted(seen)
    if state["failed"] is not None:
        case, msg = state["failed"]
        res["failure"] = {"case": case, "message": msg}
    res["wall_s"] = round(time.time() - start, 2)
    return res


def _child(prop, job, tier, workdir):
    clause, shard, n, seed, budget = job
    tag = os.path.join(workdir, f"{clause.name}.{shard}")

    def progress(text):
        # What is being run now, so that the parent can report a crash or hang
        with open(tag + ".now", "w") as f:
            f.write(f"{time.time()}\n{text}" if text is not None else "")

    _set_env(clause)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    log = os.open(tag + ".log", os.O_WRONLY | os.O_CREAT)
    os.dup2(log, 2)
    try:
        res = run_clause(clause, tier, seed, shard, n, budget, progress)
    except BaseException as error:  # noqa: BLE001
        res = {"clause": clause.name, "shard": shard, "error": repr(error),
               "evaluations": 0, "nontrivial": [], "events": {}, "samples": [],
               "failure": None, "skipped": 0, "wall_s": 0.0}
    with open(tag + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(tag + ".tmp", tag + ".json")
    os._exit(0)


def _now(tag):
    try:
        with open(tag + ".now") as f:
            head, _, body = f.read().partition("\n")
        return (float(head), body) if head else None
    except (OSError, ValueError):
        return None


CRASH_SIGNALS = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT)


def run_jobs(prop, jobs, tier, workers):
    """Run the jobs in forked children, at most `workers` at a time."""
    workdir = tempfile.mkdtemp(prefix=f"verif-{prop.pid}-")
    pending, running, results = list(jobs), {}, []
    t0 = time.time()
    stop = False
    try:
        while pending or running:
            while pending and len(running) < workers and not stop:
                job = pending.pop(0)
                pid = os.fork()
                if pid == 0:
                    _child(prop, job, tier, workdir)
                running[pid] = (job, time.time())
            if stop:
                pending = []
            done = []
            for pid, (job, _) in list(running.items()):
                got, status = os.waitpid(pid, os.WNOHANG)
                if got:
                    done.append((pid, job, status))
            for pid, job, status in done:
                del running[pid]
                tag = os.path.join(workdir, f"{job[0].name}.{job[1]}")
                res = _collect(tag, job, status)
                results.append(res)
                if res["failure"] is not None and tier == "quick":
                    stop = stop or False
            now = time.time()
            for pid, (job, began) in list(running.items()):
                tag = os.path.join(workdir, f"{job[0].name}.{job[1]}")
                current = _now(tag)
                hang = current is not None and now - current[0] > CASE_HANG_SECONDS
                late = now - t0 > HARD_LIMIT[tier]
                if hang or late:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    del running[pid]
                    res = _blank(job)
                    if hang:
                        res["failure"] = {
                            "case": json.loads(current[1]),
                            "message": f"no result after {CASE_HANG_SECONDS} s on a single case",
                            "hang": True,
                        }
                    else:
                        res["skipped"] = -1
                    results.append(res)
                    stop = stop or late
            if not done:
                time.sleep(0.02)
    finally:
        for pid in running:
            with contextlib.suppress(OSError):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
        shutil.rmtree(workdir, ignore_errors=True)
    return results


def _blank(job):
    return {"clause": job[0].name, "shard": job[1], "evaluations": 0, "nontrivial": [],
            "events": {}, "samples": [], "failure": None, "error": None, "skipped": 0,
            "wall_s": 0.0}


def _collect(tag, job, status):
    try:
        with open(tag + ".json") as f:
            return json.load(f)
    except (OSError, ValueError):
        pass
    res = _blank(job)
    current = _now(tag)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASH_SIGNALS and current:
        res["failure"] = {
            "case": json.loads(current[1]),
            "message": f"the interpreter died with signal {os.WTERMSIG(status)} on this case",
            "crash": True,
        }
    else:
        tail = ""
        with contextlib.suppress(OSError), open(tag + ".log") as f:
            tail = f.read()[-2000:]
        res["error"] = f"worker ended with status {status}\n{tail}"
    return res


# ------------------------------------------------------------------- main ---
def _json_safe(x):
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, dict):
        return {k: _json_safe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_json_safe(v) for v in x]
    return x


def load(pid):
    module = importlib.import_module(f"props.{pid.lower()}")
    return module.PROP


def known_findings():
    path = os.path.join(env.VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def run_known(prop):
    """Witnesses of listed findings, each in a forked child."""
    listed = {f["id"]: f for f in known_findings()["findings"] if f["property"] == prop.pid}
    lines, problems = [], []
    for fid, fn in prop.known:
        entry = listed.get(fid)
        if entry is None:
            continue

        def check(case, ctx, fn=fn):
            fn(ctx)

        clause = Clause(f"known-{fid}", None, check, 0, 0, True, "", [{"finding": fid}], 1)
        (res,) = run_jobs(prop, [(clause, 0, 0, 0, 60.0)], "quick", 1)
        if res["error"]:
            problems.append(res["error"])
        elif res["failure"] is not None:
            lines.append(f"KNOWN-FINDING: property={prop.pid} {entry['what']}")
    return lines, problems


def main(argv=None):
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--clause", default=None)
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--workers", type=int, default=8)
    parser.add_argument("--no-evidence", action="store_true")
    parser.add_argument("-v", action="store_true")
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    prop = load(args.property)

    if args.replay:
        with open(args.replay) as f:
            saved = json.load(f)
        clause = {c.name: c for c in prop.clauses}[saved["clause"]]
        _set_env(clause)
        _, msg = judge(clause, saved["case"])
        if msg is None:
            print(f"REPLAY-OK property={prop.pid} clause={clause.name}")
            return 0
        print(f"{clause.name}: {msg}")
        print(f"VIOLATION property={prop.pid} replay={args.replay}")
        return 1

    jobs = []
    for clause in prop.clauses:
        if args.clause and args.clause not in clause.name:
            continue
        total = max(1, int(clause.n[tier] * args.scale))
        shards = clause.shards if tier == "quick" else max(clause.shards, 4)
        for shard in range(shards):
            # Independent, reproducible seed for every clause and shard
            key = f"{seed}/{prop.pid}/{clause.name}/{shard}".encode()
            cseed = int.from_bytes(hashlib.blake2b(key, digest_size=6).digest(), "big")
            jobs.append((clause, shard, -(-total // shards), cseed, CLAUSE_BUDGET[tier]))
    results = run_jobs(prop, jobs, tier, args.workers)
    known_lines, problems = run_known(prop)

    failures = [r for r in results if r["failure"] is not None]
    errors = [r for r in results if r["error"]]
    clauses = {}
    samples = []
    for r in results:
        c = clauses.setdefault(
            r["clause"],
            {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "not_run": 0, "wall_s": 0.0},
        )
        c["evaluations"] += r["evaluations"]
        c.setdefault("_nt", set()).update(r["nontrivial"])
        c["not_run"] += max(0, r["skipped"])
        c["wall_s"] = round(max(c["wall_s"], r["wall_s"]), 2)
        for k, v in r["events"].items():
            c["classes"][k] = c["classes"].get(k, 0) + v
        for s in r["samples"][:1]:
            if sum(1 for x in samples if x["clause"] == r["clause"]) < 1:
                samples.append({"clause": r["clause"], "case": _json_safe(s)})
    rules = {c.name: c.rule for c in prop.clauses if c.rule}
    for name, c in clauses.items():
        c["distinct_nontrivial"] = len(c.pop("_nt"))
        c["classes"] = dict(sorted(c["classes"].items()))
        if name in rules:
            c["what"] = rules[name]
    evaluations = sum(c["evaluations"] for c in clauses.values())
    nontrivial = sum(c["distinct_nontrivial"] for c in clauses.values())
    evidence = {
        "property": prop.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": nontrivial,
            "rule": prop.rule, "samples": samples, "clauses": clauses,
            "known_findings_present": len(known_lines),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    if not args.no_evidence and not args.clause:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(env.VERIF, "evidence", f"{prop.pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.rename(path + ".tmp", path)
    if args.v:
        for name, c in clauses.items():
            print(f"  {name}: {c['evaluations']} cases, {c['distinct_nontrivial']} non-trivial, "
                  f"{c['wall_s']} s, not run {c['not_run']}, {c['classes']}")
    for line in known_lines:
        print(line)
    for r in failures:
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        path = os.path.join(env.VERIF, "replays", f"{prop.pid}-{r['clause']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop.pid, "clause": r["clause"], "seed": seed,
                       "message": r["failure"]["message"], "case": r["failure"]["case"]}, f, indent=1)
        print(f"{r['clause']}: {r['failure']['message']}")
        print(f"  case: {str(canonical(r['failure']['case']))[:1500]}")
        print(f"VIOLATION property={prop.pid} replay={path}")
    for r in errors:
        print(f"HARNESS-ERROR {r['clause']}: {r['error']}")
    for problem in problems:
        print(f"HARNESS-ERROR known finding: {problem}")
    print(f"{prop.pid}: {evaluations} cases, {nontrivial} distinct non-trivial, "
          f"{len(failures)} violations, {round(time.time() - t0, 1)} s")
    if failures:
        return 1
    if errors or problems:
        return 2
    return 0
