"""Runs one check: shards, Hypothesis searches, enumerated cases, replay, evidence.

A check module defines
  ID, LEVEL, RULE, ASSUMPTIONS
  run(case, rec)        decide one case (plain JSON data); raises Violation; rec.note(...) describes it
  ARMS = {name: (strategy, examples per shard in quick, in thorough)}    generated cases: {"arm": name, "case": ...}
  enumerated(tier)      iterable of fixed cases, dealt out over the shards (optional)
Every generated failure is shrunk by Hypothesis and written as a replay file that `run.py ID --replay FILE` decides again
without the library. A failure that needs the cases before it (state kept by the code under test) is replayed with the
shortest history found that still makes it fail.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
DEPTH = float(os.environ.get("VERIF_DEPTH", "1"))  # multiplies the time that a thorough run may take (about 13 minutes)
TIME_LIMIT = {"quick": 420.0, "thorough": 420.0 * DEPTH}
SHRINK_LIMIT = 60.0
FUZZ_SECONDS = int(330 * DEPTH)  # thorough: coverage-guided search on every core after the searches above
CASE_CPU_LIMIT = 90.0  # seconds of processor time for one case (they need less than 10): beyond that it does not terminate
CASE_WALL_LIMIT = 150.0  # seconds that a case may take altogether: beyond that it hangs (e.g. waits for a lock)
HISTORY_LIMIT = 90.0  # seconds spent on shortening a history


class Stop(BaseException):
    """Ends a search early (time limit); never a verdict."""


class HarnessError(Exception):
    pass


class Recorder:
    """Counts what a run really produced."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.sums = {}
        self.samples = []
        self.history = []

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self.history.append(json.dumps(case))

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def add(self, name, k):
        self.sums[name] = self.sums.get(name, 0) + k

    def nontrivial_case(self, key=None):
        data = json.dumps(self._case if key is None else key, sort_keys=True)
        h = hashlib.blake2b(data.encode(), digest_size=10).hexdigest()
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            k = len(self.nontrivial)
            if k <= 2 or (k & (k - 1) == 0 and len(self.samples) < 8):
                text = json.dumps(self._case if key is None else key)
                self.samples.append(json.loads(text) if len(text) < 1500 else text[:1500] + "...")


def _repo_frame(exc) -> bool:
    from vlib import sut

    pkg = os.path.join(os.path.abspath(sut.REPO), "atoparser") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


class Watch:
    """Ends a case that hangs: a thread that delivers the signal which otherwise tells that the processor time is used up."""

    def __init__(self):
        self.pid, self.since = None, None

    def begin(self):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            threading.Thread(target=self._run, name="verif-watch", daemon=True).start()
        self.since = time.monotonic()

    def _run(self):
        while True:
            time.sleep(5)
            if self.since is not None and time.monotonic() - self.since > CASE_WALL_LIMIT:
                self.since = time.monotonic()
                os.kill(os.getpid(), signal.SIGPROF)


WATCH = Watch()


def decide(mod, case, rec):
    """One case. An exception that comes out of the code under test where nothing may fail is a violation."""
    from vlib import sut

    def out_of_time(*_):
        raise sut.Runaway

    rec.begin(case)
    signal.signal(signal.SIGPROF, out_of_time)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    WATCH.begin()
    try:
        mod.run(case, rec)
    except sut.Violation:
        raise
    except sut.Runaway as exc:
        raise sut.Violation("the budget of reads or of time was exhausted: it does not terminate") from exc
    except Exception as exc:  # pylint: disable=broad-except
        if _repo_frame(exc):
            raise sut.Violation(f"unexpected {type(exc).__name__}: {exc}") from exc
        raise HarnessError(traceback.format_exc()) from exc
    finally:
        WATCH.since = None
        signal.setitimer(signal.ITIMER_PROF, 0)


def search(mod, arm, strategy, n, seed, rec, deadline):
    """Hypothesis search; returns (shrunk case, message) or None."""
    import hypothesis
    from hypothesis import HealthCheck
    from hypothesis import Phase
    from hypothesis import settings

    from vlib import sut

    found = {}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )
    @hypothesis.given(strategy)
    def test(case):
        now = time.time()
        if now > deadline or (found and now > found["first"] + SHRINK_LIMIT):
            raise Stop
        full = {"arm": arm, "case": case}
        try:
            decide(mod, full, rec)
        except sut.Violation as v:
            if not found:
                found["first"], rec.failed_at = now, len(rec.history)
            found["case"], found["msg"] = full, str(v)
            raise

    try:
        test()
    except Stop:
        if not found:
            rec.label("search stopped by the time limit")
    except sut.Violation:
        pass
    except HarnessError:
        if not found:
            raise
    except hypothesis.errors.Flaky:
        if not found:
            raise
    if found:
        return found["case"], found["msg"]
    return None


def shard_main(mod, tier, seed, shard, out):
    from vlib import sut

    rec = Recorder()
    result = {"violation": None}
    deadline = time.time() + TIME_LIMIT[tier]
    for i, case in enumerate(mod.enumerated(tier) if hasattr(mod, "enumerated") else []):
        if i % SHARDS != shard:
            continue
        if time.time() > deadline:
            rec.label("enumeration stopped by the time limit")
            break
        try:
            decide(mod, case, rec)
        except sut.Violation as v:
            result["violation"] = [case, str(v)]
            rec.failed_at = len(rec.history)
            break
    if result["violation"] is None:
        for k, (arm, (strategy, quick, thorough)) in enumerate(sorted(mod.ARMS.items())):
            n = quick if tier == "quick" else thorough
            if not n:
                continue
            got = search(mod, arm, strategy, n, seed * 1000003 + shard * 101 + k, rec, deadline)
            if got:
                result["violation"] = list(got)
                break
    result.update(
        history=rec.history[: rec.failed_at] if result["violation"] else [],
        evaluations=rec.evaluations, nontrivial=sorted(rec.nontrivial), labels=rec.labels, sums=rec.sums, samples=rec.samples
    )
    with open(out, "w") as f:
        json.dump(result, f)


def write_replay(prop, cases):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "case": cases[-1]}
    if len(cases) > 1:
        body["before"] = cases[:-1]
    text = json.dumps(body, indent=1)
    name = f"{prop}-{hashlib.blake2b(text.encode(), digest_size=5).hexdigest()}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def replay(mod, path):
    """None, or what is violated."""
    from vlib import sut

    with open(path) as f:
        body = json.load(f)
    for case in body.get("before", []) + [body["case"]]:
        try:
            decide(mod, case, Recorder())
        except sut.Violation as v:
            return str(v)
    return None


def fails(prop, cases, tmp):
    """Whether the cases, decided one after the other in a process of their own, end in a violation."""
    path = os.path.join(tmp, "candidate.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": cases[-1], "before": cases[:-1]}, f)
    try:
        return subprocess.run(
            [sys.executable, os.path.join(ROOT, "run.py"), prop, "--replay", path],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=ROOT, timeout=300).returncode == 1
    except subprocess.TimeoutExpired:
        return False


def reproduction(prop, case, history, tmp):
    """The shortest list of cases found that ends in a violation in a fresh process: the case alone, or with a history."""
    if not history or fails(prop, [case], tmp):
        return [case]
    cases = [json.loads(c) for c in history]
    until = time.time() + HISTORY_LIMIT
    k = 1
    while k < len(cases):  # a recent part of the history is likely to do
        if fails(prop, cases[-k - 1 :], tmp):
            cases = cases[-k - 1 :]
            break
        if time.time() > until:
            return [case]
        k *= 4
    else:
        if not fails(prop, cases, tmp):
            return [case]
    before, last, size = cases[:-1], cases[-1], max(1, len(cases) // 2)
    while size >= 1 and time.time() < until:
        i = 0
        while i < len(before) and time.time() < until:
            shorter = before[:i] + before[i + size :]
            if fails(prop, shorter + [last], tmp):
                before = shorter
            else:
                i += size
        size //= 2
    return before + [last]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in TIME_LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--fuzz" in argv:  # before anything imports the code under test, which is to be instrumented
        from vlib import fuzz

        option = lambda name: argv[argv.index(name) + 1]  # noqa: E731
        fuzz.child(prop, option("--fuzz"), int(option("--seed")), int(option("--seconds")), option("--out"))
        return 0
    mod = importlib.import_module(f"checks.{prop}")
    if "--replay" in argv:
        path = os.path.abspath(argv[argv.index("--replay") + 1])
        msg = replay(mod, path)
        if msg is None:
            print("held")
            return 0
        print(f"violated: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if "--shard" in argv:
        shard = int(argv[argv.index("--shard") + 1])
        shard_main(mod, tier, seed, shard, argv[argv.index("--out") + 1])
        return 0
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix=f"verif-{prop}-") as tmp:
        env = dict(os.environ, PYTHONHASHSEED="0", VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SCRATCH=tmp)
        procs = []
        for s in range(SHARDS):
            out = os.path.join(tmp, f"{s}.json")
            log = open(os.path.join(tmp, f"{s}.log"), "w")
            procs.append((subprocess.Popen(
                [sys.executable, os.path.join(ROOT, "run.py"), prop, "--tier", tier, "--shard", str(s), "--out", out],
                stdout=log, stderr=subprocess.STDOUT, env=env, cwd=ROOT), out, log))
        results, errors = [], []
        for s, (p, out, log) in enumerate(procs):
            rc = p.wait()
            log.close()
            if rc != 0 or not os.path.exists(out):
                with open(log.name) as f:
                    errors.append(f"shard {s} ended with {rc}:\n{f.read()[-4000:]}")
            else:
                with open(out) as f:
                    results.append(json.load(f))
        extra = None
        if tier == "thorough" and not any(r["violation"] for r in results):
            from vlib import fuzz

            extra = fuzz.campaign(mod, prop, seed, int(os.environ.get("VERIF_FUZZ_SECONDS", FUZZ_SECONDS)), tmp, SHARDS)
    nontrivial, labels, sums, samples, evaluations = set(), {}, {}, [], 0
    for r in results:
        evaluations += r["evaluations"]
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["sums"].items():
            sums[k] = sums.get(k, 0) + v
        samples += r["samples"][:3]
    violations = [r["violation"] + [r["history"]] for r in results if r["violation"]]
    if extra:
        evaluations += extra.get("evaluations", 0)
        sums.update(extra.get("sums", {}))
        nontrivial.update(extra.get("nontrivial", []))
        violations += extra.get("violations", [])
        errors += extra.get("errors", [])
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
            "samples": samples[:12], "labels": dict(sorted(labels.items())), "totals": sums, "shards": SHARDS,
        },
        "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(violations),
    }
    if getattr(mod, "EXHAUSTIVE", None):
        evidence["coverage"]["exhaustive_part"] = mod.EXHAUSTIVE
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[0])))
        case, msg, history = violations[0]
        with tempfile.TemporaryDirectory(prefix=f"verif-{prop}-") as tmp:
            path = write_replay(prop, reproduction(prop, case, history, tmp))
        print(f"{prop}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print(f"{prop}: harness error", file=sys.stderr)
        return 2
    print(f"{prop}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), {wall:.1f} s")
    return 0
