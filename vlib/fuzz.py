"""Coverage-guided search over a check's own generators (thorough tier).

atheris (libFuzzer) mutates the bytes from which Hypothesis draws a case, guided by the branches and comparisons that are
covered in the code under test; the case is then decided by the same check as any other. A failing case is shrunk by
Hypothesis, as usual.
"""

from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _test(mod, arm, strategy, rec, seen, database, phases):
    import hypothesis
    from hypothesis import HealthCheck
    from hypothesis import settings

    from vlib import runner
    from vlib import sut

    @hypothesis.seed(1)
    @settings(
        max_examples=1000, deadline=None, database=database, suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=phases, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )
    @hypothesis.given(strategy)
    def test(case):
        if seen.get("until") and time.time() > seen["until"]:
            raise runner.Stop
        full = {"arm": arm, "case": case}
        try:
            runner.decide(mod, full, rec)
        except sut.Violation as v:
            if "case" not in seen:
                rec.failed_at = len(rec.history)
                seen["until"] = time.time() + runner.SHRINK_LIMIT
            seen["case"], seen["msg"] = full, str(v)
            raise

    return test


def child(prop, arm, seed, seconds, out):
    """One fuzzing process; writes its state to `out` as it goes (libFuzzer ends the process itself)."""
    import atheris

    with atheris.instrument_imports(include=["atoparser"]):
        from vlib import sut
    from hypothesis import Phase
    from hypothesis.database import InMemoryExampleDatabase

    from vlib import runner

    mod = importlib.import_module(f"checks.{prop}")
    strategy = mod.ARMS[arm][0]
    rec, seen, db = runner.Recorder(), {}, InMemoryExampleDatabase()
    test = _test(mod, arm, strategy, rec, seen, db, [Phase.generate])
    state = {"last": 0.0, "inputs": 0}

    def save(error=None):
        state["last"] = time.time()
        with open(out + ".tmp", "w") as f:
            json.dump({
                "inputs": state["inputs"], "evaluations": rec.evaluations, "nontrivial": sorted(rec.nontrivial),
                "violation": [seen["case"], seen["msg"]] if "case" in seen else None,
                "history": rec.history[: rec.failed_at] if "case" in seen else [], "error": error,
            }, f)
        os.replace(out + ".tmp", out)

    def one(data):
        state["inputs"] += 1
        try:
            test.hypothesis.fuzz_one_input(data)
        except sut.Violation:
            shrink = _test(mod, arm, strategy, rec, seen, db, [Phase.reuse, Phase.shrink])
            try:
                shrink()
            except BaseException:  # noqa: S110  the smallest failing case is in `seen`  pylint: disable=broad-except
                pass
            save()
            os._exit(0)
        except runner.HarnessError as exc:
            save(str(exc)[-3000:])
            os._exit(0)
        if time.time() - state["last"] > 2:
            rec.history = rec.history[-3000:]
            save()

    save()
    atheris.Setup([sys.argv[0], f"-seed={seed}", f"-max_total_time={seconds}", "-max_len=2048", "-len_control=20", "-rss_limit_mb=0", "-timeout=600",
                   "-verbosity=0", "-print_final_stats=0", "-use_value_profile=1", f"-artifact_prefix={out}."], one)
    atheris.Fuzz()


def campaign(mod, prop, seed, seconds, tmp, shards):
    """Run the check's arms under atheris; the result has the form of a runner 'extra'."""
    arms = [a for a in sorted(mod.ARMS) if a not in getattr(mod, "NOT_FUZZED", ())]
    if not arms:
        return {}
    procs = []
    for k in range(shards):
        arm = arms[k % len(arms)]
        out = os.path.join(tmp, f"fuzz-{k}.json")
        log = open(os.path.join(tmp, f"fuzz-{k}.log"), "w")
        procs.append((arm, out, log, subprocess.Popen(
            [sys.executable, os.path.join(ROOT, "run.py"), prop, "--fuzz", arm, "--seed", str(seed * 1009 + k), "--seconds", str(seconds), "--out", out],
            stdout=log, stderr=subprocess.STDOUT, cwd=tmp, env=dict(os.environ, PYTHONHASHSEED="0", VERIF_SCRATCH=tmp))))
    res = {"evaluations": 0, "sums": {}, "violations": [], "errors": [], "nontrivial": []}
    for arm, out, log, p in procs:
        try:
            p.wait(seconds + 900)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.close()
        with open(log.name) as f:
            text = f.read()[-3000:]
        if not os.path.exists(out):
            res["errors"].append(f"fuzzing {arm}: no result ({p.returncode})\n{text}")
            continue
        with open(out) as f:
            r = json.load(f)
        res["evaluations"] += r["evaluations"]
        res["nontrivial"] += r["nontrivial"]
        res["sums"]["fuzzed cases"] = res["sums"].get("fuzzed cases", 0) + r["evaluations"]
        res["sums"]["fuzzer inputs"] = res["sums"].get("fuzzer inputs", 0) + r["inputs"]
        if r["violation"]:
            res["violations"].append(r["violation"] + [r["history"]])
        elif r["error"]:
            res["errors"].append(f"fuzzing {arm}:\n{r['error']}")
        elif p.returncode != 0:
            res["errors"].append(f"fuzzing {arm}: ended with {p.returncode}\n{text}")
    return res
