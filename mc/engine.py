"""Bounded exhaustive exploration driver.

A check module enumerates a finite, deterministic space of *cases* (a case is a
configuration, an input word, an operation history, a schedule prefix, a crash
point ...) and executes every one of them on the real code in /repo.  Nothing
is sampled: the enumeration does not depend on VERIF_SEED (it is recorded in
the evidence only).

A check module defines
    ID, TITLE, LEVEL, TECHNIQUE, RULE, ASSUMPTIONS
    cases(tier)   -> list of JSON-able dicts, simplest first
    run(case)     -> dict(transitions=int, states=int, outcome=str, skipped=bool)
                     raising Violation when the property fails
"""
import importlib
import itertools
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import BrokenExecutor, ProcessPoolExecutor
from multiprocessing import get_context
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("TORCHIVA_REPO", "/repo"))
CASE_TIMEOUT = 300
MAX_REPORTED = int(os.environ.get("VERIF_MAX", "1"))


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def product(**axes):
    """full product of named axes, in order"""
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(keys, vals))


def sweep(base, **axes):
    """deviations of one axis at a time from a base configuration"""
    yield dict(base)
    for key, vals in axes.items():
        for v in vals:
            if v != base.get(key):
                yield {**base, key: v}


def pairs(base, keep=None, **axes):
    """every combination of deviations in at most two axes from a base configuration"""
    out = list(sweep(base, **axes))
    for a, b in itertools.combinations(axes, 2):
        for u in axes[a]:
            for v in axes[b]:
                if u != base.get(a) and v != base.get(b):
                    out.append({**base, a: u, b: v})
    for c in out:
        if keep is None or keep(c):
            yield c


def dedup(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


_MODULE = None


def _init_worker(mod_name, n_threads=1):
    global _MODULE
    import torch

    torch.set_num_threads(n_threads)
    _MODULE = importlib.import_module(mod_name)


def _run_one(args):
    idx, case = args
    return (idx,) + execute(_MODULE, case)


def execute(module, case):
    """-> (kind, payload): ok / violation"""
    import torch

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT))
    torch.manual_seed(0)
    # the process wide state a case may depend on is fixed
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    try:
        res = module.run(case) or {}
        return "ok", res
    except Violation as e:
        return "violation", str(e)
    except CaseTimeout:
        return "violation", "the call did not return within the time limit"
    except MemoryError:
        raise
    except Exception:  # the code under test raised where it should not
        return "violation", "unexpected exception\n" + traceback.format_exc(limit=-6)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def load_findings(pid):
    fn = ROOT / "known_findings.json"
    if not fn.exists():
        return []
    return [f for f in json.loads(fn.read_text())["findings"] if f["property"] == pid]


def matches_finding(findings, case, msg):
    for f in findings:
        if all(case.get(k) == v for k, v in f["match"].items()) and f["message"] in msg:
            return f
    return None


def _results(pool, cases, chunk):
    it = pool.map(_run_one, enumerate(cases), chunksize=chunk)
    n = 0
    try:
        for r in it:
            n += 1
            yield r
    except BrokenExecutor as e:
        yield min(n, len(cases) - 1), "violation", f"a process running the code died: {e!r}"


def explore(module, tier, seed, jobs=None):
    t0 = time.time()
    pid = module.ID
    cases = dedup(list(module.cases(tier)))
    for c in cases:
        json.dumps(c)
    findings = load_findings(pid)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))

    states = transitions = validated = skipped = 0
    outcomes = set()
    violations, known = [], {}
    samples = []
    n_done = 0

    ctx = get_context("fork")
    _init_worker(module.__name__)
    chunk = max(1, min(getattr(module, "CHUNK", 16), len(cases) // (jobs * 4) or 1))
    pool = ProcessPoolExecutor(
        jobs, mp_context=ctx, initializer=_init_worker, initargs=(module.__name__,)
    )
    try:
        for idx, kind, payload in _results(pool, cases, chunk):
            case = cases[idx]
            n_done += 1
            if kind == "ok":
                states += int(payload.get("states", 1))
                transitions += int(payload.get("transitions", 1))
                if payload.get("skipped"):
                    skipped += 1
                else:
                    validated += int(payload.get("validated", 1))
                if "outcome" in payload:
                    outcomes.add(str(payload["outcome"]))
                for o in payload.get("outcomes", ()):
                    outcomes.add(str(o))
                if len(samples) < 3 and not payload.get("skipped"):
                    samples.append(case)
                elif idx == len(cases) - 1:
                    samples.append(case)
            else:
                f = matches_finding(findings, case, payload)
                if f is not None:
                    known.setdefault(f["what"], 0)
                    known[f["what"]] += 1
                    continue
                violations.append((case, payload))
                if len(violations) >= MAX_REPORTED:
                    break
    finally:
        for proc in list((pool._processes or {}).values()):
            proc.terminate()
        pool.shutdown(wait=False, cancel_futures=True)

    for what, n in known.items():
        print(f"KNOWN-FINDING: property={pid} {what} ({n} cases)")

    replays = []
    for case, msg in violations:
        rdir = ROOT / "replays"
        rdir.mkdir(exist_ok=True)
        fn = rdir / f"{pid}-{len(replays)}.json"
        fn.write_text(json.dumps({"property": pid, "case": case, "message": msg}, indent=1))
        replays.append(fn)
        print(f"[{pid}] case: {json.dumps(case)}")
        print(f"[{pid}] {msg}")
        print(f"VIOLATION property={pid} replay={fn}", flush=True)

    complete = n_done == len(cases) and not violations
    level = module.LEVEL
    cov = {
        "rule": module.RULE,
        "samples": samples,
        "exhaustive": complete,
        "cases_enumerated": len(cases),
        "cases_executed": n_done,
        "cases_skipped_as_ill_posed": skipped,
        "distinct_outcomes": len(outcomes),
        "known_finding_cases": sum(known.values()),
    }
    if level == "model_checking":
        cov.update(
            states=states,
            transitions=transitions,
            traces_validated_against_impl=validated,
        )
    else:
        cov.update(evaluations=transitions, distinct_nontrivial=states - skipped)
    if hasattr(module, "extra_coverage"):
        cov.update(module.extra_coverage(tier))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(
        f"[{pid}] {'VIOLATED' if violations else 'held'}: cases={n_done}/{len(cases)} "
        f"states={states} transitions={transitions} outcomes={len(outcomes)} "
        f"skipped={skipped} wall={ev['wall_s']}s"
    )
    return 1 if violations else 0
