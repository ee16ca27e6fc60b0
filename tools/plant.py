#!/usr/bin/env python3
"""Plant bugs and measure the checks against them (development tool, not a check).

  plant.py make SPEC.py          write seeded/<id>/ for every bug of SPEC
  plant.py verify [ids...]       patch applies, tests pass, demo 0 clean / !=0 patched
  plant.py detect [--all] [ids]  run the check of the bug's property (or all) on a copy

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new), ...], demo, needs, breaks)].
Everything runs in scratch copies under /tmp, removed afterwards.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Runs in the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=2
exec /opt/venv/bin/python "$here/demo.py"
"""


def copy():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    return d, r


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d, r = copy()
        try:
            for fn, old, new in b["edits"]:
                p = os.path.join(r, fn)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        finally:
            shutil.rmtree(d)
        out = os.path.join(SEED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=2)
        print("made", b["id"])


def demo(i, r):
    t = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
    shutil.copytree(os.path.join(SEED, i), os.path.join(t, "x"))
    for f in ("patch.diff", "meta.json"):
        os.unlink(os.path.join(t, "x", f))
    p = subprocess.run(["bash", os.path.join(t, "x", "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
    shutil.rmtree(t)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def verify(i):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    d, r = copy()
    try:
        rc0, o0 = demo(i, r)
        subprocess.run(["git", "-C", r, "apply", os.path.join(SEED, i, "patch.diff")], check=True)
        rc1, o1 = demo(i, r)
        env = dict(os.environ, PYTHONPATH="/opt/vp/plugins", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        x = os.path.join(d, "junit.xml")
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "--timeout=900",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={x}", "tests"],
                       cwd=r, env=env, capture_output=True)
        j = os.path.join(d, "out.json")
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", j, f"junit:{x}"], capture_output=True)
        passed = set(json.load(open(j))["passed"])
        lost = stable - passed
        ok = rc0 == 0 and rc1 != 0 and not lost
        print(("OK  " if ok else "BAD ") + i, f"demo clean={rc0} patched={rc1} lost={sorted(lost)[:3]}",
              "" if rc0 == 0 else o0, "" if rc1 else o1, flush=True)
        return ok
    finally:
        shutil.rmtree(d)


def detect(i, everything):
    prop = json.load(open(os.path.join(SEED, i, "meta.json")))["property"]
    props = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    props = props if everything else [prop]
    d, r = copy()
    try:
        subprocess.run(["git", "-C", r, "apply", os.path.join(SEED, i, "patch.diff")], check=True)
        hit = []
        for p in props:
            q = subprocess.run([PY, os.path.join(ROOT, "run.py"), p], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, TORCHIVA_REPO=r, VERIF_SEED="1"))
            if q.returncode == 1 and f"VIOLATION property={p}" in q.stdout:
                hit.append(p)
            elif q.returncode != 0:
                hit.append(p + "!rc%d" % q.returncode)
        print(("CAUGHT " if prop in hit else "MISSED ") + i, prop, "hits:", " ".join(hit), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0])
    else:
        everything = "--all" in args
        ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(SEED))
        if cmd == "verify":
            with ThreadPoolExecutor(6) as ex:
                list(ex.map(verify, ids))
        else:
            for i in ids:
                detect(i, everything)
