#!/usr/bin/env python
"""run.py <property> [--tier quick|thorough] [--replay file.json]"""
import argparse
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TORCHIVA_REPO", "/repo")
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)
import warnings

warnings.filterwarnings("ignore")


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--list", action="store_true")
    p.add_argument("--jobs", type=int)
    a = p.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)

    from mc import engine

    name = f"checks.{a.property.lower()}"
    try:
        import torchiva

        assert os.path.realpath(torchiva.__file__).startswith(
            os.path.realpath(REPO)
        ), torchiva.__file__
    except Exception as e:  # the package does not even import
        import traceback

        traceback.print_exc()
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        fn = os.path.join(ROOT, "replays", f"{a.property}-import.json")
        with open(fn, "w") as f:
            json.dump({"property": a.property, "case": "import", "message": repr(e)}, f)
        print(f"VIOLATION property={a.property} replay={fn}")
        return 1

    module = importlib.import_module(name)
    if a.list:
        for c in engine.dedup(list(module.cases(a.tier))):
            print(json.dumps(c))
        return 0
    if a.replay:
        import torch

        torch.set_num_threads(1)
        case = json.load(open(a.replay))["case"]
        kind, payload = engine.execute(module, case)
        print(kind, payload)
        if kind == "violation":
            print(f"VIOLATION property={a.property} replay={a.replay}")
        return int(kind == "violation")
    return engine.explore(module, a.tier, seed, jobs=a.jobs)


if __name__ == "__main__":
    sys.exit(main())
