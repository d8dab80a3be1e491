#!/usr/bin/env python3
"""Entry point of all checks:  check.py C01 [--tier quick|thorough] [--replay FILE]

Runs itself again under the interpreter of the repository with a normalised environment and a scratch configuration
directory, so that nothing of the caller's environment reaches the simulation.
"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.replay and os.environ.get("VERIF_INNER") != "1":
        a.replay = os.path.abspath(a.replay)
        sys.argv[1:] = [a.property, "--replay", a.replay]
    if os.environ.get("VERIF_INNER") != "1":
        scratch = tempfile.mkdtemp(prefix="dst-")
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR") or k.startswith("VERIF_")}
        env.update(VERIF_INNER="1", VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   MPLCONFIGDIR=scratch, VERIF_SCRATCH=scratch, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONNOUSERSITE="1", TZ="UTC")
        try:
            return subprocess.run([PY, str(HERE / "check.py")] + sys.argv[1:], env=env, cwd=scratch).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:0] = [str(HERE), repo]
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import at  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import pySC
    if not os.path.abspath(pySC.__file__).startswith(os.path.abspath(repo) + os.sep):
        print(f"pySC was imported from {pySC.__file__}, not from {repo}", file=sys.stderr)
        return 2
    from dst import runner
    from dst.seams import remember_real
    remember_real()
    if a.replay:
        return runner.replay(a.property, a.replay)
    return runner.check(a.property, a.tier, seed, a.wall, a.scale, a.workers)


if __name__ == "__main__":
    sys.exit(main())
