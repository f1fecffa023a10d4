#!/opt/venv/bin/python
"""Run the monitors of one property: check.py C05 [--tier quick|thorough] [--replay F]."""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("PVMON_CHILD") == "1":
        sys.path.insert(0, HERE)
        from pvmon import core

        sys.exit(core.main(sys.argv[1:]))
    scratch = tempfile.mkdtemp(prefix="pvmon.")
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "HOME", "LANG", "VERIF_SEED", "VERIF_TIER", "PVMON_REPO")
    }
    repo = env.get("PVMON_REPO", "/repo")
    for sub in ("numba", "mpl", "work", "home"):
        os.mkdir(os.path.join(scratch, sub))
    env.update(
        PVMON_CHILD="1",
        PVMON_SCRATCH=os.path.join(scratch, "work"),
        PVMON_REPO=repo,
        PYTHONPATH=os.path.join(repo, "src"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        HOME=os.path.join(scratch, "home"),
        TMPDIR=os.path.join(scratch, "work"),
        LC_ALL="C.UTF-8",
    )
    try:
        rc = subprocess.call(
            [PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE
        )
        if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            # The first use of the package, before any case, took the interpreter down
            prop = sys.argv[1].upper()
            path = os.path.join(HERE, "evidence", f"{prop}.crash.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fp:
                fp.write(f"check.py {' '.join(sys.argv[1:])}: interpreter ended by signal {-rc}\n")
            print(f"VIOLATION property={prop} replay={path}")
            rc = 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc in (0, 1, 2, 3) else 2)


if __name__ == "__main__":
    main()
