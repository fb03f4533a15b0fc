#!/usr/bin/env python3
"""Entry point of every check:  python3 /verif/check.py C09

Re-executes itself with the repository's Python in a clean environment, runs
/verif/checks/<id>.py and turns its verdict into the exit status:
0 held, 1 violated (with a VIOLATION line), 2 the machinery itself failed.
"""
import os
import sys

VENV = "/opt/venv/bin/python"

if os.environ.get("VP_CHILD") != "1":
    env = {
        "HOME": os.environ.get("HOME", "/root"),
        "PATH": os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "JAX_PLATFORMS": "cpu", "JAX_ENABLE_X64": "1",
        "XLA_PYTHON_CLIENT_PREALLOCATE": "false",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
        "TF_CPP_MIN_LOG_LEVEL": "3", "MPLBACKEND": "Agg",
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
        "VP_CHILD": "1",
        "VP_REPO": os.environ.get("VP_REPO", "/repo"),
    }
    for k in ("TMPDIR", "VP_ONLY", "VP_KEEP", "VP_PROCS"):
        if k in os.environ:
            env[k] = os.environ[k]
    os.execve(VENV, [VENV, os.path.abspath(__file__), *sys.argv[1:]], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ["VP_REPO"], "src"))

from harness.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
