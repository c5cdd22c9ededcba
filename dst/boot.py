"""Process set-up: fixed hash seed, dependencies with real locks, seams, then psygnal."""

from __future__ import annotations

import gc
import os
import sys


def reexec() -> None:
    """Restart with a fixed environment so that nothing ambient reaches a run."""
    if os.environ.get("DST_CHILD") == "1":
        return
    env = dict(os.environ)
    env["DST_CHILD"] = "1"
    env.setdefault("DST_HASHSEED", "0")
    env["PYTHONHASHSEED"] = env["DST_HASHSEED"]
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["QT_QPA_PLATFORM"] = "offscreen"
    env["PSYGNAL_HIDE_LOCALS"] = env.get("PSYGNAL_HIDE_LOCALS", "")
    env.pop("PYTHONPATH", None)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.chdir(here)
    os.execve(py, [py, "-m", "dst", *sys.argv[1:]], env)


def setup(deps: tuple[str, ...] = ()) -> None:
    """Import third-party modules, install the seams, import psygnal from REPO."""
    import importlib
    import linecache  # noqa: F401
    import inspect  # noqa: F401

    for d in ("typing_extensions", *deps):
        importlib.import_module(d)
    sys.pycache_prefix = "/nonexistent-dst-cache"  # never trust a stale .pyc of psygnal
    sys.dont_write_bytecode = True
    from . import core

    core.install()
    sys.path.insert(0, core.SRC)
    import psygnal

    where = os.path.realpath(psygnal.__file__)
    if not where.startswith(os.path.realpath(core.SRC) + os.sep):
        raise core.HarnessError(f"psygnal imported from {where}, not {core.SRC}")
    gc.collect()
    gc.disable()
    gc.freeze()
