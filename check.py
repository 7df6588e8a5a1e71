#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]

Exit 0: held on everything explored. Exit 1: violation (line VIOLATION ...). Exit 2:
the check itself failed.
"""

import argparse
import ctypes
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
PY = "/opt/venv/bin/python"


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--count", type=int)
    ap.add_argument("--hashseed", default="0")
    ap.add_argument("--log")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="sim-")
    try:
        os.mkdir(os.path.join(scratch, "mpl"))
        shim = os.path.join(scratch, "clockshim.so")
        subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(HERE, "sim", "clockshim.c"), "-ldl"],
            check=True,
        )
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": scratch,
            "TMPDIR": scratch,
            "LD_PRELOAD": shim,
            "SIM_SHIM": shim,
            "SIM_SCRATCH": scratch,
            "SIM_REPO": REPO,
            "PYTHONPATH": HERE + ":" + REPO,
            "PYTHONHASHSEED": a.hashseed,
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONWARNINGS": "ignore",
            "TZ": "UTC",
            "LC_ALL": "C.UTF-8",
            "MPLBACKEND": "Agg",
            "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
            "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1",
        }
        for k in ("SIM_STDERR", "SIM_CAP", "SIM_LOG"):
            if os.environ.get(k):
                env[k] = os.environ[k]
        cmd = [PY, "-m", "sim.cli", a.id.upper(), a.tier, str(a.seed), scratch]
        cmd += ["--replay", os.path.abspath(a.replay)] if a.replay else []
        cmd += ["--workers", str(a.workers)] if a.workers else []
        cmd += ["--count", str(a.count)] if a.count else []
        cmd += ["--log", os.path.abspath(a.log)] if a.log else []
        p = subprocess.Popen(cmd, env=env, cwd=HERE, preexec_fn=no_aslr, start_new_session=True)

        def stop(*_):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

        signal.signal(signal.SIGTERM, lambda *_: (stop(), sys.exit(2)))
        limit = 840 if a.tier == "quick" else 6 * 3600
        try:
            code = p.wait(limit)
        except subprocess.TimeoutExpired:
            print("the check did not end in time", file=sys.stderr)
            code = 2
        stop()
        if code not in (0, 1):
            code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
