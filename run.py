#!/usr/bin/env python3
"""
Runs one check:  run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed. Exit 1: at least one VIOLATION line was printed.
Exit 2: inconclusive (the deciding monitor was not reached, or the harness failed).
"""
import os
import sys

VENV = "/opt/venv/bin/python"
WANT = {
    "TZ": "UTC",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "LANG": "C.UTF-8",
    "PYTHONWARNINGS": "ignore",
}

if os.path.realpath(sys.prefix) != "/opt/venv" or any(os.environ.get(k) != v for k, v in WANT.items()):
    env = dict(os.environ)
    env.update(WANT)
    if env.get("VF_REEXEC") != "1":
        env["VF_REEXEC"] = "1"
        exe = VENV if os.path.exists(VENV) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VF_REPO", "/repo"))

if "--selftest" in sys.argv:
    import mabel

    assert os.path.realpath(mabel.__file__).startswith(os.path.realpath(os.environ.get("VF_REPO", "/repo")))
    print("mabel", mabel.__version__, "imported from", os.path.dirname(mabel.__file__))
    sys.exit(0)

from vf.core import main  # noqa: E402

sys.exit(main(sys.argv[1:], HERE))
