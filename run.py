#!/opt/venv/bin/python
"""Run one check:  run.py P07 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a line
``VIOLATION property=<id> replay=<path>``: it is broken.  Exit 2: usage error.
"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"

if os.environ.get("EZMC_CHILD") != "1":
    env = dict(os.environ, EZMC_CHILD="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
               LC_ALL="C.UTF-8", TZ="UTC")
    env.pop("PYTHONPATH", None)
    exe = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(exe, [exe, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

# never execute stale byte code of /repo
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-ezmc-pycache"
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("EZMC_REPO", "/repo"))

from lib import mc  # noqa: E402

if __name__ == "__main__":
    sys.exit(mc.main(sys.argv[1:]))
