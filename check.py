#!/opt/venv/bin/python
"""Entry point:  check.py run Cxx | replay FILE | selftest Cxx N

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1",
        "LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONWARNINGS": "ignore"}
if os.environ.get("VERIF_BOOTED") != "1":
    env = dict(os.environ, VERIF_BOOTED="1", **WANT)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONTRACEMALLOC", "PYTHONMALLOC"):
        env.pop(k, None)
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-X", "utf8", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from sim import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))
