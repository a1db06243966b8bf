#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath("/opt/venv/bin/python") or sys.prefix != "/opt/venv":
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]])
os.environ.setdefault("PYTHONWARNINGS", "ignore")
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
sys.path[:0] = ["/repo", ROOT, os.path.join(ROOT, "vendor")]

from pbt.runner import main, selftest  # noqa: E402

if sys.argv[1:] == ["--selftest"]:
    sys.exit(selftest())

sys.exit(main())
