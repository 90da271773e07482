#!/opt/venv/bin/python
"""run.py PID [--tier quick|thorough] [--replay FILE]   -- decides one property (see core.py)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
import core  # noqa: E402

sys.exit(core.main())
