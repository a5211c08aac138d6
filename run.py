#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]: decide one property of /repo (see DESIGN.md)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ, VERIF_REEXEC="1", PYTHONHASHSEED="0", PYTHONUTF8="1", PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1")
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
import sut  # noqa: E402,F401  (first: it decides what gets imported from where)
import harness  # noqa: E402

sys.exit(harness.main())
