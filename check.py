#!/usr/bin/env python3
"""check.py CNN [--replay FILE]  (VERIF_TIER, VERIF_SEED from the environment)"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
os.chdir(HERE)

from rv import runner  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1].upper()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    sys.exit(runner.main(prop, replay))
