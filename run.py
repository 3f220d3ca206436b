#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough] [--seed N] [--only NAME] [--replay FILE]"""
import os
import sys
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or not sys.prefix.startswith("/opt/venv"):
    os.execv(PY, [PY] + sys.argv)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import engine
sys.exit(engine.main())
