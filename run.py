#!/opt/venv/bin/python
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import main

sys.exit(main(sys.argv[1:]))
