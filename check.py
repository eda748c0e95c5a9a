#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.runner import main

TABLE = {f[:-3].split("_")[0].upper(): f[:-3]
         for f in sorted(os.listdir(os.path.join(os.path.dirname(
             os.path.abspath(__file__)), "checks")))
         if f.endswith(".py") and f[0] == "c" and f[1:3].isdigit()}

if __name__ == "__main__":
    main(TABLE)
