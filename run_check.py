#!/opt/venv/bin/python
"""run_check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    from spmon import runner

    pid = sys.argv[1]
    mod = importlib.import_module(f"spmon.checks.{pid.lower()}")
    code = runner.main(mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)
