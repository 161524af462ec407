#!/opt/venv/bin/python
"""check.py Qnn [--tier quick|thorough] [--seed N] [--case group:idx] [--replay file] [-v]"""
import os, sys
os.environ.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
                  PYTHONDONTWRITEBYTECODE="1")
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.environ.get("MQ_REPO", "/repo"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
from mq import core
if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(core.main(mod, sys.argv[2:]))
