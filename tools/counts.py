"""Prints the table of cases per group (quick / thorough) for DESIGN.md, from the checks themselves."""
import glob
import importlib.util
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("MQ_REPO", "/repo")]
os.environ.setdefault("MPLBACKEND", "Agg")
for f in sorted(glob.glob(ROOT + "/checks/q*.py")):
    sp = importlib.util.spec_from_file_location("c", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    g = m.GROUPS
    print(f"| {m.PROPERTY} | {sum(x[1] for x in g.values())} / {sum(x[2] for x in g.values())} | "
          + ", ".join(f"{k} {x[1]}/{x[2]}" for k, x in g.items()) + " |")
