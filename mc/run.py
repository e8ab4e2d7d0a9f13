#!/opt/venv/bin/python
"""run.py C01 [--tier quick|thorough] [--only CASE-REGEX] [--replay FILE] [--procs N]"""
import argparse, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int)
    a = ap.parse_args()
    sys.exit(core.main(a.prop, a.prop.lower(), a.tier, a.only, a.replay, a.procs))
