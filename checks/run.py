#!/usr/bin/env python3
"""Runs the check of one property: checks/run.py <ID> (tier and seed from VERIF_TIER and VERIF_SEED)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE) + "/lib")
sys.path.insert(0, HERE)

GROUPS = {"T": "fbs", "C": "fbs", "E": "fbs", "A": "fbs", "S": "strings", "N": "textnum", "D": "dates",
          "M": "selection", "B": "bits", "R": "reals", "L": "stsrc"}

if __name__ == "__main__":
    import vlib
    pid = sys.argv[1]
    mod = importlib.import_module({"A03": "tasks", "A05": "pure", "A06": "pure"}.get(pid) or GROUPS[pid[0]])
    vlib.main(pid, "model_checking", getattr(mod, pid))
