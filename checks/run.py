#!/usr/bin/env python3
"""python3 checks/run.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), "lib")]
sys.dont_write_bytecode = True
import vf
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
mod = importlib.import_module(pid.lower())
vf.main(mod.check, pid, getattr(mod, "LEVEL", "model_checking"))
