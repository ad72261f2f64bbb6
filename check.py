#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current working tree
   check.py --setup                             builds the extractor
   check.py --replay FILE                       runs a recorded failing input again"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from rrv import run

a = sys.argv[1:]
if a[:1] == ["--setup"]:
    print(run.extractor())
elif a[:1] == ["--replay"]:
    sys.exit(run.replay(a[1]))
else:
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run.check(a[0], tier, int(os.environ.get("VERIF_SEED", "1"))))
