#!/opt/veriftools/pyvenv/bin/python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from rrv import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    P = props.PROPS.get(i)
    if not P:
        continue
    checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique="contract-based deductive verification: contracts on the instantiated functions of /repo (extracted from clang's AST on every run), obligations discharged by z3",
                       level="proof", level_note=P["explanation"] + " Trusted: extractor, verification engine, library contracts (rrv/lib_*.py). Functions outside the engine's reach are reported as bounded stand-ins decided by a concrete harness and never counted as proved."))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "not claimed yet")) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="./check.py --setup", hooks=dict(guard="none", enable="no hooks: the checks read /repo's sources as they are", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
