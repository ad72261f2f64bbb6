#!/opt/veriftools/pyvenv/bin/python3
"""Records which functions are under contract on the unchanged tree (rrv/expected.json) and the accessors of clang's AST
the contracts relate to (rrv/vocabulary.json)."""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rrv import run
out = {}
voc = os.path.join(run.VERIF, "rrv/vocabulary.json")
if os.path.exists(voc):
    os.remove(voc)
with tempfile.TemporaryDirectory() as w:
    for unit, d in run.UNITS.items():
        path = run.extract(unit, w)
        u = run._load(path)
        if unit == "generator":
            rs = run.verify_unit(unit, path)
            assert not any(r["unsupported"] for r in rs), [r["unsupported"] for r in rs]
            json.dump(sorted({q for r in rs for q in r["vocabulary"]}), open(voc, "w"), indent=0)
        out[unit] = sorted(t[0]["q"] + "(" + ", ".join(t[0]["pt"]) + ")" for t in d["targets"](u))
json.dump(out, open(os.path.join(run.VERIF, "rrv/expected.json"), "w"), indent=0)
print({k: len(v) for k, v in out.items()})
