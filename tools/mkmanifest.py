"""Writes /verif/MANIFEST.json from bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from bin import registry as R
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=[], not_applicable=[])
for i in ids:
    if i in R.PROPS:
        p = R.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3-vt bin/check.py {i}", thorough_cmd=f"python3-vt bin/check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="contract-based deductive verification of the real source (pyvc symbolic execution, obligations to Z3/cvc5)"
            + ("; bounded run-time oracle stands in for functions outside the verifier's reach" if p.get("oracle") else ""),
            level=p.get("level", "proof"), level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=R.NOT_APPLICABLE.get(i, "no check yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
