#!/usr/bin/env python3-vt
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = "Contracts on the functions of /repo; obligations generated from the current sources on every run and discharged by a normal-form equality prover and z3. What is not discharged is tried on the compiled code on sampled inputs (bounded, never counted as proved)."
checks, na = [], []
import importlib
for i in ids:
    if os.path.exists(os.path.join(ROOT, "engine", "specs", i.lower() + ".py")):
        P = importlib.import_module("specs." + i.lower()).PROP
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
            technique=P.get("technique", "contract-based deductive verification: verification conditions generated from /repo's C sources (and, where the property concerns it, its Python package) by symbolic execution with exact loop summaries, discharged by algebraic normal forms and z3"),
            level=P.get("level", "proof"), level_note=P.get("note", NOTE)))
    else: na.append(dict(property=i, reason="no check yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
