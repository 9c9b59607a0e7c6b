#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks them."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import props

rows, checks = [], []
for i, p in props.PROPS.items():
    rows.append(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])))
    assert len(p["title"]) <= 80, i
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    assert n <= 3, (i, n)
    b = p["bounds"]("quick") if callable(p["bounds"]) else p["bounds"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique="symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), counterexamples replayed natively",
                       level="model_checking", level_note="Bounded, exhaustive within the bounds: " + b + " Trusted: the executor (engine/), z3, clang, the models of libc and of descriptors; sampled paths are replayed against the native build."))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("".join(json.dumps(r) + "\n" for r in rows))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=props.NOT_APPLICABLE,
               notes="No hooks are needed: the checks compile the unmodified sources of /repo."), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
    for r in rows: jsonschema.validate(r, S("PROPERTIES"))
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))), S("MANIFEST"))
    print("valid:", len(rows))
except (ImportError, OSError) as e:
    print("not validated:", e)
