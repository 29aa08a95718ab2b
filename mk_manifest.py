"""Write MANIFEST.json from contracts/ and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(here, "contracts", i.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "no contract for it yet")))
        continue
    cmd = f"/opt/venv/bin/python check.py {i}"
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " --thorough", technique="contract-based deductive verification: "
        "pre/postconditions and scan invariants on the functions in /repo, obligations generated from the jaxpr of the "
        "current source, discharged by an exact normal-form prover, failed obligations replayed on the real code",
        level="proof",
        level_note="Every obligation is discharged for symbolic sizes, inputs and user functions on each run (bounded "
        "stand-ins are labelled bounded in the evidence). Trusts: JAX tracing, the jxv primitive contracts and prover, exact "
        "real arithmetic in place of floating point, the jax.random contract, purity of user functions."))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.dont_write_bytecode=True; import jax, jxv.harness\"",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
