#!/usr/bin/env python3
# Writes MANIFEST.json from the list below.
import json, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static analysis: abstract interpretation of the type-checked SSA to a fixpoint"
TRUST = ("Exhaustive over the stated input space at the level of the abstract domain; no code is run. Trusts the analyser (its "
         "transfer functions and models of a few standard-library calls), go/types and x/tools/go/ssa, and the reference data in analyzer/data. ")
checks = []
def c(pid, technique, note, thorough=True):
    d = {"property": pid, "quick_cmd": "./bin/uaxcheck -prop " + pid}
    if thorough:
        d["thorough_cmd"] = "env VERIF_TIER=thorough ./bin/uaxcheck -prop " + pid
    d["technique"] = technique
    d["level"] = "other"
    d["level_note"] = note
    checks.append(d)

exec(open(os.path.join(here, "tools", "claims.py")).read())

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = [x["property"] for x in checks] + [x["property"] for x in not_applicable]
assert sorted(have) == sorted(ids), (set(ids) ^ set(have))
m = {"version": 1,
     "setup_cmd": "cd analyzer && env -u GOROOT GOFLAGS='-mod=mod -buildvcs=false' GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/uaxcheck .",
     "checks": checks, "not_applicable": not_applicable,
     "notes": "All checks are one static analyser (analyzer/, Go). It reads /repo's current source on every run; nothing of /repo is executed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
