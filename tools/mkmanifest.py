#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, re, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(here + '/harness/**/*.go', recursive=True):
    for m in re.finditer(r'^//verif:.*?prop=(\S+)', open(f).read(), re.M):
        have.update(m.group(1).split(','))
NA = {}
checks, na = [], []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": "symbolic execution of the Go SSA of the library (own engine, encoding rebuilt from /repo on every run), path conditions and assertions decided by an SMT solver (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Exhaustive for all values within the bounds stated per harness in evidence/%s.json (sizes, counts, reads, steps); says nothing beyond them. Trusts the engine's SSA semantics and its models of digests and ciphers (uninterpreted functions), listed in DESIGN.md; every reported violation is reproduced on the real code first." % i,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no harness yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses are overlaid from /verif/harness as internal/zzverif (and, where an unexported name pinned by existing tests is needed, into package sevenzip) and only the overlay sees them."}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
