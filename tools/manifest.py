#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has harnesses, the rest not applicable."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    d = os.path.join(here, 'harness', i.lower())
    if os.path.isdir(d) and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'technique': 'symbolic execution of the real Go code (SSA of the current tree) with an SMT solver (z3; thorough: verification conditions cross-checked with cvc5); counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Bounded: holds for every value of the symbolic inputs within the bounds the evidence file states, on every path of the encoded code; the environment model, stubs and assumptions are listed there. Paths are sampled and re-run in the real build to validate the encoding. Trusted: the engine in /verif/engine, go/ssa, the solvers.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check builds the engine and encodes /repo as it is at that moment; nothing is cached between runs.'},
          open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
