#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have harnesses."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/harness/h/*.go'):
    have |= set(re.findall(r'^func (C\d\d)_', open(f).read(), re.M))
notes = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'solver-based symbolic execution of the Go SSA of the real code (z3/cvc5), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': notes.get(i, 'Every path within the stated bounds; each assertion decided by the solver for all values of the symbolic inputs.'),
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {
    'version': 1,
    'setup_cmd': 'mkdir -p bin && cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gosym .',
    'checks': checks,
    'not_applicable': na,
    'notes': 'One engine (engine/) for all checks: it loads /repo with go/packages and go/ssa on every run, executes the harnesses in harness/h symbolically and replays every counterexample against the compiled code. See DESIGN.md.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
