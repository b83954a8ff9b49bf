#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DESIGN = {'C01', 'C03', 'C04', 'C05', 'C06', 'C13', 'C15', 'C16', 'C17'}
NOTE = ('Exhaustive for the specification at the constants given in the evidence file; for the library, every recorded call is judged by TLC '
        'against the specification (nothing is judged by sampling a result), over inputs drawn from behaviours of the specification and generators aimed at its branches. '
        'Trusted: TLC, the observation shim, gcc. Builds: amd64 (assembly and plain C) and, on a sample of the inputs, 32-bit x86 with its assembly.')
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    t = 'TLA+ specification: recorded calls of the real library checked against it with TLC (trace validation)'
    if i in DESIGN:
        t = 'TLA+ session specification model-checked with TLC; its behaviours replayed into the library; recorded calls checked against the specification with TLC'
    elif i == 'C07':
        t = 'TLA+ entropy-coder state machine model-checked with TLC (unique, lossless); output of the real coders checked against it with TLC'
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough', technique=t, level='model_checking', level_note=NOTE))
json.dump(dict(version=1, setup_cmd='python3 harness/build.py', checks=checks, not_applicable=[],
               notes='No hooks in /repo: the observation shim uses the public interface and linker wraps. Fix commits are listed in known-findings.txt.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
