#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the witness folders and witness/rules.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = json.load(open(V + '/witness/rules.json'))
TECH = {
 'V': 'static value-flow analysis of the LLVM IR: global value numbering over a decision-diagram domain, compared with the documented definition; heap typestate and memory-region bounds on every path',
 'G': 'static guard (must-check-before-access) analysis of the LLVM IR with run-time sizes left unknown',
 'W': 'compile-pass / compile-fail witnesses decided by the C++ type checker',
 'E': 'effect analysis (writes, allocations, calls) over the LLVM IR of every instantiated function',
 'H': 'include-graph and symbol-table lint: every header and header combination is type-checked and the emitted definitions are queried',
 'L': 'loop-bound analysis of the LLVM IR: every cycle must consume the iteration budget',
}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; r = rules.get(i, {})
    d = V + '/witness/' + i
    if 'na' in r: na.append(dict(property=i, reason=r['na'])); continue
    if not os.path.isdir(d) or not os.listdir(d) : na.append(dict(property=i, reason='no check has been built for this property')); continue
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
        technique='; '.join(TECH[e] for e in r.get('engines', 'V')), level='other', level_note=r.get('rule', '')))
json.dump(dict(version=1, setup_cmd='python3 tools/check.py --build', checks=checks, not_applicable=na,
  notes='All checks inspect the current source of /repo on every run; nothing from /repo is executed.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
