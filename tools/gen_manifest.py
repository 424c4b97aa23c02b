#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'N01': 'An identity over all 64-bit positions and alignments. A dataflow or type-level argument cannot establish a congruence over the integers; it needs a solver or a proof assistant (another family). C14 covers that the alignment directives apply the documented formula at the right moment, by comparing symbolic terms.',
    'N02': 'What the text means is decided inside std\'s UTF-8/UTF-16 decoders over runtime contents of unbounded length. Static analysis sees only which std function is called, which is the code restated and not the property.',
    'N03': 'Relates the text of a file written at run time (template syntax, offsets printed as digits) to the bytes read. The content is a runtime quantity; no static rule in reach relates formatted text to reader positions. That the feature leaves parsing unchanged is decided as C28.',
    'N04': 'Termination over arbitrary user readers and element types (an element of size zero in until_eof or until, a reader that never ends, a user condition that never holds) has no static bound; it holds only under assumptions on user code which no analysis of this repository can check.',
}
checks = []
for i in ids:
    if i in props.REG:
        p = props.REG[i]
        checks.append({'property': i, 'quick_cmd': f"python3 check.py {i}", 'thorough_cmd': f"python3 check.py {i} thorough", 'technique': p.technique, 'level': 'other', 'level_note': p.note})
na = [{'property': i, 'reason': NA.get(i, 'No check for it yet.')} for i in ids if i not in props.REG]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check rebuilds the engine and the analysed crates from /repo\'s working tree when needed (in /verif/.work).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
