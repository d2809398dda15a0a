#!/usr/bin/env python3
"""Write MANIFEST.json from the plan."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from bin.plan import PLAN  # noqa

NOTE = {
    'C03': 'A timed-out symbolic attempt is provoked by a solver stub that sleeps; real SymPy timeouts are the same code path.',
    'C15': 'Frequencies are tested statistically (six standard deviations, seeded), every draw is checked exactly.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'bash bin/setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks: every observation uses the public interface', 'source_commits': []},
    'checks': [],
    'not_applicable': [],
}
for p in props:
    if p not in PLAN:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
        continue
    m['checks'].append({
        'property': p,
        'quick_cmd': 'bin/check %s' % p,
        'thorough_cmd': 'bin/check %s --thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'TLA+ specification; TLC validates traces recorded from the real library, step by step',
        'level': 'model_checking',
        'level_note': (NOTE.get(p, '') + ' Every recorded call is replayed as an action of the TLA+ specification and its result '
                       'compared exactly; the traces are a random sample of the inputs. Trusts TLC, the driver that records '
                       'arguments and results, and the rounding of float answers to fractions.').strip(),
    })
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
