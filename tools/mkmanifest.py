#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl: every property with a check is claimed, the others are listed with a reason."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS
NA = {
 'C20': 'A pure function of its operands: no schedule, clock, I/O, fault or party for it to depend on, so deterministic simulation has nothing to drive (C10 compares the implementations with each other and C02/C07/C08 check their results where a distributed or scheduled behaviour depends on them).',
 'C21': 'A purely algebraic statement about all points and scalars, with no schedule, time, I/O or multi-party behaviour; only sampled incidentally by C02, C07 and C09.',
 'C22': 'A purely algebraic statement about all curve points, with no schedule, time, I/O or multi-party behaviour; only sampled incidentally (points of small order injected by C07, C08, C09).',
 'C23': 'A pure function of message and tag; the simulations compare it with a reference model only on the messages that cross the simulated network.',
 'C24': 'Depends on real micro-architectural time, which a simulator replaces by construction; it cannot be decided in simulated time.',
}
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=p.get('technique', 'deterministic simulation with fault injection (seeded search, replayable)'), level=p['level'], level_note=p['note']))
    else: na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup',
  hooks=dict(guard='BLS12_381_SIM', enable='No hook in /repo was needed: the seams are the callback parameter, the allocator, process start (loader, environment, CPU feature bits) and compiler instrumentation; the guard is defined nowhere.', source_commits=[]),
  checks=checks, not_applicable=na, notes='See DESIGN.md. Replay a reported violation with: python3 check.py --replay <path>'), open(H + '/MANIFEST.json', 'w'), indent=1)
