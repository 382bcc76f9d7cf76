#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
CLAIMED = sys.argv[1:] or [p['id'] for p in props if p['id'].startswith('C')]
TECH = {
 'C': 'deterministic simulation with fault injection: seeded search over schedules and faults of the real code, checked against %s',
}
ORACLE = {
 'C01': 'a per-value exactly-once ledger',
 'C02': 'counts of running handlers and a capacity probe at rest',
 'C03': 'a stop/accept history check and a count of live goroutines',
 'C04': 'the worker lifetimes in simulated elapsed time under clock steps',
 'C05': 'a delivery ledger with real-time order',
 'C06': 'an occupancy bound over the recorded history, and progress',
 'C07': 'the pairing of wake-ups and sleeps in the recorded history, and progress',
 'C08': 'sleep lengths in simulated elapsed time under clock steps',
 'C09': 'linearizability against an ordinary map, with race detection',
 'C10': 'linearizability against a converter table, with deadlock and race detection',
 'C11': 'a construction count and completeness check, with race detection',
 'C12': 'mutual exclusion, visibility and progress checks',
 'C13': 'a registration and failure ledger',
 'C14': 'a call ledger over returning, panicking and exiting functions',
 'C15': 'a history check over injected signals',
 'C16': 'simulated elapsed time under clock steps',
 'C17': 'an ordered-map model under drawn tower heights',
 'C18': 'an ordered-map model under drawn tower heights',
 'C19': 'a sequence model under faults of the node pool',
 'C20': 'a sequence model under faults of the node pool',
 'C21': 'sequence models under faults of the node pool',
 'C22': 'an ownership ledger under faults of the pool',
 'C23': 'round-trip and rejection checks under storage and random-source faults',
 'C24': 'round-trip and rejection checks under storage and random-source faults',
 'C25': 'accept/reject checks under storage and random-source faults',
 'C26': 'accept/reject checks under storage and random-source faults',
 'C27': 'a model of the visited tree under file-system and command faults',
 'C29': 'conservation and frequency of orders under fair and extreme random sources',
 'C30': 'the definition evaluated by brute force over answers of simulated time servers with false clocks, loss, duplication and reordering',
 'C31': 'a step meter with a logarithmic or constant bound on the mean cost, under drawn tower heights and pooling faults',
 'C28': 'per-goroutine sequential models, with race detection',
}
NA = {p['id']: None for p in props if p['id'].startswith('N')}
REASON = ('pure sequential functions of their arguments: no concurrency, time, I/O, randomness or second party '
          'for a schedule or fault to act on, so simulation would only be input sampling')
NAR = {
 'N04': 'sorting and searching are pure functions of slice and comparator; no schedule, time, I/O or fault can affect them',
 'N05': 'truncation is arithmetic on a second count passed by the caller; it reads no clock',
}
checks = []
for p in props:
    i = p['id']
    if i not in CLAIMED:
        continue
    checks.append({
        'property': i,
        'quick_cmd': './run.sh %s quick' % i,
        'thorough_cmd': './run.sh %s thorough' % i,
        'technique': TECH['C'] % ORACLE[i],
        'level': 'exploration',
        'level_note': 'Seeded search, not proof: nothing was found in the runs the evidence counts. The library source runs '
                      'unchanged except that its goroutines, locks, channels, atomics, clocks, timers, randomness, signals and files go '
                      'through the simulator (rewritten into a private copy at build time); trusts the simulator to model those primitives. See DESIGN.md.',
    })
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        continue
    na.append({'property': i, 'reason': (NAR.get(i, REASON) if i[0] == 'N' else 'check under construction')})
m = {
 'version': 1,
 'setup_cmd': './run.sh setup',
 'checks': checks,
 'not_applicable': na,
 'notes': 'No hooks in /repo: run.sh copies the working tree and cmd/instrument rewrites the copy so that every source of '
          'nondeterminism goes through the simulator (sim/). The shipped code is untouched; only fix: commits are made there.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
