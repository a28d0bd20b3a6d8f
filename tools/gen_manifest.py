#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a module in sim/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection: '
HOW = {
    'C01': 'seeded preemptive scheduling of threads between bytecode instructions of the real library, outcomes against a private loader',
    'C02': 'seeded preemptive scheduling of threads between bytecode instructions of the real library, outcomes against a private dumper',
    'C03': 'seeded histories of good and damaged loads on a long-lived loader, outcomes against a brand new one in a pristine process',
    'C04': 'seeded histories of good and failing dumps on a long-lived dumper, outcomes against a brand new one in a pristine process',
    'C05': 'asynchronous exceptions injected at drawn bytecode instructions, alone or among threads, then outcomes against a brand new object',
    'C06': 'stack limits and allocation failures injected at drawn instructions and depths, outcomes against the one without shortage',
    'C07': 'simulated streams and mappings that deliver, count and fail as drawn, outcomes known by construction',
    'C08': 'failures injected in drawn calls of user callbacks, then recovery, outcomes known by construction',
    'C09': 'seeded corruption of stored documents (structure and text), results checked by an independent conformance checker',
    'C10': 'one fault injected at a drawn place of a document, the error checked against the place known by construction',
    'C11': 'seeded histories of loads, dumps and edits of buffers and results, snapshots and identity checks',
    'C12': 'seeded interleavings (turns and threads) of several configurations in one process, outcomes against a process with only one',
    'C13': 'simulated durable store with crashes inside and between the calls, restart in a pristine process, equality with what was saved',
    'C14': 'the same seeded runs in simulated processes with different hash seeds and memory layouts, outcomes compared',
    'C15': 'seeded histories, member orders and thread schedules over tagged unions, member known by construction',
    'C16': 'seeded message histories between nodes having different schema versions, outcome known by construction',
    'C17': 'seeded failures and recoveries of handler conditions, outcomes against a small model of the selection',
    'C18': 're-entrant calls injected at drawn callbacks and stream reads, inner and outer outcomes against standalone ones',
    'C19': 'seeded histories, interrupts and thread schedules over recursive types, outcomes known by construction',
    'C20': 'simulated clock of interpreter instructions, damage injected at drawn depth, step bound linear in size times depth',
    'C25': 'seeded histories of operations on ever different marked data with injected interrupts, failing allocations and thread schedules; reachable state searched for marks, containers and growth after each round',
    'C26': 'seeded histories with interrupts, failing allocations, thread schedules and settings of the process that are drawn and changed by the user meanwhile; everything the process shares compared with a model, outcomes against the ones under default settings',
}
NA = {
    'C21': 'a pure function of one value and one setting: no schedule, fault, clock or history for a simulator to decide; plain input generation is another technique',
    'C22': 'a pure function of one value and one type; histories and schedules over loaders with this setting are covered by C01, C03 and C12',
    'C23': 'pure predicates on annotations: nothing nondeterministic takes part in them',
    'C24': 'a pure function of the keywords given to constructors; isolation between configurations is C12',
}
checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
    elif os.path.exists(os.path.join(HERE, 'sim', 'props', p.lower() + '.py')):
        checks.append({
            'property': p,
            'quick_cmd': '%s /verif/check.py %s --tier quick' % (PY, p),
            'thorough_cmd': '%s /verif/check.py %s --tier thorough' % (PY, p),
            'technique': TECH + HOW[p],
            'level': 'exploration',
            'level_note': 'Seeded search: a quiet batch is evidence, not proof. Runs the unmodified modules of the working tree; assumptions and '
                          'stubs are listed in the evidence file and DESIGN.md.'})
    else:
        na.append({'property': p, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': '%s /verif/tools/selftest.py' % PY, 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: arguments, handlers, callbacks and sys.settrace are the seams.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
