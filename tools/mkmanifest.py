#!/usr/bin/env python3
# writes MANIFEST.json
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
NA = {
    'N01': 'Pure functions of their arguments (string views, alignment arithmetic): no schedule, clock, fault or history for a simulator to decide. Defects in them which reach the library are seen by the other checks, and the string view comparison was repaired.',
    'N02': 'Decided when a program is compiled (templates, deduced names): nothing executes under a schedule or a fault.',
}
note = ('Seeded sampling of plans, schedules and faults over the real library; a clean batch is evidence, not proof. '
        'Trusts: the deterministic runtime and the reference models in /verif/sim, stand-ins for the itlib and splat headers in /verif/shim, sequentially consistent interleavings plus a happens-before race check.')
conc = {'C04', 'C05', 'C06', 'C07', 'C09', 'C13', 'C15', 'C17', 'C18'}
checks = []
for p in props:
    if p['id'] in NA: continue
    t = 'deterministic simulation: seeded search over plans with injected allocation and callback faults' + (
        ' and simulated thread schedules, linearizability against a model of the domain' if p['id'] in conc else ', some with simulated thread schedules, checked against reference models after every step')
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': t, 'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': './sim/build.sh /repo ./build',
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
