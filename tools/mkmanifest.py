"""Regenerates MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C01': 'runtime monitoring: every step of random operation histories compared with an independent ordered-set model',
 'C02': 'runtime monitoring: every step of random operation histories compared with an independent set-of-pairs model',
 'C03': 'runtime monitoring: generated calls compared with reference functions; inputs fingerprinted before/after',
 'C04': 'runtime monitoring: partition/size/coverage monitors on generated splits, CPU-bounded progress monitor',
 'C05': 'runtime monitoring: save/load histories in scratch folders compared with the recorded split',
 'C12': 'runtime monitoring: query/knowledge histories against oracles compared with a reference table and ledger',
 'C15': 'runtime monitoring with fault injection: the saving process is killed at every file operation and the file read back',
 'C17': 'runtime monitoring: event logs of hostile thread schedules checked offline (exactly-once, bound, order)',
 'C18': 'runtime monitoring: instrumented models/strategies under perturbed thread schedules, logs checked offline',
 'C22': 'runtime monitoring: generated calls compared with definitions; inputs fingerprinted before/after',
}
NOTE = ('Holds on the executions listed in the evidence file only (seeded random workloads plus hostile corner cases); '
        'trusts the independent oracle in rv/checks/%s.py, numpy/scipy/sklearn and the PyPy interpreter.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'rv', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='bash check.sh %s --tier quick' % i,
                           thorough_cmd='bash check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH.get(i, 'runtime monitoring: generated executions of the real code compared with an independent oracle'),
                           level='fault_enumeration' if i == 'C15' else 'exploration', level_note=NOTE % i.lower()))
    else:
        na.append(dict(property=i, reason='No check has been built for it yet.'))
m = dict(version=1, setup_cmd='bash check.sh --self-test', checks=checks, not_applicable=na,
         notes='Runtime monitoring of the code in /repo; no hooks in /repo are needed (monitors wrap public entry points at run time). See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
