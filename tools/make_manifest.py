"""Writes MANIFEST.json: one entry per check that exists, not_applicable for the rest."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from simuff import checks

TECH = {
    'C01': 'deterministic simulation: seeded histories of calls, restarts and benign faults against a list model',
    'C02': 'deterministic simulation: seeded write/read of every data-set type on a simulated disk with partial transfers',
    'C03': 'deterministic simulation with fault injection: append-only invariant checked after every simulated system call',
    'C04': 'deterministic simulation with fault injection: rejected and failing writes, retry, against a model',
    'C05': 'deterministic simulation with fault injection: kill and power loss at any system call or line, restart, recovery check',
    'C06': 'deterministic simulation: seeded interleavings of a writer and readers at system-call granularity',
    'C07': 'deterministic simulation: seeded external changes, clock granularity and I/O faults against a model of the view',
    'C08': 'deterministic simulation with fault injection: read faults at any system call or line',
    'C09': 'deterministic simulation with fault injection: every change of the simulated disk is recorded and attributed',
    'C10': 'deterministic simulation with fault injection: open-handle invariant after every operation',
    'C11': 'deterministic simulation with fault injection: fix_58b under faults, crash and repetition against a byte-level model',
    'C12': 'deterministic simulation: simulated clock with stalls, jumps and time zones',
    'C13': 'deterministic simulation: seeded generations of re-saving with restarts and partial transfers',
    'C14': 'deterministic simulation: seeded orders of read calls compared with one another',
    'C15': 'deterministic simulation: seeded histories with sets of unsupported types against a model',
    'C16': 'deterministic simulation with fault injection: seeded bit rot and damaged sectors under a step budget',
    'C17': 'deterministic simulation: seeded thread interleavings at system-call, line and instruction granularity',
    'C19': 'deterministic simulation: seeded histories of a second program and pyuff on the same simulated disk, against recorded values',
    'C20': 'deterministic simulation: mesh of a second program, converted and written on a simulated disk with partial transfers, judged by that program',
    'C21': 'deterministic simulation: seeded write histories on a simulated disk, judged by an independent strict reader of the published layouts',
    'C22': 'deterministic simulation: seeded thread interleavings at system-call, line and instruction granularity, against each thread alone',
    'C23': 'deterministic simulation: seeded histories of writing, reading and changing shared data on a simulated disk, against a model',
    'C24': 'deterministic simulation: seeded interleavings of several writers of one file at system-call granularity, against a merge of their calls',
    'C25': 'deterministic simulation with fault injection: the same seeded history under different settings of the calling program, settings compared after every call',
}
NOTE = {
}
NA = {
    'C18': 'prepare_* are pure functions of their arguments: no clock, thread, I/O or second party for a simulator to control.',
}
COMMON = ('Seeded sampling of runs, not proof. Real: all of pyuff, numpy, Python buffered I/O. Simulated: disk, clock, '
          'process death, thread choice. Reference for a set: the set written alone without faults (its field values are '
          'judged by C02).')


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    have = checks.all_checks()
    m = {'version': 1, 'setup_cmd': './check --setup', 'checks': [], 'not_applicable': [],
         'notes': 'Known findings and fixes: known_findings.txt. Replay a violation: ./check --replay FILE.'}
    for i in ids:
        if i in have:
            m['checks'].append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                                'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                                'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE.get(i, have[i].rule.split('.')[0] + '. ' + COMMON)})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'The check is not built yet.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import subprocess
    print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')


main()
