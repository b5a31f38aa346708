#!/usr/bin/env python3
"""Regenerates MANIFEST.json: claims every property that has a module under sim/props."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECHNIQUE = {
    'q': 'deterministic simulation: seeded cooperative scheduling of real threads with injected'
         ' exceptions and forks, answers compared with a pristine process',
    'd': 'deterministic simulation: seeded scheduling of simulated host processes, files, pipes'
         ' and clocks with injected crashes, power loss and I/O faults, answers compared with'
         ' generated ground truth',
    'v': 'deterministic simulation: seeded cooperative scheduling of operations on shared values'
         ' with injected exceptions and re-entrance, results compared with the operations alone',
}
NOTE = {
    'q': 'Seeded search, not exhaustive: no violation in the explored runs. Trusts that thread'
         ' switches inside C code of the interpreter do not matter and that golden answers of the'
         ' same tree, asked alone in a pristine process, are the reference.',
    'd': 'Seeded search, not exhaustive: no violation in the explored runs. Trusts the model of'
         ' page-granular durability and that the generated stub library is representative of'
         ' typeshed.',
    'v': 'Seeded search, not exhaustive: no violation in the explored runs. The reference is the'
         ' same operation on equal fresh values in a process that does nothing else.',
}
FAMILY = {'V01': 'v'}
NOT_APPLICABLE = {
    'N01': 'pure function of one value and one argument list: no schedule, time, I/O, fault or'
           ' history for a simulator to vary (interleavings of these operations are V01)',
    'N02': 'pure function of values: nothing nondeterministic to simulate (shared use is V01,'
           ' identity across histories is Q03)',
    'N03': 'a statement about the content of typeshed versus CPython for each callable: no'
           ' schedule, fault or history is involved, so simulation adds nothing over testing',
    'N04': 'input validation of one constructor call: no nondeterminism to simulate',
}


def main():
    ids = []
    with open(os.path.join(HERE, 'properties.jsonl')) as file:
        for line in file:
            if line.strip():
                ids.append(json.loads(line)['id'])
    checks, absent = [], []
    for id_ in ids:
        family = FAMILY.get(id_, id_[0].lower())
        if os.path.exists(os.path.join(HERE, 'sim', 'props', id_.lower() + '.py')):
            checks.append({'property': id_,
                           'quick_cmd': f'/opt/venv/bin/python check.py {id_} --tier quick',
                           'thorough_cmd': f'/opt/venv/bin/python check.py {id_} --tier thorough',
                           'technique': TECHNIQUE[family], 'level': 'exploration',
                           'level_note': NOTE[family]})
        else:
            absent.append({'property': id_,
                           'reason': NOT_APPLICABLE.get(id_, 'the check is still being built')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': absent,
                   'notes': 'No hooks in /repo: every seam is at the level of the standard library'
                            ' and the operating system. /repo carries "fix:" commits only.'},
                  file, indent=1)
        file.write('\n')


main()
