"""Answers do not depend on the process history."""
import json
import os

from .qcommon import describe, dyn, pick_theme, q, shrink  # noqa

SERIES = 'q'
PREIMPORT = False
QUICK = {'runs': 4000, 'budget': 48}
THOROUGH = {'runs': 90000, 'budget': 1500}
RULE = ('One evaluation is one simulated history of one process: queries, imports, collections,'
        ' kept and dropped results, created and destroyed callables. Non-trivial: at least two'
        ' operations; distinct: different event logs (hash over all operations and the package'
        ' functions entered).')
with open(os.path.join(os.path.dirname(__file__), '..', 'reexports.json')) as _file:
    REEXPORTS = json.load(_file)
with open(os.path.join(os.path.dirname(__file__), '..', 'texts.json')) as _file:
    ALIKE = json.load(_file)
ALL = sorted({m for ms in REEXPORTS.values() for m in ms})

RELATED = ['twin_fn', 'twin_cls', 'twin_partial', 'equal_instance', 'meta_equal', 'fn']


def generate(rng, world):
    cids = pick_theme(rng, world, 6)
    if rng.random() < 0.5:
        # callables of one module, whatever they evaluate
        row = rng.choice(world.POOL)
        same = [r for r in world.POOL if r[0] == row[0] and r[2] < 12000]
        cids += [f'{r[0]}:{r[1]}' for r in (rng.choice(same or [row]) for _ in range(3))]
    if rng.random() < 0.2:
        # callables whose stubs are worded like others, or like methods of the types involved
        tag = rng.choice([tag for tag in sorted(ALIKE['types']) if tag in world.BY_TAG])
        rows = [r for r in world.BY_TAG[tag] if r[2] < 12000]
        if rows and rng.random() < 0.7:
            cids = [f'{r[0]}:{r[1]}' for r in (rng.choice(rows), rng.choice(rows))]
            cids += [rng.choice(ALIKE['types'][tag]) for _ in range(3)]
        else:
            group = rng.choice(ALIKE['groups'])
            cids = cids[:2] + [rng.choice(group) for _ in range(3)]
    cids = [c for c in cids if not c.startswith('dyn:')] or ['os:stat']
    related = [m for c in cids for m in REEXPORTS.get(c.split(':')[0], ())]
    imports = rng.random() < 0.7
    dynamics = rng.random() < 0.5
    collect = rng.random() < 0.7
    kinds = None
    if dynamics and rng.random() < 0.3:
        kinds = rng.sample(RELATED, 2)  # callables that have much in common

    def make():
        return (f'dyn:{rng.choice(kinds)}:{rng.randrange(24)}' if kinds
                else dyn(rng, world))

    ops = []
    if imports and rng.random() < 0.3:
        ops += [['import', m] for m in rng.sample(ALL, min(len(ALL), rng.randint(1, 6)))]
    for _ in range(rng.randint(3, 16)):
        r = rng.random()
        if r < 0.45:
            ops.append(q(rng.choice(cids), rng.random() < 0.5))
        elif r < 0.65 and imports:
            ops.append(['import', rng.choice(related) if related and rng.random() < 0.8
                        else rng.choice(ALL)])
        elif r < 0.75 and collect:
            ops += [['drop']] * (rng.random() < 0.6) + [['gc']]
        elif dynamics:
            slot = rng.randrange(3)
            r = rng.random()
            if r < 0.45:
                ops.append(['mk', slot, make()])
                ops.append(['qs', slot, rng.random() < 0.3])
            elif r < 0.7:
                ops.append(['qs', slot, rng.random() < 0.3])
            else:
                ops += [['del', slot]] + [['gc']] * (rng.random() < 0.5)
                ops.append(['mk', slot, make()])
                ops.append(['qs', slot, False])
    used = sorted({op[1] for op in ops if op[0] == 'q'})
    return {'pre': [], 'tasks': [ops], 'post': [q(c) for c in used] + [['qs', n, True] for n in range(3)],
            'preload': [], 'trace': 'call', 'p': 0.0}
