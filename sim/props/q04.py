"""A query leaves the host process as it found it."""
from .qcommon import describe, dyn, pick_theme, q, shrink  # noqa
from . import q02

SERIES = 'q'
PREIMPORT = False
HOST = True
QUICK = {'runs': 1600, 'budget': 45}
THOROUGH = {'runs': 60000, 'budget': 1500}
RULE = ('One evaluation is one simulated history of one process (queries by one or more threads,'
        ' injected exceptions) with the visible state of the process recorded before and after.'
        ' Non-trivial: at least one fired fault, task switch or two operations; distinct:'
        ' different event logs or switch sequences.')


def generate(rng, world):
    cids = pick_theme(rng, world, 5)
    if rng.random() < 0.5:
        cids += [dyn(rng, world) for _ in range(rng.randint(1, 3))]
    mode = rng.choice(['plain', 'fault', 'fault', 'threads', 'both'])
    n = rng.choice([2, 2, 3]) if mode in ('threads', 'both') else 1
    acts = rng.sample(sorted(set(world.hoststate.ACTS)), 3) + ['warning filters']
    tasks = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(1, 4) if n == 1 else rng.choice([1, 1, 2])):
            cid = rng.choice(cids)
            if rng.random() < 0.3:
                # something else in the program changes the process in the meantime
                f = q02.fault(rng, world, cid)
                ops.append(q(cid, False, {'k': f['k'], 'at': f['at'], 'host': rng.choice(acts)}))
                continue
            if rng.random() < (0.2 if n > 1 else 0.1):
                ops.append(['host', rng.choice(acts)])
            faulty = mode in ('fault', 'both') and rng.random() < 0.7
            ops.append(q(cid, rng.random() < 0.5, q02.fault(rng, world, cid) if faulty else None))
        tasks.append(ops)
    used = sorted({op[1] for ops in tasks for op in ops if op[0] == 'q'})
    return {'pre': [], 'tasks': tasks, 'post': [q(c) for c in used if rng.random() < 0.5],
            'preload': used, 'trace': 'line' if n > 1 else 'call',
            'p': rng.choice([0.003, 0.01]) if n > 1 else 0.0}
