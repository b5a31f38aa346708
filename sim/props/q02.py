"""An interrupted query leaves no trace on later answers."""
from .qcommon import describe, pick_theme, q, shrink  # noqa

SERIES = 'q'
PREIMPORT = True
QUICK = {'runs': 2400, 'budget': 40}
THOROUGH = {'runs': 90000, 'budget': 1500}


def fault(rng, world, cid):
    g = world.golden(cid)
    if g['exts'] and rng.random() < 0.25:
        return {'k': rng.randint(1, g['exts']), 'at': 'ext',
                'exc': rng.choice(['BadDisk', 'NoMemory', 'Interrupt'])}
    calls = max(g['calls'], 1)
    k = (rng.randint(1, calls) if rng.random() < 0.7
         else max(1, calls - int(rng.expovariate(0.1))))
    return {'k': k, 'at': 'call',
            'exc': rng.choice(['Interrupt', 'NoMemory', 'TooDeep'])}


def generate(rng, world):
    concurrent = rng.random() < 0.3
    cids = pick_theme(rng, world, 5)
    n = rng.choice([2, 2, 3]) if concurrent else 1
    tasks = []
    for _ in range(n):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3]) if not concurrent else rng.choice([1, 2])):
            cid = rng.choice(cids)
            interrupted = rng.random() < (0.8 if not concurrent else 0.5)
            ops.append(q(cid, True, fault(rng, world, cid) if interrupted else None))
        tasks.append(ops)
    used = sorted({op[1] for ops in tasks for op in ops} | set(cids))
    rng.shuffle(used)
    pre = [q(rng.choice(cids))] if rng.random() < 0.2 else []
    return {'pre': pre, 'tasks': tasks, 'post': [q(c) for c in used],
            'keep': rng.random() < 0.4,
            'preload': sorted({*used, *(op[1] for op in pre)}),
            'trace': 'line' if concurrent else 'call',
            'p': rng.choice([0.003, 0.01]) if concurrent else 0.0}
