"""Concurrent queries give the single-threaded answers."""
from .qcommon import describe, pick_theme, q, shrink  # noqa

SERIES = 'q'
PREIMPORT = True
QUICK = {'runs': 1600, 'budget': 40}
THOROUGH = {'runs': 60000, 'budget': 1500}


def generate(rng, world):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    cids = pick_theme(rng, world, 8)
    tasks = [[q(rng.choice(cids)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
             for _ in range(n)]
    used = sorted({op[1] for ops in tasks for op in ops})
    pre = [q(rng.choice(cids))] if rng.random() < 0.15 else []
    return {'pre': pre, 'tasks': tasks, 'post': [q(c) for c in used],
            'preload': sorted({*used, *(op[1] for op in pre)}),
            'trace': rng.choice(['line', 'line', 'line', 'opcode']),
            'p': rng.choice([0.001, 0.003, 0.01, 0.03])}
