"""Queries leave nothing behind in memory."""
from .qcommon import describe, dyn, pick_theme, q, shrink  # noqa
from . import q02

SERIES = 'q'
PREIMPORT = True
QUICK = {'runs': 1000, 'budget': 45}
THOROUGH = {'runs': 40000, 'budget': 1500}
RULE = ('One evaluation is one simulated history of one process whose threads make callables, query'
        ' them (some queries are interrupted) and drop them; afterwards the same queries are'
        ' repeated and everything is dropped. Non-trivial: at least two operations; distinct:'
        ' different event logs or switch sequences.')


def early(rng, fault):
    """Queries pass fewer points once they have been made before."""
    if fault is not None:
        fault['k'] = int(2 ** rng.uniform(0, 7)) if fault['at'] == 'call' else rng.choice([1, 1, 2, 3])
    return fault


def generate(rng, world):
    cids = pick_theme(rng, world, 3) + [dyn(rng, world) for _ in range(rng.randint(1, 4))]
    n = rng.choice([1, 1, 1, 2, 3])

    def maybe(cid):
        return q02.fault(rng, world, cid) if rng.random() < 0.4 else None

    tasks = []
    for task in range(n):
        ops = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.5:
                slot = rng.randrange(2) + 2 * task
                ops += [['mk', slot, dyn(rng, world)], ['qs', slot, rng.random() < 0.5]]
                if rng.random() < 0.3:
                    ops.append(['del', slot])
            else:
                cid = rng.choice(cids)
                ops.append(q(cid, rng.random() < 0.5, maybe(cid)))
        tasks.append(ops)
    used = sorted(set(cids))
    rng.shuffle(used)
    rounds = [q(c, True, early(rng, maybe(c))) for c in used[:4]]
    return {'pre': [], 'tasks': tasks, 'post': [q(c) for c in used if rng.random() < 0.3],
            'rounds': rounds, 'preload': used, 'trace': 'line' if n > 1 else 'call',
            'p': rng.choice([0.003, 0.01]) if n > 1 else 0.0}
