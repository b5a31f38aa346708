"""Forking while other threads query is safe."""
from .qcommon import describe, pick_theme, q, shrink  # noqa

SERIES = 'q'
PREIMPORT = True
QUICK = {'runs': 1200, 'budget': 40}
THOROUGH = {'runs': 50000, 'budget': 1500}
RULE = ('One evaluation is one simulated history of one process whose threads query and fork under'
        ' one seeded schedule; each child queries at once. Non-trivial: at least one fork fired and'
        ' one task switch; distinct: different event logs or switch sequences.')


def generate(rng, world):
    cids = pick_theme(rng, world, 6)
    using = rng.random() < 0.35
    if using:
        kind = rng.choice(['bound_builtin', 'bound_builtin', 'method', 'partial'])
        cids += 3 * [f'dyn:{kind}:{rng.randrange(24)}']
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        tasks.append([q(rng.choice(cids)) for _ in range(rng.choice([1, 1, 2]))])
    if using:
        # the others go on with what they have got
        for ops in tasks:
            for _ in range(rng.choice([1, 2, 3])):
                ops.insert(rng.randint(1, len(ops)), ['use', rng.choice([1, 2, 4])])
    for _ in range(rng.choice([1, 1, 1, 2])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            child = [q(rng.choice(cids)) for _ in range(rng.choice([1, 2, 3]))]
            if rng.random() < 0.1:
                child.insert(rng.randrange(len(child) + 1), ['fork', [q(rng.choice(cids))]])
            if using and rng.random() < 0.5:
                child.append(['use', 2])
            ops.append(['fork', child])
            if rng.random() < 0.3:
                ops.insert(rng.randrange(len(ops) + 1), q(rng.choice(cids)))
        tasks.append(ops)
    rng.shuffle(tasks)
    used = sorted(set(cids))
    pre = [q(rng.choice(cids))] if rng.random() < (0.5 if using else 0.15) else []
    return {'pre': pre, 'tasks': tasks, 'post': [q(c) for c in used],
            'preload': used, 'trace': rng.choice(['line', 'line', 'line', 'opcode']),
            'p': rng.choice([0.002, 0.005, 0.02])}
