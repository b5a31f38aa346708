"""Crashes and power loss while the cache is written."""
from . import dcommon
from .dcommon import (WRITES, describe, initial, position, shrink, start, step_run)  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'not-warm', 'start-died', 'hang', 'stall',
         'no-progress', 'died'}


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': [initial(rng)]}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        step = step_run([['a', start()]], wait=rng.choice([0, 0, 0.2, 1.1, 4]))
        step['config'] = {'chunk': rng.choice([4096, 8192, 8192, 65536])}
        if rng.random() < 0.25:
            step['procs'].append(['b', start()])
            step['p'] = rng.choice([0.05, 0.2, 0.5, 'r0.02', 'r0.2'])
        r = rng.random()
        if r < 0.3:
            # one process dies
            role = rng.choice(['a', 'a', 'a', 'a/h1', 'a/h2'])
            if rng.random() < 0.7 and role == 'a':
                step['faults'] = [{'kind': WRITES, 'role': role, 'k': position(rng, g),
                                   'fault': {'kill': True}}]
            else:
                step['faults'] = [{'kind': 'any', 'role': role, 'fault': {'kill': True},
                                   'k': rng.randint(1, max(1, g.totals.get(role, 10)))}]
            step['mayfail'] = True
        elif r < 0.5:
            step['crash'] = {'kind': WRITES, 'k': position(rng, g), 'role': 'a'}
        elif r < 0.85:
            step['crash'] = {'kind': WRITES, 'k': position(rng, g), 'role': 'a', 'power': True,
                             'disk': rng.randrange(1 << 30)}
            step['wait'] += 3
        else:
            step['crash'] = {'after': True, 'power': True, 'disk': rng.randrange(1 << 30)}
            step['wait'] += 3
        w['steps'].append(step)
        if rng.random() < 0.25:
            w['steps'].append(step_run([['a', start()]], wait=rng.choice([0, 0.3, 2])))
    w['steps'].append({'do': 'heal'})
    return dcommon.languages(rng, w)


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
