"""Concurrent first starts."""
from . import dcommon
from .dcommon import (WRITES, describe, initial, position, shrink, some, start,  # noqa
                      step_run)

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'not-warm', 'start-died', 'hang', 'stall',
         'no-progress', 'died'}


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': [initial(rng, ('empty', 'empty', 'foreign',
                                                              'warm'))]}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    for _ in range(rng.choice([1, 1, 1, 2])):
        r = rng.random()
        config = {'chunk': rng.choice([4096, 8192, 65536]),
                  'pipe': rng.choice([None, None, 4096, 8192])}
        step = step_run([], p=rng.choice([0.02, 0.05, 0.1, 0.3, 0.6]), config=config,
                        wait=rng.choice([0, 0, 0.5, 3]))
        threads = {'ops': [['threads', [[['start']] for _ in range(rng.choice([2, 2, 3]))]]],
                   'cids': some(rng, g)}
        if r < 0.55:
            step['procs'] = [[role, start()] for role in 'abc'[:rng.choice([2, 2, 3])]]
            if rng.random() < 0.3:
                # not quite at the same moment
                step['procs'][-1][1]['ops'].insert(0, ['sleep', rng.choice([0.05, 0.08, 0.11,
                                                                            0.2])])
        elif r < 0.85:
            step['procs'] = [['a', threads]]
            step['lines'] = rng.choice([None, 30, 200, 1000])
        else:
            step['procs'] = [['a', threads], ['b', start()]]
            step['lines'] = rng.choice([None, 500])
        if rng.random() < 0.2:
            # helpers import the library anew
            for _, spec in step['procs']:
                if rng.random() < 0.7:
                    spec['ops'].insert(0, ['method', 'spawn'])
        if rng.random() < 0.2:
            # one of them is killed, the others do not suffer
            role = rng.choice(['a', 'a', 'b', 'a/h1'])
            if role != 'a/h1' and rng.random() < 0.6:
                fault = {'kind': WRITES, 'k': position(rng, g)}
            else:
                fault = {'kind': 'any', 'k': rng.randint(1, g.totals.get(role.replace('b', 'a'), 9))}
            step['faults'] = [{**fault, 'role': role, 'fault': {'kill': True}}]
            step['mayfail'] = [role[0]]
        w['steps'].append(step)
    w['steps'].append({'do': 'heal'})
    return w


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
