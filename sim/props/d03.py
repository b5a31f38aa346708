"""Warm starts equal cold starts."""
from . import dcommon
from .dcommon import describe, shrink, some, start, step_run  # noqa

SERIES = 'd'
QUICK = {'runs': 500, 'budget': 65}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'not-warm', 'start-died', 'hang', 'stall',
         'no-progress', 'died', 'child-wrong-answer', 'child-failed'}


def generate(rng, world):
    if dcommon.is_real(world, 4):
        return dcommon.real_workload(rng, [{'do': 'disk', 'is': 'empty'}, dcommon.real_start(rng),
                                           dcommon.real_start(rng, wait=3, warm=True)])
    modules = rng.choice([1, 2, 2, 3, 4])
    w = {'lib': rng.randrange(3000), 'modules': modules, 'steps': []}
    if rng.random() < 0.3:
        w['steps'] += [{'do': 'disk', 'is': 'empty'},
                       step_run([['a', start(exec=rng.choice([1, 2, 7]))]],
                                config={'dirs': rng.choice([None, 1, 2]), 'chunk': 65536})]
    else:
        w['steps'].append({'do': 'disk', 'is': 'warm'})
    for _ in range(rng.choice([1, 1, 2])):
        step = step_run([['a', start()]], warm=True, wait=rng.choice([0, 0.5, 3, 100000, 4e6, 3e8]),
                        config={'dirs': rng.choice([None, 1, 2, 3])}, children='golden')
        r = rng.random()
        if r < 0.25:
            step['procs'] = [['a', start(exec=rng.choice([0, 3, 9]))]]
        elif r < 0.4:
            step['procs'] = [['a', {'ops': [['threads', [[['start']], [['start']]]]],
                                    'cids': []}]]
            step['p'] = 0.1
        elif r < 0.55:
            step['procs'].append(['b', start(no_main=True)])
            step['p'] = 0.1
        w['steps'].append(step)
    return dcommon.languages(rng, w)


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
