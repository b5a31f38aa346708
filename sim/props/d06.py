"""Independence of hash seeds, directory order and start method."""
from . import dcommon
from .dcommon import describe, shrink, start, step_run  # noqa

SERIES = 'd'
QUICK = {'runs': 400, 'budget': 65}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'hang', 'stall', 'no-progress', 'died'}


def generate(rng, world):
    if dcommon.is_real(world, 8):
        return dcommon.real_workload(rng, [{'do': 'disk', 'is': 'empty'}, dcommon.real_start(rng),
                                           {'do': 'disk', 'is': 'empty'}, dcommon.real_start(rng)])
    w = {'lib': rng.randrange(2000), 'modules': rng.choice([2, 3, 4, 5]), 'steps': []}
    for _ in range(rng.choice([1, 1, 2])):
        w['steps'].append({'do': 'disk', 'is': 'empty'})
        spec = start(exec=rng.randrange(1, 1000))
        r = rng.random()
        if r < 0.15:
            spec['ops'].insert(0, ['method', 'spawn'])
        elif r < 0.2:
            spec['ops'].insert(0, ['method', 'forkserver'])
        elif r < 0.35:
            del spec['exec']
        w['steps'].append(step_run([['a', spec]],
                                   config={'dirs': rng.choice([None, 1, 2, 3, 4, 5, 6, 7]),
                                           'chunk': 65536}))
    return dcommon.languages(rng, w)


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
