"""Caches of other versions."""
from . import dcommon
from .dcommon import (WRITES, describe, position, shrink, start, step_run)  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'not-warm', 'start-died', 'hang', 'stall',
         'no-progress', 'died'}
# versions that differ at the end, at the beginning, in length, by type and by prefix
VERSIONS = ['4.2.9', '4.3.1', '14.3.0', '4.3.0.1', '4.3', '5.0.0', '4.3.0rc1', '4.3.00', '']


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': []}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    version = rng.choice(VERSIONS)
    foreign = {'tag': 'q', 'version': version}
    if rng.random() < 0.2:
        # a switch (or several) during one tick of the clock of the file system
        if rng.random() < 0.7:
            foreign['version'] = rng.choice(['4.2.9', '4.3.1', '5.0.0'])
        w['steps'].append({'do': 'disk', 'is': rng.choice(['empty', 'foreign', 'warm']), **foreign})
        for _ in range(rng.choice([1, 1, 2])):
            for spec in (start(**foreign), start()):
                w['steps'].append(step_run([['a', spec]], wait=rng.choice([0, 0, 0, 0.3]),
                                           config={'chunk': 65536}))
        w['steps'].append(step_run([['a', start()]], wait=rng.choice([0, 0, 0.3, 3]), warm=True))
        return w
    begin = {'do': 'disk', 'is': 'foreign', **foreign}
    if rng.random() < 0.3:
        begin = {'do': 'disk', 'is': rng.choice(['empty', 'warm'])}
    elif rng.random() < 0.3:
        begin['without'] = rng.choice(['stubs.py', 'modules.py', '.pyc', 'stubs.cpython',
                                       'modules.cpython'])
    w['steps'].append(begin)
    for _ in range(rng.choice([1, 1, 2, 3])):
        step = step_run([], wait=rng.choice([0, 0, 0.3, 1.1, 3]),
                        config={'chunk': rng.choice([4096, 8192, 65536])})
        r = rng.random()
        if r < 0.6:
            procs = [['a', start()], ['o', start(**foreign)]]
            if rng.random() < 0.4:
                procs.append(['b', start()])
            if rng.random() < 0.3:
                procs[rng.randrange(2)][1]['ops'].insert(0, ['sleep', rng.choice([0.03, 0.1])])
            rng.shuffle(procs)
            step.update(procs=procs, p=rng.choice([0.02, 0.05, 0.1, 0.3, 0.6]))
            if rng.random() < 0.25:
                step.update(faults=[{'kind': WRITES, 'role': 'o', 'k': position(rng, g),
                                     'fault': {'kill': True}}], mayfail=['o'])
            elif rng.random() < 0.1:
                step.update(crash={'kind': WRITES, 'role': rng.choice(['a', 'o']),
                                   'k': position(rng, g), 'power': rng.random() < 0.6,
                                   'disk': rng.randrange(1 << 30)})
        else:
            step['procs'] = [rng.choice([['a', start()], ['o', start(**foreign)]])]
            if rng.random() < 0.3:
                step.update(faults=[{'kind': WRITES, 'role': step['procs'][0][0],
                                     'k': position(rng, g), 'fault': {'kill': True}}])
        w['steps'].append(step)
    w['steps'].append({'do': 'heal'})
    return dcommon.languages(rng, w)


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
