"""The process that imports the library."""
import errno

from . import d08, dcommon
from .dcommon import WRITES, describe, initial, shrink, step_run  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'host-changed', 'main-module', 'hang', 'stall', 'no-progress', 'left-behind'}


def generate(rng, world):
    w = {'lib': dcommon.library(rng),
         'steps': [initial(rng, ('empty', 'empty', 'empty', 'foreign', 'warm'))]}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    spec = {'cids': []}
    step = step_run([['a', spec]], mayfail=True, config={'pipe': rng.choice([None, 4096])})
    ops = []
    if rng.random() < 0.15:
        ops.append(['method', rng.choice(['fork', 'spawn'])])
    ops.append(['before'])
    if rng.random() < 0.25:
        # what the program is like is up to the program
        ops += [['host', what] for what in rng.sample(ACTS + ['start method'], 2)]
    if rng.random() < 0.2:
        ops.append(['threads', [[['start']] for _ in range(rng.choice([2, 3]))]])
        step['p'] = rng.choice([0.03, 0.1, 0.3, 'r0.03', 'r0.1'])
        step['lines'] = rng.choice([None, 30, 300])
    else:
        ops.append(['start'])
    if rng.random() < 0.4:
        spec['script'] = 'guarded'
    ops += [['again']] * (rng.random() < 0.3) + [['after']]
    spec['ops'] = ops
    step['faults'] = faults = []
    r = rng.random()
    if r < 0.35:
        # the rest of the program goes on in the meantime
        for what in rng.sample(ACTS + 4 * ['warning filters'], rng.choice([1, 1, 2])):
            faults.append(moment(rng, g, {'host': what}))
        del faults[1 if 'call' in faults[0] else 2:]
    elif r < 0.75:
        faults.append(d08.fault(rng, g))
    elif r < 0.85:
        faults.append({'kind': rng.choice([WRITES, 'open:r', 'read', 'stat']), 'role': 'a',
                       'k': int(2 ** rng.uniform(0, 5)), 'lasting': rng.random() < 0.4,
                       'fault': {'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EROFS,
                                                      errno.EACCES])}})
    step['tidy'] = not any(f.get('lasting') for f in faults)
    w['steps'].append(step)
    return w


ACTS = ['recursion limit', 'working directory', 'gc thresholds', 'umask', 'random state',
        'standard output', 'import function', 'warning display', 'switch interval', 'environment',
        'builtins', 'module table', 'module attribute', 'warning filters', 'module search path',
        'import finders', 'gc state']


def moment(rng, g, fault):
    if rng.random() < 0.5:
        return {'role': 'a', 'call': {'k': int(2 ** rng.uniform(0, 11)), 'fault': fault}}
    if rng.random() < 0.5:
        return {'kind': 'any', 'role': 'a', 'match': '_mypy_', 'k': int(2 ** rng.uniform(0, 5)),
                'fault': fault}
    return {'kind': 'any', 'role': 'a', 'k': rng.randint(1, max(1, g.totals.get('a', 10))),
            'fault': fault}


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
