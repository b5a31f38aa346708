"""Failing helper processes."""
import errno

from . import dcommon
from .dcommon import describe, shrink, start, step_run  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'start-died', 'hang', 'stall',
         'no-progress', 'died', 'left-behind'}
RAISED = ['MemoryError', 'Boom', 'Unpicklable', 'Unloadable', 'Silent', 'RecursionError',
          'KeyboardInterrupt', 'Interrupt', 'Quit', 'SystemExit', 'NoMemory', 'ValueError', 'OSError']
COMMON = ['MemoryError', 'MemoryError', 'OSError']


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': [{'do': 'disk', 'is': 'empty'}]}
    if rng.random() < 0.3:
        w['steps'][0].update({'is': 'warm', 'without': rng.choice(['modules', 'stubs'])})
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    threads = rng.random() < 0.15
    ops = [['start']]
    if threads:
        ops = [['threads', [[['start']], [['start']]]]]
    ops.append(['again'])
    step = step_run([['a', {'ops': ops}]], mayfail=['first'],
                    config={'chunk': 65536, 'pipe': rng.choice([None, None, 4096])})
    if threads:
        step['p'] = rng.choice([0.05, 0.3])
        step['lines'] = rng.choice([None, 300])
    else:
        step['alone'] = True
    helper = rng.choice(['a/h1', 'a/h1', 'a/h2'])
    if w['steps'][0]['is'] == 'warm':
        helper = 'a/h1'
    if w['steps'][0].get('without') == 'stubs':
        step['nothing'] = True
    r = rng.random()
    total = max(1, g.totals.get(helper, 10))
    if r < 0.06:
        # the importing process dies while its helper is at work
        f = {'kind': rng.choice(['pipe-read', 'pipe-read', 'waitpid', 'any']), 'role': 'a',
             'k': rng.choice([1, 1, 2, 3, 4]), 'fault': {'kill': True}}
    elif r < 0.25:
        f = {'kind': 'any', 'role': helper, 'k': rng.randint(1, total), 'fault': {'kill': True}}
    elif r < 0.4:
        f = {'kind': 'any', 'role': helper, 'k': rng.randint(1, total),
             'fault': {'exit': rng.choice([0, 0, 1, 3, 255])}}
    elif r < 0.6:
        # at the k-th call of a function of the package inside of the helper
        f = {'role': helper, 'call': {'k': int(2 ** rng.uniform(0, 11)),
                                      'fault': {'raise': rng.choice(RAISED + COMMON)}}}
        if rng.random() < 0.2:
            f['call']['fault'] = rng.choice([{'kill': True}, {'exit': 0}, {'exit': 7}])
    elif r < 0.68:
        # a stub file cannot be read
        f = {'kind': 'stub', 'role': helper, 'k': int(2 ** rng.uniform(0, 4)),
             'lasting': rng.random() < 0.3,
             'fault': rng.choice([{'raise': rng.choice(RAISED + COMMON)},
                                  {'errno': rng.choice([errno.EIO, errno.EMFILE, errno.ENOMEM,
                                                        errno.EACCES])}])}
        step['config']['stubs'] = True
    elif r < 0.83:
        f = {'kind': rng.choice(['pickle', 'pickle', 'pipe-write', 'lock', 'any']), 'role': helper,
             'k': rng.choice([1, 1, 1, 2, 3]), 'lasting': rng.random() < 0.3,
             'fault': {'raise': rng.choice(RAISED)}}
    else:
        kind = rng.choice(['fork', 'fork', 'pipe', 'waitpid', 'pipe-read'])
        f = {'kind': kind, 'role': 'a', 'k': rng.randint(1, 6 if kind in ('pipe', 'pipe-read')
                                                         else 2),
             'fault': {'errno': {'fork': rng.choice([errno.EAGAIN, errno.ENOMEM]),
                                 'pipe': rng.choice([errno.EMFILE, errno.ENFILE]),
                                 'waitpid': errno.EINTR}.get(kind, errno.EIO)}}
        if kind == 'pipe-read' and rng.random() < 0.5:
            f['fault'] = {'raise': rng.choice(['KeyboardInterrupt', 'NoMemory', 'Quit'])}
    if 'kind' in f and 0.06 <= r < 0.4 and rng.random() < 0.3:
        # every helper, however often it is started again
        f['lasting'] = True
        if rng.random() < 0.7:
            del f['role']
            f['helpers'] = True
            f['k'] = rng.choice([1, 1, 2, 5, 20])
            step['mayfail'] = True
    step['faults'] = [f]
    w['steps'].append(step)
    w['steps'].append({'do': 'heal', 'warm': False})
    return w


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
