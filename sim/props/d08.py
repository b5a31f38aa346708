"""The main module of the importing program."""
import errno

from . import dcommon
from .dcommon import WRITES, describe, initial, shrink, start, step_run  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'main-module', 'wrong-outcome', 'hang', 'stall', 'no-progress', 'start-failed'}


def calls(rng, n):
    return [['call', 100 + n * 10 + i, rng.choice([None, None, None, 'raise', 'big', 'exit'])]
            for i in range(rng.choice([1, 2, 3, 4]))]


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': [initial(rng, ('empty', 'empty', 'foreign'))]}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    spec = {'cids': []}
    step = step_run([['a', spec]], mayfail=True, config={'pipe': rng.choice([None, 4096])})
    if rng.random() < 0.2:
        spec['no_main'] = True
    elif rng.random() < 0.3:
        spec['script'] = 'guarded'
    r = rng.random()
    if r < 0.4:
        # threads that trigger helper processes at the same time
        w['steps'][0] = {'do': 'disk', 'is': 'warm'}
        spec['ops'] = [['start'], ['threads', [calls(rng, n) for n in range(rng.choice([2, 2, 3]))]]]
        step['p'] = rng.choice([0.03, 0.1, 0.3, 0.6, 'r0.01', 'r0.03', 'r0.1', 'r0.3'])
        step['lines'] = rng.choice([None, 3, 10, 30, 100])
    elif r < 0.6:
        spec['ops'] = [['threads', [[['start']] for _ in range(rng.choice([2, 3]))]]]
        step['p'] = rng.choice([0.03, 0.1, 0.3, 0.6, 'r0.03', 'r0.1'])
        step['lines'] = rng.choice([None, 30, 300])
    else:
        spec['ops'] = [['start'], ['main'], ['again']]
    if rng.random() < 0.65 and r >= 0.4 or rng.random() < 0.2:
        step['faults'] = [fault(rng, g)]
    else:
        del step['mayfail']
    w['steps'].append(step)
    return w


def fault(rng, g):
    r = rng.random()
    if r < 0.35:
        # the program is interrupted
        return {'role': 'a', 'call': {'k': int(2 ** rng.uniform(0, 11)), 'fault': {
            'raise': rng.choice(['KeyboardInterrupt', 'Interrupt', 'NoMemory', 'Quit', 'Boom'])}}}
    if r < 0.6:
        found = {'kind': rng.choice(['fork', 'pipe', 'pipe-read', 'waitpid', 'pickle']),
                 'role': 'a', 'k': rng.randint(1, 4),
                 'fault': {'raise': rng.choice(['KeyboardInterrupt', 'Interrupt', 'NoMemory',
                                                'Quit', 'OSError'])}}
        if found['kind'] == 'waitpid' and found['fault']['raise'] == 'OSError':
            # waiting fails only if there is nothing to wait for
            found['fault']['raise'] = 'KeyboardInterrupt'
        return found
    if r < 0.75:
        return {'kind': rng.choice(['fork', 'pipe', 'pipe-read', WRITES]), 'role': 'a',
                'k': rng.randint(1, 4),
                'fault': {'errno': rng.choice([errno.EAGAIN, errno.EMFILE, errno.ENOMEM])}}
    return {'kind': 'any', 'role': rng.choice(['a/h1', 'a/h2']), 'k': rng.randint(1, 20),
            'fault': rng.choice([{'kill': True}, {'exit': 1}, {'raise': 'Boom'},
                                 {'raise': 'KeyboardInterrupt'}])}


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
