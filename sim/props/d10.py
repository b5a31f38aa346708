"""Processes that are not the main process."""
from . import dcommon
from .dcommon import describe, initial, position, shrink, some, start, step_run, WRITES  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'start-died', 'stall', 'no-progress', 'died',
         'hang', 'child-wrong-answer', 'child-failed'}


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': [initial(rng, ('empty', 'empty', 'foreign', 'warm',
                                                              'warm'))]}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    for _ in range(rng.choice([1, 1, 2])):
        method = rng.choice(['fork', 'fork', 'fork', 'spawn', 'spawn'])
        complete = w['steps'][-1] == {'do': 'disk', 'is': 'warm'}
        spec = {'ops': [['children', method, rng.choice([1, 2])]], 'cids': some(rng, g)}
        step = step_run([['a', spec]], p=rng.choice([0, 0.05, 0.3]), wait=rng.choice([0, 2]),
                        config={'chunk': rng.choice([4096, 65536])})
        r = rng.random()
        if r < 0.2:
            # the parent imports the library first
            spec['ops'].insert(0, ['start'])
            complete = True
        elif r < 0.45:
            step['procs'].append(['b', start()])
        if rng.random() < 0.25:
            step['faults'] = [{'kind': rng.choice(['any', WRITES]), 'role': 'a/h1',
                               'k': rng.randint(1, 60), 'fault': {'kill': True}}]
            # the first child is a helper if the parent imports the library
            step['mayfail'] = True
        else:
            step['children'] = 'golden' if complete else 'starts'
        if rng.random() < 0.5:
            # spawned children execute the program of their parent before they do their work
            spec['script'] = rng.choice(['guarded', 'plain'])
            if method == 'spawn' and rng.random() < 0.5:
                spec['ops'].insert(0, ['method', 'spawn'])
        if rng.random() < 0.2:
            step['procs'].append(['c', start()])
            step['procs'][-1][1]['ops'].insert(0, ['name', 'server'])
        if rng.random() < 0.25:
            for op in spec['ops']:
                if op[0] == 'children':
                    # of a pool, say: they must not have children of their own
                    op.append('daemon')
        w['steps'].append(step)
    w['steps'].append({'do': 'heal', 'warm': False})
    return w


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
