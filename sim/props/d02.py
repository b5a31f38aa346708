"""Failures of I/O while the cache is written or read."""
import errno

from . import dcommon
from .dcommon import (WRITES, describe, initial, position, shrink, start, step_run)  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'not-warm', 'start-died', 'hang', 'stall',
         'no-progress', 'died', 'left-behind'}
WRITE_ERRORS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EDQUOT, errno.EMFILE,
                errno.ENOMEM, errno.EPERM, errno.EFBIG, errno.ENOENT, errno.EEXIST, errno.ESTALE,
                errno.ETXTBSY, errno.ENAMETOOLONG, errno.EISDIR]
READ_ERRORS = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM, errno.ESTALE, errno.ENOENT,
               errno.EPERM, errno.ELOOP, errno.EISDIR]


def generate(rng, world):
    w = {'lib': dcommon.library(rng), 'steps': [initial(rng, ('empty', 'foreign', 'warm'))]}
    g = world.golden(world.lib(w['lib'], 'p', 2))
    if g.problem:
        return w
    for _ in range(rng.choice([1, 1, 2])):
        step = step_run([['a', start()]], wait=rng.choice([0, 0.3, 1.2, 4]),
                        config={'chunk': rng.choice([4096, 8192, 65536])}, faults=[])
        if rng.random() < 0.15:
            step['procs'].append(['b', start()])
            step['p'] = rng.choice([0.05, 0.2, 'r0.05'])
        for _ in range(rng.choice([1, 1, 1, 2])):
            step['faults'].append(fault(rng, g))
        step['tidy'] = not any(f['lasting'] for f in step['faults'])
        w['steps'].append(step)
        if rng.random() < 0.3:
            w['steps'].append(step_run([['a', start()]], wait=rng.choice([0, 0.3, 2])))
    w['steps'].append({'do': 'heal'})
    return w


def fault(rng, g):
    r = rng.random()
    lasting = rng.random() < 0.4
    if r < 0.7:
        # one of the kinds, or all of them
        kind = rng.choice([WRITES, WRITES, 'open:w', 'write', 'write', 'close', 'rename', 'mkdir',
                           'open:w|mkdir|rename|unlink'])
        f = {'kind': kind, 'role': 'a', 'k': position(rng, g, kinds=kind), 'match': '.'
             if 'mkdir' not in kind else '', 'lasting': lasting,
             'fault': {'errno': rng.choice(WRITE_ERRORS)}}
        if 'write' in kind and rng.random() < 0.25:
            f['fault'] = {'short': round(rng.random(), 3)}
        return f
    kind = rng.choice(['open:r', 'read', 'open:r|read|stat', 'stat'])
    return {'kind': kind, 'role': 'a', 'match': '_mypy_' if rng.random() < 0.7 else '.',
            'k': rng.randint(1, 6), 'lasting': lasting, 'fault': {'errno': rng.choice(READ_ERRORS)}}


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
