"""Standard library modules that cannot be imported."""
from . import dcommon
from .dcommon import describe, shrink, start, step_run  # noqa

SERIES = 'd'
QUICK = {'runs': 800, 'budget': 55}
THOROUGH = {'runs': 20000, 'budget': 1500}
KINDS = {'cold-start', 'start-failed', 'wrong-answer', 'not-warm', 'start-died', 'hang', 'stall',
         'no-progress', 'died'}
BREAKAGES = {
    'ImportError': 'raise ImportError("broken")\n',
    'ModuleNotFoundError': 'import surely_not_there\n',
    'OSError': 'raise OSError(5, "broken")\n',
    'PermissionError': 'raise PermissionError(13, "broken", "/file")\n',
    'RuntimeError': 'raise RuntimeError\n',
    'AttributeError': 'None.broken\n',
    'NameError': 'broken\n',
    'KeyError': '{}["broken"]\n',
    'AssertionError': 'assert False\n',
    'StopIteration': 'raise StopIteration\n',
    'RecursionError': 'def f():\n    f()\nf()\n',
    'ZeroDivisionError': '1 / 0\n',
    'NotImplementedError': 'raise NotImplementedError("x" * 5000)\n',
    'SyntaxError': 'def (\n',
    'nul': 'x = "\0"\n',
    'IndentationError': 'if 1:\nx\n',
    'MemoryError': 'raise MemoryError\n',
    'UserWarning': 'raise UserWarning("broken")\n',
    'UnicodeError': 'b"\\xff".decode()\n',
    'surrogate': 'raise ValueError("\\ud800 broken")\n',
    'silent': 'class Silent(Exception):\n    def __str__(self):\n        raise RuntimeError("none")\n'
              '    __repr__ = __str__\nraise Silent\n',
    'local': 'class Local(Exception):\n    def __init__(self, a, b):\n        super().__init__(a)\n'
             '        self.lock = lambda: None\nraise Local(1, 2)\n',
    'group': 'raise ExceptionGroup("broken", [ValueError(1), ImportError(2)])\n',
    'chained': 'try:\n    1 / 0\nexcept Exception as e:\n    raise ImportError("broken") from e\n',
    'cycle': 'a, b = ValueError(1), ValueError(2)\na.__cause__, b.__cause__ = b, a\nraise a\n',
    'late': None,  # after everything has been defined
    'removed': 'import sys\ndel sys.modules[__name__]\nraise ImportError("broken")\n',
    'nested': 'import ast\nast.parse("(")\n',
    'thread': 'import queue\nqueue.Queue().get_nowait()\n',
    'exception class': 'class E(Exception):\n    __name__ = __module__ = None\nraise E()\n',
}
# modules nothing else needs, with names that begin or end those of others
NEIGHBOURS = ['sim', 'simp', 'simpk', 'simb', '_sim', 'simpkg.re', 'simpkg.par', 'part', 'rest', 'im0']


def generate(rng, world):
    modules = rng.choice([2, 2, 3, 4])
    w = {'lib': dcommon.library(rng), 'modules': modules, 'tag': 'po', 'steps': []}
    names = [f'sim{i}' for i in range(modules)] + ['_simimpl', 'simpkg', 'simpkg.part', 'simpkg.rest', 'simbare']
    r = rng.random()
    n = len(names) if r < 0.1 else rng.randint(1, 4)
    w['broken'] = {name: rng.choice(list(BREAKAGES)) for name in rng.sample(names, min(n, len(names)))}
    if rng.random() < 0.3:
        w['broken'].update((name, rng.choice(list(BREAKAGES)))
                           for name in rng.sample(NEIGHBOURS, rng.randint(1, 3)))
    w['steps'] = [{'do': 'disk', 'is': 'empty'},
                  step_run([['a', start()]], config={'dirs': rng.choice([None, 1, 2, 3]),
                                                     'chunk': 65536})]
    if rng.random() < 0.2:
        w['steps'][-1]['procs'][0][1]['ops'].insert(0, ['method', 'spawn'])
    if rng.random() < 0.5:
        w['steps'].append(step_run([['a', start()]], warm=True, wait=3))
    return w


def execute(world, w, seed, decisions):
    return dcommon.execute(world, w, seed, decisions, KINDS)
