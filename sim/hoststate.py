"""What a program can see of its own process: taken before and after a simulated history."""
import atexit
import builtins
import copyreg
import faulthandler
import gc
import importlib
import importlib.util
import io
import os
import random
import resource
import signal
import sys
import threading
import time
import types
import warnings

import canon

OWN = {'canon', 'dynamic', 'instrument', 'universe', 'qworld', 'worker', 'hoststate', 'simsched',
       'props', 'install', 'vworld', 'dhook', 'dprog', 'dworld', 'dsim', 'dlib', 'dfaults',
       'dcommon'}
# bookkeeping of the interpreter that any code changes by running
IGNORED_ATTRIBUTES = {'__warningregistry__', '__annotations__', '__builtins__', '__cached__',
                      '__pycache__'}
IGNORED = {('module', 'typing', '_cleanups'), ('module', 'threading', '_active'),
           ('module', 'sys', 'last_exc'), ('module', 'sys', 'last_type'),
           ('module', 'sys', 'last_value'), ('module', 'sys', 'last_traceback')}
CLASS_IGNORED = {'__annotations__', '__abstractmethods__', '_abc_impl', '__doc__',
                 '__type_params__', '__parameters__', '__slotnames__'}
FUNCTION_ATTRIBUTES = ('__code__', '__defaults__', '__kwdefaults__', '__name__', '__qualname__',
                       '__module__', '__doc__', '__wrapped__', '__signature__',
                       '__text_signature__', '__func__', '__self__', '__isabstractmethod__')


def own(name):
    top = name.partition('.')[0]
    return top in OWN or top == 'paradigm'


class Snapshot:
    """take() keeps the objects it has seen alive, so identities stay meaningful."""

    def take(self, run):
        Bystander.install()
        return State(run)

    def compare(self, run, before, after):
        changes = before.changes(after) + Bystander.touched()
        added = [name for name in sys.modules
                 if name not in before.modules and not own(name)]
        run.probes['snapshots'] = run.probes.get('snapshots', 0) + 1
        run.probes['modules added'] = run.probes.get('modules added', 0) + len(added)
        run.added, run.changes = added, changes


class Bystander:
    """A module of the program that is to be loaded when it is needed, and cannot be yet."""
    NAME = 'pdsim_bystander'
    loads = []

    @staticmethod
    def create_module(spec):
        return None

    @classmethod
    def exec_module(cls, module):
        cls.loads.append(1)
        raise ImportError(cls.NAME)

    @classmethod
    def install(cls):
        if cls.NAME not in sys.modules:
            spec = importlib.util.spec_from_loader(cls.NAME, importlib.util.LazyLoader(cls))
            sys.modules[cls.NAME] = module = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(module)

    @classmethod
    def touched(cls):
        return [f'module {cls.NAME} loaded'] if cls.loads else []


class State:
    def __init__(self, run):
        self.modules = dict(sys.modules)
        self.attributes = {}
        self.classes = {}
        for name, module in self.modules.items():
            if (own(name) or name == Bystander.NAME
                    or not isinstance(module, types.ModuleType)):
                continue
            space = dict(vars(module))
            self.attributes[name] = space
            for key, value in space.items():
                if isinstance(value, type) and not own(str(value.__module__)):
                    self.classes.setdefault(id(value), (value, dict(vars(value))))
        self.facts = facts()
        self.values = {}
        for cid, value in run.values.items():
            self.values[cid] = describe(value)
        for slot, (cid, value, serial) in run.slots.items():
            self.values[f'{cid} ({serial})'] = describe(value)

    def changes(self, after):
        """Descriptions of everything that is different; comparable between processes."""
        found = []
        for name, module in self.modules.items():
            if own(name):
                continue
            if name not in after.modules:
                found.append(f'module {name} removed')
            elif after.modules[name] is not module:
                found.append(f'module {name} replaced')
        for name, module in after.modules.items():
            if name not in self.modules and not own(name) and name != Bystander.NAME:
                spec = getattr(module, '__spec__', None)
                found.append(f'module {name} added: {type(module).__name__}'
                             f' {getattr(spec, "name", None)}')
        for name, space in self.attributes.items():
            later = after.attributes.get(name)
            if later is None or after.modules.get(name) is not self.modules[name]:
                continue
            for key in {**space, **later}:
                if key in IGNORED_ATTRIBUTES or ('module', name, key) in IGNORED:
                    continue
                if key not in later:
                    found.append(f'attribute {name}.{key} deleted')
                elif key not in space:
                    # modules with __getattr__ make some of their attributes on demand
                    if '__getattr__' not in space:
                        found.append(f'attribute {name}.{key} added')
                elif space[key] is not later[key] and not same(space[key], later[key]):
                    found.append(f'attribute {name}.{key} changed')
        for key, (cls, space) in self.classes.items():
            later = vars(cls)
            for attribute in {**space, **later}:
                if attribute in CLASS_IGNORED:
                    continue
                label = f'class {cls.__module__}.{cls.__qualname__}.{attribute}'
                if attribute not in later:
                    found.append(label + ' deleted')
                elif attribute not in space:
                    found.append(label + ' added')
                elif space[attribute] is not later[attribute]:
                    found.append(label + ' changed')
        for key, value in self.facts.items():
            if after.facts[key] != value:
                found.append(f'{key} changed from {str(value)[:200]} to'
                             f' {str(after.facts[key])[:200]}')
        for cid, value in self.values.items():
            later = after.values.get(cid)
            if later is not None and later != value:
                found.append(f'callable {cid} changed: {difference(value, later)}')
        return sorted(found)


def same(one, other):
    return type(one) is type(other) and type(one) in (int, float, str, bytes, bool) and one == other


def facts():
    """Process state that is not an attribute of a module."""
    import multiprocessing.context
    found = {
        'sys.path': list(sys.path), 'sys.meta_path': [id(x) for x in sys.meta_path],
        'sys.path_hooks': [id(x) for x in sys.path_hooks], 'sys.argv': list(sys.argv),
        'recursion limit': sys.getrecursionlimit(), 'trace function': sys.gettrace(),
        'profile function': sys.getprofile(), 'switch interval': sys.getswitchinterval(),
        'threads trace function': threading.gettrace(),
        'threads profile function': threading.getprofile(),
        'async generator hooks': tuple(map(id, sys.get_asyncgen_hooks())),
        'coroutine origin tracking': sys.get_coroutine_origin_tracking_depth(),
        'warning filters': [tuple(map(str, x)) for x in warnings.filters],
        'warnings default action': warnings.defaultaction,
        'warnings once registry': len(warnings.onceregistry),
        'builtins': sorted(vars(builtins)), 'main module': id(sys.modules.get('__main__')),
        'main module names': sorted(vars(sys.modules['__main__']))
        if '__main__' in sys.modules else None,
        'working directory': os.getcwd(), 'environment': dict(os.environ),
        'gc enabled': gc.isenabled(), 'gc thresholds': gc.get_threshold(),
        'gc callbacks': len(gc.callbacks), 'gc debug': gc.get_debug(),
        'threads': sorted(t.name for t in threading.enumerate()
                          if not isinstance(t, threading._DummyThread)),
        'descriptors': descriptors(), 'children': children(),
        'signal handlers': [str(signal.getsignal(n)) for n in range(1, 32)],
        'signal mask': sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, ()))),
        'start method': multiprocessing.context._default_context.get_start_method(True),
        'random state': hash(random.getstate()), 'exit callbacks': atexit._ncallbacks(),
        'umask': mask(), 'dlopen flags': sys.getdlopenflags(),
        'int digits limit': sys.get_int_max_str_digits(),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'processors': sorted(os.sched_getaffinity(0)),
        'resource limits': [resource.getrlimit(n) for n in range(16)],
        'threads stack size': threading.stack_size(),
        'interval timer': signal.getitimer(signal.ITIMER_REAL)[1] > 0,
        'wakeup descriptor': wakeup_descriptor(),
        'time zone': time.tzname, 'fault handler': faulthandler.is_enabled(),
        'reducers': sorted(map(str, copyreg.dispatch_table)),
        'import flags': (sys.dont_write_bytecode, sys.flags, sys.pycache_prefix),
        'hooks': [id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook,
                                  sys.breakpointhook, threading.excepthook)],
    }
    reduction = sys.modules.get('multiprocessing.reduction')
    found['processes reducers'] = None if reduction is None else sorted(
        map(str, reduction.ForkingPickler._extra_reducers))
    socket = sys.modules.get('socket')
    found['socket timeout'] = None if socket is None else socket.getdefaulttimeout()
    decimal = sys.modules.get('decimal')
    if decimal is not None:
        found['decimal precision'] = decimal.getcontext().prec
    locale = sys.modules.get('_locale')
    if locale is not None:
        found['locale'] = locale.setlocale(locale.LC_ALL)
    logging = sys.modules.get('logging')
    if logging is not None:
        found['logging'] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    for key in ('decimal precision', 'locale', 'logging'):
        found.setdefault(key, None)
    return found


class Finder:
    """Finder that finds nothing."""

    @staticmethod
    def find_spec(*args, **kwargs):
        return None


class Actor:
    """A change that another part of the program makes in the middle of a query."""

    def __init__(self, what):
        self.what, self.done = what, False
        self.marker = self.old = None

    def read(self):
        return {'recursion limit': sys.getrecursionlimit, 'working directory': os.getcwd,
                'gc thresholds': gc.get_threshold, 'umask': mask,
                'random state': lambda: hash(random.getstate()),
                'standard output': lambda: sys.stdout, 'import function': lambda: builtins.__import__,
                'warning display': lambda: warnings.showwarning,
                'switch interval': sys.getswitchinterval,
                'environment': lambda: os.environ.get('PDSIM_HOST'),
                'builtins': lambda: vars(builtins).get('pdsim_host'),
                'module table': lambda: sys.modules.get('pdsim_host'),
                'main module': lambda: vars(sys.modules['__main__']).get('pdsim_host'),
                'module attribute': lambda: vars(os).get('pdsim_host'),
                'warning filters': lambda: any('pdsim' in str(f) for f in warnings.filters),
                'module search path': lambda: '/nowhere/pdsim' in sys.path,
                'import finders': lambda: Finder in sys.meta_path, 'gc state': gc.isenabled,
                'start method': start_method}[self.what]()

    def act(self):
        if self.done:
            return
        self.done = True
        what = self.what
        self.old = self.read()
        if what == 'recursion limit':
            sys.setrecursionlimit(self.old + 321)
        elif what == 'working directory':
            os.chdir('/')
        elif what == 'gc thresholds':
            gc.set_threshold(654, 9, 9)
        elif what == 'umask':
            os.umask(0o27)
        elif what == 'random state':
            self.random = random.getstate()
            random.seed(321)
        elif what == 'standard output':
            sys.stdout = io.StringIO()
        elif what == 'import function':
            builtins.__import__ = lambda *args, **kwargs: IMPORT(*args, **kwargs)
        elif what == 'warning display':
            warnings.showwarning = lambda *args, **kwargs: None
        elif what == 'switch interval':
            sys.setswitchinterval(0.25)
        elif what == 'environment':
            os.environ['PDSIM_HOST'] = 'x'
        elif what == 'builtins':
            builtins.pdsim_host = 1
        elif what == 'module table':
            sys.modules['pdsim_host'] = types.ModuleType('pdsim_host')
        elif what == 'main module':
            sys.modules['__main__'].pdsim_host = 1
        elif what == 'module attribute':
            os.pdsim_host = 1
        elif what == 'warning filters':
            warnings.filterwarnings('ignore', message='pdsim')
        elif what == 'module search path':
            sys.path.append('/nowhere/pdsim')
        elif what == 'import finders':
            sys.meta_path.append(Finder)
        elif what == 'gc state':
            (gc.disable if self.old else gc.enable)()
        elif what == 'start method':
            import multiprocessing
            multiprocessing.set_start_method('fork' if self.old == 'spawn' else 'spawn',
                                             force=True)
        self.marker = self.read()

    def lost(self):
        """Whether something has undone the change."""
        now = self.read()
        return self.done and now is not self.marker and now != self.marker

    def undo(self):
        if not self.done:
            return
        what = self.what
        if what == 'recursion limit':
            sys.setrecursionlimit(self.old)
        elif what == 'working directory':
            os.chdir(self.old)
        elif what == 'gc thresholds':
            gc.set_threshold(*self.old)
        elif what == 'umask':
            os.umask(self.old)
        elif what == 'random state':
            random.setstate(self.random)
        elif what == 'standard output':
            sys.stdout = self.old
        elif what == 'import function':
            builtins.__import__ = self.old
        elif what == 'warning display':
            warnings.showwarning = self.old
        elif what == 'switch interval':
            sys.setswitchinterval(self.old)
        elif what == 'environment':
            os.environ.pop('PDSIM_HOST', None)
        elif what == 'builtins':
            vars(builtins).pop('pdsim_host', None)
        elif what == 'module table':
            sys.modules.pop('pdsim_host', None)
        elif what == 'main module':
            vars(sys.modules['__main__']).pop('pdsim_host', None)
        elif what == 'module attribute':
            vars(os).pop('pdsim_host', None)
        elif what == 'warning filters':
            warnings.filters[:] = [f for f in warnings.filters if 'pdsim' not in str(f)]
            warnings._filters_mutated()
        elif what == 'module search path':
            sys.path.remove('/nowhere/pdsim')
        elif what == 'import finders':
            sys.meta_path.remove(Finder)
        elif what == 'gc state':
            (gc.enable if self.old else gc.disable)()
        elif what == 'start method':
            import multiprocessing
            multiprocessing.set_start_method(self.old, force=True)


IMPORT = builtins.__import__


class Nothing:
    """A run without values of its own."""
    values, slots = {}, {}


ACTS = ['recursion limit', 'working directory', 'gc thresholds', 'umask', 'random state',
        'standard output', 'import function', 'warning display', 'switch interval', 'environment',
        'builtins', 'module table', 'main module', 'module attribute', 'warning filters',
        'warning filters', 'module search path', 'import finders', 'gc state']


def start_method():
    import multiprocessing
    return multiprocessing.get_start_method(allow_none=True)


def wakeup_descriptor():
    if threading.current_thread() is not threading.main_thread():
        return None
    value = signal.set_wakeup_fd(-1)
    signal.set_wakeup_fd(value)
    return value


def mask():
    value = os.umask(0o22)
    os.umask(value)
    return value


def descriptors():
    found = []
    for name in os.listdir('/proc/self/fd'):
        try:
            found.append((name, os.readlink('/proc/self/fd/' + name)))
        except OSError:
            pass
    return sorted(x for x in found if not x[1].startswith('/proc/'))


def children():
    try:
        return os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT) or 'running'
    except ChildProcessError:
        return None


def describe(value, depth=0):
    """State of a queried callable and everything that hangs on it."""
    if depth > 3:
        return ''
    if isinstance(value, type):
        space = {k: v for k, v in vars(value).items() if k not in CLASS_IGNORED}
        return ['type', sorted((k, id(v)) for k, v in space.items()),
                canon.Canon().any(dict(vars(value).get('__annotations__', {})))]
    result = [type(value).__name__]
    for name in FUNCTION_ATTRIBUTES:
        try:
            found = getattr(value, name)
        except Exception:
            continue
        if name in ('__self__', '__func__', '__wrapped__'):
            result.append((name, id(found), state(found) if name == '__self__'
                           else describe(found, depth + 1)))
        elif name in ('__defaults__', '__kwdefaults__'):
            result.append((name, state(found)))
        else:
            result.append((name, found if isinstance(found, str) else id(found)))
    if isinstance(value, types.FunctionType):
        result.append(('annotations', canon.Canon().any(dict(value.__annotations__)),
                       [id(x) for x in value.__annotations__.values()]))
        result.append(('closure', [id(c.cell_contents) for c in value.__closure__ or ()]))
    import functools
    if isinstance(value, functools.partial):
        result += [describe(value.func, depth + 1), state(value.args), state(value.keywords)]
    try:
        result.append(('dict', sorted((k, id(v)) for k, v in vars(value).items())))
    except TypeError:
        pass
    return result


def state(value):
    if isinstance(value, types.ModuleType):
        return id(value)
    return canon.Canon().any(value)


def difference(one, other):
    for x, y in zip(one, other):
        if x != y:
            return f'{str(x)[:300]} -> {str(y)[:300]}'
    return f'{str(one)[:300]} -> {str(other)[:300]}'


def import_effects(names):
    """Changes made by regular imports alone, in a process that does nothing else."""
    before = State(Nothing)
    for name in names:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                importlib.import_module(name)
            except BaseException:  # noqa
                pass
    return before.changes(State(Nothing))
