"""The programs that run inside simulated processes.

A program is a list of operations; what they observe is reported to the scheduler.
"""
import importlib
import os
import sys
import types
import warnings

import canon
import dhook
import hoststate

HERE = os.path.dirname(os.path.abspath(__file__))
MAIN = None  # the main module of the program
SEEN = []  # warnings
LAST = {}


def enter(site, lib, spec):
    """Makes a fork of the zygote look like a freshly started interpreter."""
    global MAIN
    sys.dont_write_bytecode = False
    if not os.environ.get('PDSIM_DEBUG'):
        # tracebacks of helper processes
        null = dhook.real.os_open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
    standard = [p for p in sys.path if '/lib/python' in p or p.endswith('.zip')]
    sys.path[:] = [site, os.path.join(lib), os.path.join(lib, 'stdlib'), HERE, *standard]
    importlib.invalidate_caches()
    os.chdir(site)
    import multiprocessing.process
    multiprocessing.process.ORIGINAL_DIR = site
    os.environ.pop('PYTHONDONTWRITEBYTECODE', None)
    os.environ['PDSIM_SITE'] = site
    os.environ['PDSIM_ADDR'] = os.path.join(site, 'sock')
    os.environ['PYTHONPATH'] = ':'.join([os.path.join(HERE, 'spawnhook'), *sys.path[:4]])
    os.environ['PYTHONHASHSEED'] = str(spec.get('hash', 0))
    sys.modules.pop('__main__', None)
    if not spec.get('no_main'):
        MAIN = sys.modules['__main__'] = types.ModuleType('__main__')
        if spec.get('script'):
            MAIN.__file__ = os.path.join(lib, spec['script'] + '.py')
    listen()


def listen():
    warnings.resetwarnings()
    warnings.simplefilter('always')

    def show(message, category, *args, **kwargs):
        SEEN.append(f'{category.__name__}: {str(message)[:300]}')

    warnings.showwarning = show


def main_state():
    main = sys.modules.get('__main__')
    if main is MAIN and (main is None) == ('__main__' not in sys.modules):
        return None
    return f'{getattr(main, "__name__", None)!r} {getattr(main, "__file__", None)}'


def report(kind, value):
    e = dhook.endpoint()
    if e is not None:
        e.call({'t': 'result', 'k': kind, 'v': value})


def resolve(cid):
    name, _, path = cid.partition(':')
    value = importlib.import_module(name)
    for part in path.split('.'):
        value = getattr(value, part)
    return value


def answers(cids):
    query = sys.modules['paradigm.base'].signature_from_callable
    found = {}
    for cid in cids:
        try:
            value = resolve(cid)
        except Exception as error:
            found[cid] = f'UNRESOLVED {canon.exception(error)}'
            continue
        found[cid] = canon.outcome(query, value)[1]
    return found


def attempt(op, spec):
    """One import of the library followed by queries."""
    result = {'op': op[0], 'process': dhook.NODE.pid_number}
    del SEEN[:]
    target = op[1] if len(op) > 1 and op[1] else 'paradigm.base'
    try:
        if spec.get('version') is not None:
            importlib.import_module('paradigm').__version__ = spec['version']
        for name in target.split(','):
            importlib.import_module(name)
        if 'paradigm.base' not in sys.modules:
            importlib.import_module('paradigm.base')
    except BaseException as error:  # noqa
        result['error'] = type(error).__name__
        try:
            result['text'] = canon.exception(error)
        except BaseException:  # noqa
            result['text'] = type(error).__name__
        frames = []
        tb = error.__traceback__
        while tb is not None:
            frames.append(f'{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}')
            tb = tb.tb_next
        result['frames'] = [f for f in frames if not f.startswith(('<', '_bootstrap'))][-4:]
    else:
        result['answers'] = answers(spec['cids'])
        result['stray'] = stray()
    result['warnings'] = SEEN[:6]
    return result


def stray():
    """Where the library was loaded from, if not from the installation."""
    file = getattr(sys.modules.get('paradigm'), '__file__', None) or ''
    return None if file.startswith(os.environ['PDSIM_SITE']) else file


def child(cids, version):
    listen()
    spec = {'cids': cids, 'version': version}
    report('child', attempt(['child'], spec))


def called(value, action):
    """What helper processes of direct calls execute."""
    if action == 'exit':
        os._exit(3)
    if action == 'raise':
        raise ValueError(value)
    if action == 'big':
        return [value] * 20000
    return ['result', value, os.getpid() != called.owner]


called.owner = None


def call(n, action):
    try:
        module = importlib.import_module('paradigm._core.execution')
    except ModuleNotFoundError:
        return {'op': 'call', 'skipped': True}
    function = getattr(module, 'call_in_process', None)
    if function is None:
        return {'op': 'call', 'skipped': True}
    called.owner = os.getpid()
    try:
        value = function(called, n, action)
    except BaseException as error:  # noqa
        return {'op': 'call', 'n': n, 'action': action, 'error': type(error).__name__,
                'text': canon.exception(error)}
    if action == 'big':
        return {'op': 'call', 'n': n, 'action': action, 'value': [len(value), value[0]]}
    return {'op': 'call', 'n': n, 'action': action, 'value': value}


STATE = None  # of the process before the library is imported
ACTORS = {}


def act(what):
    """The program changes some state of its process on its own."""
    if what not in ACTORS:
        ACTORS[what] = actor = hoststate.Actor(what)
        actor.act()


def state():
    """Of the process, without the lines of its threads to the scheduler."""
    import socket
    found = hoststate.State(hoststate.Nothing)
    kept = []
    for name, target in found.facts['descriptors']:
        if target.startswith('socket:'):
            try:
                with socket.socket(fileno=os.dup(int(name))) as line:
                    if line.getpeername() == dhook.NODE.addr:
                        continue
            except OSError:
                pass
        kept.append((name, target))
    found.facts['descriptors'] = kept
    return found


def before(ops):
    global STATE
    import multiprocessing
    if (multiprocessing.get_start_method(allow_none=True) == 'spawn'
            or ['host', 'start method'] in ops):
        # lives as long as the program
        import multiprocessing.resource_tracker as tracker
        tracker.ensure_running()
    hoststate.Bystander.install()
    STATE = state()
    dhook.ACT = act


def after():
    """What has changed since."""
    import gc
    gc.collect()
    lost = [what for what, actor in ACTORS.items() if actor.lost()]
    for actor in ACTORS.values():
        if actor.what not in lost:
            actor.undo()
    now = state()
    added = [name for name in now.modules if name not in STATE.modules]
    expected = {f'attribute {parent}.{name} added' for parent, _, name in
                (m.rpartition('.') for m in added)}
    changes = [x for x in STATE.changes(now)
               if x not in expected and not x.startswith('module ')
               or x.startswith('module ') and (' removed' in x or ' replaced' in x)]
    changes += hoststate.Bystander.touched()
    return {'lost': lost, 'changes': [x[:600] for x in changes],
            'added': [name for name in added if not hoststate.own(name)],
            'acts': sorted(ACTORS)}


def run(ops, spec):
    for op in ops:
        kind = op[0]
        if kind in ('start', 'again'):
            report('attempt', attempt(op, spec))
        elif kind == 'threads':
            import threading

            def body(ops):
                run(ops, spec)

            threads = [threading.Thread(target=body, args=(ops,)) for ops in op[1]]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()
        elif kind == 'children':
            import multiprocessing
            context = multiprocessing.get_context(op[1])
            children = [context.Process(target=child, args=(spec['cids'], spec.get('version')),
                                        daemon=len(op) > 3)
                        for _ in range(op[2])]
            for process in children:
                process.start()
            for process in children:
                process.join()
            report('codes', [process.exitcode for process in children])
        elif kind == 'method':
            import multiprocessing
            multiprocessing.set_start_method(op[1], force=True)
        elif kind == 'name':
            # what a process is called is a matter of taste
            import multiprocessing
            multiprocessing.current_process().name = op[1]
        elif kind == 'call':
            report('call', call(op[1], op[2]))
        elif kind == 'sleep':
            import time
            time.sleep(op[1])
        elif kind == 'break':
            report('broken', op[1])
        elif kind == 'host':
            act(op[1])
        elif kind == 'before':
            before(ops)
        elif kind == 'after':
            report('state', after())
        elif kind == 'main':
            report('main', main_state())
        else:
            raise ValueError(op)


def program(site, lib, spec):
    """For Host.start."""

    def body(join):
        enter(site, lib, spec)
        join()
        run(spec['ops'], spec)
        report('main', main_state())
        import multiprocessing.util as util
        util._exit_function()
        report('end', None)
        return 0

    return body


def exec_main():
    """In an interpreter of its own."""
    import json
    global MAIN
    MAIN = sys.modules['__main__']
    with dhook.real.open(os.environ['PDSIM_SPEC']) as file:
        spec = json.load(file)
    listen()
    run(spec['ops'], spec)
    report('main', main_state())
    report('end', None)
