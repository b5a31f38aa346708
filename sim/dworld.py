"""Simulated machines: scratch installations, golden answers and the execution of workloads."""
import contextlib
import compileall
import importlib
import importlib.util
import json
import os
import random
import shutil
import sys
import time

import dhook
import dlib
import dprog
import dsim
import hoststate

SITE = None
ROOT = None
PREWARM = ['ast', 'inspect', 'typing', 'typing_extensions', 'copy', 'functools', 'itertools',
           'enum', 'abc', 'weakref', 'collections', 'contextlib', 'traceback', 'warnings',
           'compileall', 'py_compile', 'concurrent.futures', 'concurrent.futures.process',
           'filecmp', 'struct', 'pathlib', 'sysconfig', 'importlib.util', 'importlib.machinery',
           'tempfile', 'multiprocessing', 'multiprocessing.context', 'multiprocessing.queues',
           'multiprocessing.popen_fork', 'multiprocessing.popen_spawn_posix',
           'multiprocessing.connection', 'multiprocessing.synchronize', 'multiprocessing.process',
           'multiprocessing.resource_tracker', 'multiprocessing.spawn', 'multiprocessing.util',
           'queue', 'threading', 'pickle', 'runpy', 'subprocess', 'shutil', 'platform', 'tokenize',
           'dis', 'linecache', 'uuid', 'keyword', 'operator', 'textwrap', 'string', 'textwrap', 'pprint',
           'datetime', 'decimal', 'fractions', 'numbers', 'types', 'logging', 'signal', 'socket']
LIBS = {}
GOLDEN = {}


def setup():
    """In the worker: prepares the installation this worker simulates machines on."""
    global SITE, ROOT
    ROOT = os.environ['PDSIM_SITE']
    SITE = os.path.join(ROOT, f'machine{os.getpid()}')
    os.makedirs(os.path.join(SITE, 'tmp'))
    shutil.copytree(os.path.join(ROOT, 'paradigm'), os.path.join(SITE, 'paradigm'),
                    ignore=lambda d, names: [n for n in names if n == '__pycache__'])
    package = os.path.join(SITE, 'paradigm')
    for top, _, names in os.walk(package):
        for name in names:
            os.utime(os.path.join(top, name), (dsim.EPOCH - 9000, dsim.EPOCH - 9000))
    compileall.compile_dir(package, quiet=2)
    originals = []
    for top, dirs, names in os.walk(package):
        originals += [os.path.join(top, name) for name in [*dirs, *names]]
    with open(os.path.join(SITE, 'originals.json'), 'w') as file:
        json.dump(originals, file)
    dhook.install()
    for name in PREWARM:
        importlib.import_module(name)
    dsim.become_subreaper()
    import gc
    gc.collect()
    gc.freeze()


class Lib:
    """A generated stub library of a version."""

    def __init__(self, seed, tag, modules):
        self.generator = dlib.Generator(seed, tag, modules)
        self.cids = self.generator.callables()
        self.path = os.path.join(SITE, 'libs', f'{seed}-{tag}-{modules}')
        dlib.install(self.path, self.generator)
        for top, _, names in os.walk(self.path):
            for name in names:
                os.utime(os.path.join(top, name), (dsim.EPOCH - 9000, dsim.EPOCH - 9000))
        os.makedirs(os.path.join(self.path, 'empty'), exist_ok=True)


class RealLib:
    """The stub library of the installed mypy and the standard library of the interpreter."""
    real = True

    def __init__(self):
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pool.json')) as file:
            self.cids = [f'{row[0]}:{row[1]}' for row in json.load(file)]
        self.path = os.path.join(SITE, 'libs', 'real')
        os.makedirs(self.path)
        # modules of the standard library are found where the interpreter finds them
        origin = importlib.util.find_spec('mypy').origin
        os.symlink(os.path.dirname(origin), os.path.join(self.path, 'mypy'))


def real_lib():
    if 'real' not in LIBS:
        LIBS['real'] = RealLib()
    return LIBS['real']


def lib(seed, tag='p', modules=2):
    key = seed, tag, modules
    if key not in LIBS:
        LIBS[key] = Lib(*key)
    return LIBS[key]


class Broken:
    """A library some modules of which cannot be imported."""

    def __init__(self, library, broken):
        from props.d09 import BREAKAGES, NEIGHBOURS
        self.path = os.path.join(SITE, 'libs', 'broken')
        shutil.rmtree(self.path, ignore_errors=True)
        shutil.copytree(library.path, self.path, ignore=lambda d, names: [
            n for n in names if n == '__pycache__'])
        affected = set(broken)
        modules = {m.name: ''.join(m.code) for m in library.generator.modules}
        for name, how in broken.items():
            text = BREAKAGES[how]
            if text is None:
                text = modules.get(name, 'def f0(a): pass\n') + "raise ImportError('late')\n"
            base = dlib.base_of(name)
            path = os.path.join(self.path, 'stdlib', base + '.py')
            if name in NEIGHBOURS:
                stub = os.path.join(self.path, 'mypy', 'typeshed', 'stdlib', base + '.pyi')
                with dhook.real.open(stub, 'w') as file:
                    file.write('def f0(a: int) -> str: ...\n')
                os.utime(stub, (dsim.EPOCH - 9000, dsim.EPOCH - 9000))
            elif not os.path.exists(path):
                continue
            with dhook.real.open(path, 'w', encoding='utf-8', errors='surrogatepass') as file:
                file.write(text)
            os.utime(path, (dsim.EPOCH - 9000, dsim.EPOCH - 9000))
        while True:
            more = {name for name, code in modules.items() if name not in affected
                    and any(f'from {x} import' in code or name.startswith(x + '.')
                            for x in affected)}
            if not more:
                break
            affected |= more
        self.affected = affected
        self.cids = [cid for cid in library.cids if cid.partition(':')[0] not in affected]
        # finding K6: specialisations of classes with the same name share what they refer to
        twins = [m for m in library.generator.modules if m.twins]
        self.namesakes = ({cid for m in twins for cid in m.twins}
                          if any(m.name in affected for m in twins) else set())


def broken(library, how):
    return Broken(library, how)


class Machine:
    """Phases of simulated processes over one simulated disk."""

    def __init__(self, seed, decisions=None, library=None, now=100.0):
        self.seed = seed
        self.library = library
        self.now = now
        self.phase = 0
        self.given = decisions
        self.decisions = []
        self.fired, self.sites, self.kinds, self.probes = {}, {}, {}, {}
        self.log = self.interleaving = 0
        self.steps = self.switches = self.queries = 0
        self.violations = []
        self.began = now
        self.disk_files({})

    def disk_files(self, files):
        """Sets the contents of the disk."""
        disk = dsim.Disk(SITE, self.now)
        disk.rewrite(files)

    def snapshot(self):
        return dsim.Disk(SITE, self.now).files()

    def violate(self, kind, key, detail):
        self.violations.append({'kind': kind, 'key': key, 'detail': detail})

    def run(self, procs, p=0.1, lines=None, faults=(), crash=None, actions=(), config=None,
            trace=None, max_steps=None):
        """One phase: [(role, spec), ...] until all processes have ended (or the crash)."""
        rng = random.Random(f'{self.seed}:phase{self.phase}')
        given = None
        if self.given is not None:
            given = self.given[self.phase] if self.phase < len(self.given) else []
        host = dsim.Host(SITE, rng, given, p, lines, self.now)
        host.config = {'lib': self.library.path, 'seed': f'{self.phase}', **(config or {})}
        if getattr(self.library, 'real', False):
            host.config['real'] = True
        if lines:
            host.config['mode'] = 'line'
        host.faults = [dict(f) for f in faults]
        host.crash = dict(crash) if crash else None
        host.trace = trace
        if max_steps:
            host.max_steps = max_steps
        phase = Phase(host)
        self.phase += 1
        try:
            host.actions = [dict(a) for a in actions]
            for action in host.actions:
                action['do'] = lambda a=action: phase_action(self, host, a)
            for role, spec in procs:
                lib_ = spec.pop('library', None) or self.library
                spec.setdefault('cids', lib_.cids)
                if spec.get('exec') is not None:
                    proc = host.start_exec(role, self.exec_command(lib_, spec))
                else:
                    proc = host.start(role, dprog.program(SITE, lib_.path, spec),
                                      prepare=lambda: None)
                proc.spec = spec
            host.run()
            phase.failure = host.failure
            phase.crashed = host.crashed
            phase.procs = list(host.procs)
            if host.crashed is not None:
                phase.kept = host.reboot()
            elif host.crash is not None and host.crash.get('after') and host.failure is None:
                host.strikes('power loss', 'afterwards')
                phase.kept = host.reboot()
        except dsim.Stall as error:
            phase.failure = ('stall', str(error))
            phase.procs = list(host.procs)
        finally:
            host.close()
        self.now = host.now
        self.decisions.append(host.recorded if given is None else given)
        for mine, its in ((self.fired, host.fired), (self.sites, host.sites),
                          (self.kinds, host.kinds)):
            for key, n in its.items():
                mine[key] = mine.get(key, 0) + n
        self.log = dsim.mix(self.log, host.log)
        self.interleaving = dsim.mix(self.interleaving, host.interleaving)
        self.steps += host.steps
        self.switches += host.switches
        for proc in phase.procs:
            for kind, value in proc.results:
                if isinstance(value, dict):
                    self.queries += len(value.get('answers', ()))
        return phase

    def exec_command(self, lib_, spec):
        path = os.path.join(SITE, f'spec{self.phase}.json')
        with open(path, 'w') as file:
            json.dump(spec, file)
        here = dprog.HERE
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env.update(PYTHONPATH=':'.join([os.path.join(here, 'spawnhook'), SITE, lib_.path,
                                        os.path.join(lib_.path, 'stdlib'), here]),
                   PYTHONHASHSEED=str(spec['exec']), PDSIM_SITE=SITE, PDSIM_SPEC=path,
                   PDSIM_ADDR=os.path.join(SITE, 'sock'))
        return [sys.executable, '-W', 'ignore', '-c', 'import dprog; dprog.exec_main()'], env

    def wait(self, seconds):
        self.now = round(self.now + seconds, 6)

    def result(self, **extra):
        return {'violations': self.violations, 'decisions': self.decisions, 'steps': self.steps,
                'switches': self.switches, 'queries': self.queries, 'fired': self.fired,
                'log': self.log, 'interleaving': self.interleaving,
                'probes': {**self.probes, **{f'point {k}': n for k, n in self.kinds.items()}},
                'now': round(self.now - self.began, 3), 'sites': sorted(self.sites), **extra}


def phase_action(machine, host, action):
    raise NotImplementedError(action)


class Phase:
    def __init__(self, host):
        self.host = host
        self.failure = self.crashed = self.kept = None
        self.procs = []

    def proc(self, role):
        for proc in self.procs:
            if proc.role == role:
                return proc
        return None

    def results(self, role=None, kind='attempt'):
        return [value for proc in self.procs if role is None or proc.role == role
                or proc.role.startswith(role + '/')
                for k, value in proc.results if k == kind]


def start(**spec):
    return {'ops': [['start']], **spec}


class Golden:
    """What undisturbed starts do with a library: answers, disk, how often they pass which point."""

    def __init__(self, library):
        machine = Machine('golden', None, library)
        trace = []
        cold = machine.run([('a', start())], p=0, trace=trace)
        self.cold = cold
        self.problem = None
        self.answers = None
        attempts = cold.results('a')
        if cold.failure or not attempts or 'answers' not in attempts[0]:
            self.problem = ('cold-start', f'an undisturbed first start fails: {cold.failure}'
                            f' {attempts[:1]}')
            return
        self.answers = attempts[0]['answers']
        self.warnings = attempts[0]['warnings']
        self.disk = machine.snapshot()
        self.trace = trace
        self.profile = {}
        for _, role, kind, where in trace:
            self.profile.setdefault((role, kind), []).append(where)
        self.totals = {}
        for _, role, _, _ in trace:
            self.totals[role] = self.totals.get(role, 0) + 1
        machine.wait(5)
        trace = self.warm_trace = []
        warm = machine.run([('a', start())], p=0, trace=trace)
        self.warm_profile = {}
        for _, role, kind, where in trace:
            self.warm_profile.setdefault((role, kind), []).append(where)
        self.warm_total = len(trace)
        self.warm = warm
        self.now = machine.now


def golden(library):
    key = library.path
    if key not in GOLDEN:
        with aside():
            GOLDEN[key] = Golden(library)
    return GOLDEN[key]


@contextlib.contextmanager
def aside():
    """Leaves the disk as it was."""
    files = dsim.Disk(SITE, 0).files()
    try:
        yield
    finally:
        dsim.Disk(SITE, 0).rewrite(files)


def import_effects(library, names):
    """What regular imports of these modules change by themselves."""
    r, w = dhook.real.pipe()
    pid = dhook.real.fork()
    if not pid:
        found = []
        try:
            dprog.enter(SITE, library.path, {})
            found = hoststate.import_effects(names)
        finally:
            with dhook.real.open(w, 'w') as file:
                json.dump(found, file)
            dhook.real.exit(0)
    dhook.real.close(w)
    with dhook.real.open(r) as file:
        found = json.load(file)
    dhook.real.waitpid(pid, 0)
    return set(found)


def difference(answers, expected):
    """The first answers that are not the expected ones."""
    rows = [(cid, answers.get(cid), text) for cid, text in expected.items()
            if answers.get(cid) != text]
    if not rows:
        return None
    cid, got, text = rows[0]
    return (f'{len(rows)} of {len(expected)} answers differ, first {cid}: got {str(got)[:300]}'
            f' instead of {str(text)[:300]}')


def judge_attempt(machine, attempt, expected, who, may_fail=False, kind='wrong-answer'):
    """Every attempt succeeds with the right answers, or (if allowed) fails."""
    if attempt.get('stray'):
        machine.violate('harness', 'stray', f'library loaded from {attempt["stray"]}')
    if 'error' in attempt:
        if not may_fail:
            machine.violate('start-failed', f'{who}:{attempt["error"]}',
                            f'{who}: importing the library fails: {attempt["text"][:400]}'
                            f' at {attempt.get("frames")}; warnings {attempt["warnings"][:2]}')
        return False
    diff = difference(attempt['answers'], expected)
    if diff is not None:
        machine.violate(kind, who, f'{who}: {diff}; warnings {attempt["warnings"][:2]}')
        return False
    return True


def heal(machine, expected, who='healed', warm=True, config=None):
    """Once nothing disturbs starts any more: a start works, and the one after it is warm."""
    machine.wait(3)
    phase = machine.run([('a', start())], p=0, config=config)
    attempts = phase.results('a')
    if phase.failure:
        machine.violate(phase.failure[0], f'{who} start', f'undisturbed start: {phase.failure[1]}')
        return False
    if not attempts:
        machine.violate('start-died', f'{who} start', 'an undisturbed start dies')
        return False
    if not judge_attempt(machine, attempts[0], expected, f'first undisturbed start ({who})'):
        return False
    if not warm:
        return True
    machine.wait(3)
    before = machine.snapshot()
    phase = machine.run([('a', start())], p=0, config=config)
    attempts = phase.results('a')
    if phase.failure or not attempts:
        machine.violate('start-died', f'{who} second start', f'second undisturbed start: {phase.failure}')
        return False
    if not judge_attempt(machine, attempts[0], expected, f'second undisturbed start ({who})'):
        return False
    return is_warm(machine, phase, before, f'second undisturbed start ({who})')


def is_warm(machine, phase, before, who):
    helpers = [p.role for p in phase.procs if '/' in p.role]
    if helpers:
        machine.violate('not-warm', f'{who}:helper', f'{who}: the cache is complete, yet helper'
                        f' processes are started: {helpers}')
        return False
    # byte code of a cache file may be missing: the import system writes it when it can
    changed = [x for x in changes(before, machine.snapshot()) if '.pyc' not in x]
    if changed:
        machine.violate('not-warm', f'{who}:modified', f'{who}: the cache is complete, yet the start'
                        f' modifies {changed}')
        return False
    return True


def changes(before, after):
    strip = len(SITE) + 1
    return sorted(path[strip:] for path in {*before, *after}
                  if before.get(path) != after.get(path))
