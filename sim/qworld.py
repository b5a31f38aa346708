"""Worker side of the query simulator: golden answers and simulated histories."""
import builtins
import collections
import gc
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import warnings
import zlib

import simsched as sched

sched.install()

import canon
import dynamic
import hoststate
import instrument
import universe

import paradigm  # noqa: the package under test, from the scratch installation
import paradigm.base as api

HERE = os.path.dirname(os.path.abspath(__file__))
POOL = [tuple(row) for row in json.load(open(os.path.join(HERE, 'pool.json')))]
BY_TAG = {}
for _row in POOL:
    for _tag in _row[3]:
        BY_TAG.setdefault(_tag, []).append(_row)
TAGS = sorted(tag for tag, rows in BY_TAG.items() if len(rows) > 1)
TAGGED = [row for row in POOL if row[3]]
CATALOG = {f'{m}:{p}': (m, p, n) for m, p, n, _ in POOL}

warnings.simplefilter('ignore')


def forked(function, timeout=60):
    """Runs function in a fork; returns its JSON result, or an error record."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        os.close(r)
        try:
            signal.alarm(timeout + 5)
            data = json.dumps(function())
        except BaseException:  # noqa
            import traceback
            data = json.dumps({'harness': traceback.format_exc()})
        try:
            view = data.encode()
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    end = sched.real_monotonic() + timeout
    stalled = False
    while True:
        left = end - sched.real_monotonic()
        ready = select.select([r], [], [], max(left, 0))[0]
        if not ready:
            stalled = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    if stalled:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if stalled:
        return {'stall': True}
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'harness': 'no result from child'}


def resolve(cid):
    if cid.startswith('dyn:'):
        _, kind, n = cid.split(':')
        return dynamic.make(kind, int(n))
    module, path = cid.split(':')
    return universe.load(module, path)


def _own(cid):
    return cid if cid.startswith('dyn:') else cid.split(':')[0]


_golden = {}


def golden(cid):
    """Answer of a pristine process that does nothing but this one query."""
    try:
        return _golden[cid]
    except KeyError:
        pass
    result = forked(lambda: _measure(cid))
    if 'text' not in result:
        raise HarnessError(f'golden answer of {cid}: {result}')
    _golden[cid] = result
    return result


class HarnessError(Exception):
    pass


def _measure(cid):
    try:
        value = resolve(cid)
    except Exception as error:
        return {'text': 'UNAVAILABLE', 'skip': True, 'why': repr(error),
                'calls': 0, 'exts': 0, 'equal': False, 'hash': False}
    instrument.PROBE = probe = [0, 0]
    instrument.enable('call')
    first, text = canon.outcome(api.signature_from_callable, value)
    calls, exts = probe
    instrument.enable(None)
    second, again = canon.outcome(api.signature_from_callable, value)
    equal = hashable = False
    if first is not None and second is not None:
        try:
            equal = bool(first == second)
        except Exception:
            pass
        try:
            hashable = hash(first) == hash(second)
        except Exception:
            pass
    return {'text': text, 'again': again == text, 'calls': calls, 'exts': exts,
            'equal': equal, 'hash': hashable}


class Op:
    """A query in progress."""
    __slots__ = ('fault', 'fired', 'seen', 'fault_where')

    def __init__(self, fault):
        self.fault, self.fired, self.seen, self.fault_where = fault, False, 0, None


class Run:
    """Executes one workload in the current (throw-away) process."""

    def __init__(self, workload, decisions, goldens, snapshot=None):
        self.w, self.goldens = workload, goldens
        self.violations = []
        self.held = []  # (cid, signature)
        self.kept = []  # exceptions
        self.values = {}
        self.slots = {}
        self.serial = 0
        self.fired = {}
        self.queries = 0
        self.probes = {}
        self.fault_sites = []
        self.snapshot = snapshot
        self.decisions = decisions
        self.changes = self.added = None
        self.actors = {}
        self.born = []  # (cid, weak references) of callables made by the program
        instrument.ACT, instrument.ASK = self.act, self.ask

    def violate(self, kind, key, detail, answer=None):
        if self.snapshot and kind in ('wrong-answer', 'unequal', 'unequal-hash'):
            return  # what the answers are is not a matter of the state of the host process
        if answer is not None:
            # known findings are identified by the callable and the wrong answer
            key += f'#{zlib.crc32(answer.encode()):08x}'
        self.violations.append({'kind': kind, 'key': key, 'detail': detail})

    def value(self, cid):
        try:
            return self.values[cid]
        except KeyError:
            value = self.values[cid] = self.make(cid)
            return value

    def make(self, cid):
        value = resolve(cid)
        if cid.startswith('dyn:') and self.w.get('rounds'):
            self.born.append((cid, dynamic.references(cid.split(':')[1], value)))
        return value

    def query(self, cid, value, hold, fault, where, serial=0):
        s = sched.active()
        op = Op(fault)
        task = s.cur if s is not None else None
        if task is not None:
            task.op = op
        self.queries += 1
        try:
            result, text = canon_outcome(value, task, self.kept if self.w.get('keep') else None)
        finally:
            if task is not None:
                task.op = None
        expected = self.goldens[cid]['text']
        if op.fired and 'exc' not in fault:
            key = 'query' if 'query' in fault else 'host'
            self.fired[key] = self.fired.get(key, 0) + 1
        elif op.fired:
            key = f'{fault["at"]}:{fault["exc"]}'
            self.fired[key] = self.fired.get(key, 0) + 1
            self.fault_sites.append(op.fault_where)
            if text.startswith('EXC ' + fault['exc']):
                return
            if text != expected:
                self.violate('fault-swallowed', cid,
                             f'{where}: injected {fault["exc"]} at {op.fault_where} neither'
                             f' reached the caller nor left the answer intact: {diff(expected, text)}')
            return
        if text != expected:
            self.violate('wrong-answer', cid, f'{where}: {diff(expected, text)}', text)
        elif hold and result is not None:
            self.held.append((cid, serial, result))

    def apply(self, op, where):
        kind = op[0]
        s = sched.active()
        if s is not None:
            s.point('op', where)
        if kind == 'q':
            _, cid, hold, fault = op
            self.query(cid, self.value(cid), hold, fault, where)
        elif kind == 'import':
            try:
                with warnings.catch_warnings():
                    importlib.import_module(op[1])
            except Exception:
                pass
        elif kind == 'host':
            self.act(op[1])
        elif kind == 'gc':
            gc.collect()
        elif kind == 'drop':
            self.held.clear()
        elif kind == 'mk':
            self.serial += 1
            self.slots[op[1]] = (op[2], self.make(op[2]), self.serial)
        elif kind == 'qs':
            if op[1] in self.slots:
                cid, value, serial = self.slots[op[1]]
                self.query(cid, value, op[2], None, where, serial)
        elif kind == 'del':
            self.slots.pop(op[1], None)
        elif kind == 'use':
            for cid, serial, signature in self.held[-op[1]:]:
                self.use(signature)
        elif kind == 'fork':
            self.fork(op[1], where)
        else:
            raise ValueError(op)

    def use(self, signature):
        """What a program does with signatures that it has."""
        repr(signature)
        for arguments in ((), (0,), (0, 0)):
            signature.expects(*arguments)
            try:
                signature.bind(*arguments)
            except TypeError:
                pass
        self.probes['uses'] = self.probes.get('uses', 0) + 1

    def ask(self, cid):
        """A query in the middle of another one of the same thread."""
        s = sched.active()
        task = s.cur
        op = task.op
        try:
            self.query(cid, self.value(cid), True, None, f'within {op.fault_where}')
        finally:
            task.op = op

    def act(self, what):
        """The program changes some state of its process on its own."""
        if what not in self.actors:
            self.actors[what] = actor = hoststate.Actor(what)
            s, instrument.ACT = sched.CURRENT, None
            task, op = (s.cur, s.cur.op) if s is not None else (None, None)
            if task is not None:
                task.op = None
            try:
                actor.act()
            finally:
                instrument.ACT = self.act
                if task is not None:
                    task.op = op
            key = 'host:' + what
            self.fired[key] = self.fired.get(key, 0) + 1

    def fork(self, ops, where):
        r, w = os.pipe()
        s = sched.active()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pid = os.fork()
        if not pid:
            os.close(r)
            report = []
            try:
                self.violations = []
                self.held = []
                try:
                    for i, op in enumerate(ops):
                        self.apply(op, f'{where}/child {i}')
                    self.compare_held('child')
                except sched.SimAbort:
                    pass
                report = self.violations
                if s is not None and s.failure is not None:
                    report = report + [{'kind': s.failure[0], 'key': 'fork',
                                        'detail': 'in forked child: ' + s.failure[1]}]
            except BaseException:  # noqa
                import traceback
                report = [{'kind': 'harness-error', 'key': '',
                           'detail': traceback.format_exc()}]
            finally:
                data = json.dumps(report).encode()
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        os.waitpid(pid, 0)
        self.fired['fork'] = self.fired.get('fork', 0) + 1
        self.violations += json.loads(data) if data else [
            {'kind': 'child-died', 'key': 'fork', 'detail': f'{where}: no report'}]

    def compare_held(self, where):
        seen = {}
        for cid, serial, signature in self.held:
            first = seen.setdefault((cid, serial), signature)
            if first is signature:
                continue
            g = self.goldens[cid]
            self.probes['compared'] = self.probes.get('compared', 0) + 1
            if g['equal']:
                try:
                    ok = bool(first == signature) and bool(signature == first)
                except Exception as error:
                    ok = False
                    where += f' ({canon.exception(error)})'
                if not ok:
                    self.violate('unequal', cid,
                                 f'{where}: two signatures of the same callable differ')
            if g['hash'] and hash(first) != hash(signature):
                self.violate('unequal-hash', cid,
                             f'{where}: two signatures of the same callable hash differently')

    def growth(self, ops):
        """Repeats queries and looks for what piles up."""
        sizes = [None] * ROUNDS

        def rounds():
            for n in range(ROUNDS):
                for _ in range(2):
                    for i, op in enumerate(ops):
                        self.apply(op, f'round {n} op {i}')
                del self.fault_sites[:]
                self.held.clear()
                gc.collect()
                sizes[n] = accumulated()

        gc.unfreeze()
        s = sched.Sched(rng=None, decisions=[])
        s.spawn(rounds)
        instrument.enable('call')
        failure = s.run()
        instrument.enable(None)
        if failure is not None:
            if failure[0] == 'harness-error':
                raise HarnessError(failure[1])
            self.violate(failure[0], 'rounds', failure[1])
            return
        for n, what in enumerate(('objects', 'items')):
            values = [row[n] for row in sizes[2:]]
            if all(a < b for a, b in zip(values, values[1:])):
                self.violate('accumulated', what, f'the number of {what} in the process keeps growing'
                             f' while the same queries are repeated: {values}')

    def released(self):
        self.held.clear()
        self.slots.clear()
        self.values.clear()
        gc.collect()
        for cid, references in self.born:
            self.probes['released'] = self.probes.get('released', 0) + len(references)
            alive = [r() for r in references if r() is not None]
            if alive:
                self.violate('kept-alive', cid.split(':')[1], f'{cid}: {type(alive[0]).__name__} is'
                             ' alive after the program has dropped it')

    def run(self, seed):
        w = self.w
        gc.disable()
        for cid in w.get('preload', ()):
            self.value(cid)
        if self.snapshot:
            before = self.snapshot.take(self)
        for i, op in enumerate(w.get('pre', ())):
            self.apply(op, f'pre {i}')
        rng = random.Random(f'{seed}:schedule') if self.decisions is None else None
        stats = {}
        s = sched.Sched(rng=rng, decisions=self.decisions, p=w.get('p', 0.0))
        if w['tasks']:
            for n, ops in enumerate(w['tasks']):
                s.spawn(lambda n=n, ops=ops: [self.apply(op, f'task {n} op {i}')
                                              for i, op in enumerate(ops)])
            instrument.enable(w.get('trace'))
            failure = s.run()
            instrument.enable(None)
            if failure is not None:
                if failure[0] == 'harness-error':
                    raise HarnessError(failure[1])
                self.violate(failure[0], 'schedule', failure[1])
        if not self.violations:
            for i, op in enumerate(w.get('post', ())):
                self.apply(op, f'post {i}')
            self.compare_held('end')
        if w.get('rounds') and not self.violations:
            self.growth(w['rounds'])
            self.released()
        for what, actor in self.actors.items():
            if actor.lost():
                self.violate('host-changed', 'lost ' + what, f'{what}: the change that the program'
                             f' made during the queries is undone')
        for actor in self.actors.values():
            if not self.violations:
                actor.undo()
        if self.snapshot and not self.violations:
            self.snapshot.compare(self, before, self.snapshot.take(self))
        return {'violations': self.violations[:5], 'decisions': s.recorded,
                'steps': s.steps, 'switches': s.switches, 'queries': self.queries,
                'fired': self.fired, 'log': s.log_hash, 'interleaving': s.switch_hash,
                'probes': self.probes, 'now': s.now, 'sites': self.fault_sites,
                'changes': self.changes, 'added': self.added}


ROUNDS = 7
_CONTAINERS = frozenset([list, dict, set, collections.deque, collections.OrderedDict,
                         collections.defaultdict])


def accumulated():
    """Numbers of objects and of items of containers."""
    objects = gc.get_objects()
    return len(objects), sum(len(o) for o in objects if type(o) in _CONTAINERS and o is not objects)


def canon_outcome(value, task, kept=None):
    """Query only is instrumented; the canonical form is computed outside of the simulation."""
    try:
        result = api.signature_from_callable(value)
    except BaseException as error:  # noqa
        if getattr(error, '__sim_abort__', False):
            raise
        if task is not None:
            task.op = None
        if kept is not None:
            # with the frames of the failed query
            kept.append(error)
        return None, 'EXC ' + canon.exception(error)
    if task is not None:
        task.op = None
    return result, canon.signature(result)


def diff(expected, got):
    if expected == got:
        return 'same'
    i = 0
    while i < min(len(expected), len(got)) and expected[i] == got[i]:
        i += 1
    i = max(0, i - 60)
    return f'expected ...{expected[i:i + 300]!r} got ...{got[i:i + 300]!r}'


def cids_of(workload):
    found = set()

    def walk(ops):
        for op in ops:
            if op[0] == 'q':
                found.add(op[1])
                if op[3] is not None and 'query' in op[3]:
                    found.add(op[3]['query'])
            elif op[0] == 'mk':
                found.add(op[2])
            elif op[0] == 'fork':
                walk(op[1])

    walk(workload.get('pre', ()))
    walk(workload.get('post', ()))
    walk(workload.get('rounds', ()))
    for ops in workload['tasks']:
        walk(ops)
    return sorted(found)


def unexplained(cids, names):
    """New modules that neither define types involved nor are imported by those that do."""
    from paradigm._core import catalog, modules, stubs
    if any(cid.startswith('dyn:') for cid in cids):
        return []

    def referred(path):
        found = {referent[0] for referent in stubs.references.get(path, {}).values()}
        found.update(stubs.submodules.get(path, ()))
        for bases in stubs.superclasses.get(path, {}).values():
            found.update(base[0] for base in bases)
        return found

    queue = []
    for cid in cids:
        value = resolve(cid)
        owner = getattr(value, '__objclass__', None) or getattr(value, '__self__', None)
        for part in (value, owner, type(owner)):
            if not callable(part):
                continue
            module_path, object_path = catalog.qualified_path_from(part)
            queue.append(module_path)
            for alias, _ in modules.supported_stdlib_qualified_paths.get(module_path, {}).get(
                    object_path, ()):
                queue.extend(referred(alias))
    involved = set()
    while queue:
        path = queue.pop()
        if path not in involved:
            involved.add(path)
            queue.extend(referred(path))
    paths = {name: tuple(name.split('.')) for name in names}
    if all(path in involved or path not in stubs.references for path in paths.values()):
        return []
    for path in involved:
        try:
            importlib.import_module('.'.join(path))
        except BaseException:  # noqa
            pass
    return [name for name in names if name not in sys.modules and paths[name] in stubs.references]


def execute(workload, seed, decisions=None, snapshot=None):
    goldens = {}
    for cid in cids_of(workload):
        g = golden(cid)
        if g.get('skip'):
            return {'violations': [], 'skipped': cid}
        if not g['again']:
            return {'violations': [], 'skipped': cid}
        goldens[cid] = g
    result = forked(lambda: Run(workload, decisions, goldens, snapshot).run(seed))
    changes = result.pop('changes', None)
    if result.get('added'):
        for name in forked(lambda: unexplained(cids_of(workload), result['added']), 120):
            result['violations'].append({
                'kind': 'host-changed', 'key': f'module {name} imported',
                'detail': f'module {name}, which no stub involved refers to, is imported'})
    if changes:
        # what regular imports of the same modules do by themselves is not the query's doing
        names = result['added']

        def control():
            for cid in workload.get('preload', ()):
                resolve(cid)
            return hoststate.import_effects(names)

        allowed = set(forked(control)) if names else set()
        for change in changes:
            if change not in allowed:
                result['violations'].append({'kind': 'host-changed', 'key': change.split(':')[0],
                                             'detail': change})
    return result
