"""Workloads of the host simulator: a sequence of steps over one machine.

{'lib': seed, 'steps': [step, ...]} where a step is one of
  {'do': 'disk', 'is': 'empty' | 'warm' | 'foreign' | ...}   what is on the disk
  {'do': 'run', 'procs': [[role, spec], ...], ...}            processes until they end
  {'do': 'heal'}                                             undisturbed starts
"""
import copy
import random

WRITES = 'open:w|write|close|rename|unlink|mkdir|meta|fsync'


def library(rng):
    """Few libraries are used by most runs, since each costs a golden start."""
    return rng.randrange(12) if rng.random() < 0.85 else rng.randrange(12, 400)


def describe(w):
    return sum(len(s.get('procs', (1,))) for s in w['steps'])


def execute(world, w, seed, decisions, kinds, rules=None):
    if w['lib'] == 'real':
        return execute_real(world, w, seed, decisions, kinds)
    library = world.lib(w['lib'], w.get('tag', 'p'), w.get('modules', 2))
    g = world.golden(library)
    if w.get('broken'):
        library = world.broken(library, w['broken'])
    machine = world.Machine(seed, decisions, library, w.get('now', 100.0))
    if g.problem:
        machine.violate(*g.problem[:1], 'cold-start', g.problem[1])
        return machine.result()
    context = Context(world, w, machine, library, g)
    for number, step in enumerate(w['steps']):
        getattr(context, 'do_' + step['do'])(number, step)
        if any(v['kind'] in kinds for v in machine.violations):
            break
    machine.violations = [v for v in machine.violations
                          if v['kind'] in kinds or v['kind'] == 'harness']
    return machine.result(**context.extra)


def is_real(world, runs):
    """Some runs of a search use the real stub library."""
    return 8 <= getattr(world, 'RUN', 0) % 400 < 8 + runs


def real_start(rng, **extra):
    """A start of an interpreter of its own."""
    return step_run([['a', start(exec=rng.randrange(1, 1000))]],
                    config={'dirs': rng.choice([None, 1, 2, 3, 4]), 'chunk': 65536}, **extra)


def real_workload(rng, steps, count=2400):
    return {'lib': 'real', 'part': rng.randrange(1 << 30), 'count': count, 'steps': steps}


def execute_real(world, w, seed, decisions, kinds):
    """All starts on one real stub library give the same answers."""
    library = world.real_lib()
    machine = world.Machine(seed, decisions, library)
    context = Context(world, w, machine, library, None)
    expected = None
    machine.probes['runs with the real stub library'] = 1
    for number, step in enumerate(w['steps']):
        if step['do'] != 'run':
            context.do_disk(number, step)
            continue
        machine.wait(step.get('wait', 0))
        spec = copy.deepcopy(step['procs'][0][1])
        rng = random.Random(w['part'])
        spec['cids'] = sorted(rng.sample(library.cids, w['count']))
        before = machine.snapshot()
        phase = machine.run([('a', spec)], 0, config=step['config'], max_steps=10 ** 6)
        who = f'step {number} process a'
        attempts = phase.results('a')
        if phase.failure or not attempts:
            machine.violate(*(phase.failure or ('died', 'the process ends prematurely'))[:1], who,
                            f'{who}: {phase.failure}')
            break
        if expected is None:
            expected = attempts[0].get('answers')
        if not world.judge_attempt(machine, attempts[0], expected or {}, who):
            break
        if step.get('warm'):
            world.is_warm(machine, phase, before, who)
    machine.violations = [v for v in machine.violations
                          if v['kind'] in kinds or v['kind'] == 'harness']
    return machine.result()


class Context:
    def __init__(self, world, w, machine, library, g):
        self.world, self.w, self.machine, self.library, self.g = world, w, machine, library, g
        self.extra = {}

    def other(self, tag):
        return self.world.lib(self.w['lib'], tag, self.w.get('modules', 2))

    def expected(self, spec):
        tag = spec.get('tag')
        g = self.g if tag is None else self.world.golden(self.other(tag))
        cids = spec.get('cids')
        if cids is None and self.w.get('broken'):
            cids = self.library.cids
        if cids is None:
            return g.answers
        apart = getattr(self.library, 'namesakes', ())
        return {cid: g.answers[cid] for cid in cids if cid not in apart}

    def judge_namesakes(self, value, who):
        apart = getattr(self.library, 'namesakes', ())
        diff = 'answers' in value and self.world.difference(
                value['answers'],
                {cid: self.g.answers[cid] for cid in self.library.cids if cid in apart})
        if diff:
            self.machine.violate('wrong-answer', 'namesakes', f'{who}: {diff}')

    def do_disk(self, number, step):
        machine = self.machine
        what = step['is']
        if what == 'empty':
            files = {}
        elif what == 'warm':
            files = self.g.disk
        elif what == 'foreign':
            # what another version has left
            files = self.foreign(step['tag'], step['version'])
        else:
            raise ValueError(what)
        if step.get('without'):
            files = {p: v for p, v in files.items() if step['without'] not in p}
        machine.disk_files(files)

    def foreign(self, tag, version):
        key = self.other(tag).path, version
        found = FOREIGN.get(key)
        if found is None:
            with self.world.aside():
                machine = self.world.Machine('foreign', None, self.other(tag))
                phase = machine.run([('a', self.world.start(version=version))], p=0)
                assert not phase.failure, phase.failure
                found = FOREIGN[key] = machine.snapshot()
        return found

    def do_wait(self, number, step):
        self.machine.wait(step['s'])

    def do_run(self, number, step):
        machine = self.machine
        machine.wait(step.get('wait', 0))
        procs = []
        for role, spec in step['procs']:
            spec = copy.deepcopy(spec)
            if spec.get('tag') is not None:
                spec['library'] = self.other(spec['tag'])
            procs.append((role, spec))
        before = machine.snapshot() if step.get('warm') or step.get('tidy') else None
        config = {'chunk': 8192, **step.get('config', {})}
        phase = machine.run(procs, step.get('p', 0), step.get('lines'), step.get('faults', ()),
                            step.get('crash'), config=config)
        self.phase = phase
        if phase.failure:
            machine.violate(phase.failure[0], f'step {number}',
                            f'step {number}: {phase.failure[1]}')
            return
        mayfail = step.get('mayfail', ())
        for proc in phase.procs:
            spec = getattr(proc, 'spec', None)
            if spec is None:
                continue
            ended = False
            who = f'step {number} process {proc.role}'
            for kind, value in proc.results:
                if kind == 'attempt':
                    self.judge_namesakes(value, who)
                    if step.get('alone') and value.get('alive'):
                        machine.violate('left-behind', 'helper', f'{who}: the import has failed, yet'
                                        f' {value["alive"]} are still running')
                    self.world.judge_attempt(
                            machine, value, self.expected(spec), who,
                            mayfail is True or proc.role in mayfail
                            or (value['op'] != 'again' and 'first' in mayfail))
                elif kind == 'main' and value is not None:
                    machine.violate('main-module', 'main', f'{who}: the main module is {value}')
                elif kind == 'call':
                    self.judge_call(value, spec, who, bool(step.get('faults')))
                elif kind == 'codes':
                    if step.get('children') and any(value):
                        machine.violate('child-failed', 'code',
                                        f'{who}: its children end with codes {value}')
                elif kind == 'state':
                    self.judge_state(value, who, step)
                elif kind == 'end':
                    ended = True
            if not (ended or proc.killed or phase.crashed or phase.failure):
                machine.violate('died', who, f'{who}: ends prematurely')
        for proc in phase.procs:
            for kind, value in proc.results:
                if kind == 'child':
                    if step.get('children') == 'golden':
                        self.world.judge_attempt(machine, value, self.expected(spec_of(proc)),
                                                 f'step {number} child {proc.role}',
                                                 kind='child-wrong-answer')
                    elif step.get('children') and 'error' in value:
                        machine.violate('child-failed', f'child:{value["error"]}',
                                        f'step {number}: a child cannot import the library:'
                                        f' {value["text"]} at {value.get("frames")}')
        if step.get('warm') and not phase.failure:
            self.world.is_warm(machine, phase, before, f'step {number}')
        if step.get('alone') and phase.host.orphans:
            machine.violate('left-behind', 'orphan', f'step {number}: the importing process has died,'
                            f' its helpers remain for ever: {phase.host.orphans}')
        if step.get('tidy') and not any(key.startswith('unlink') for key in phase.host.fired):
            self.judge_files(before, f'step {number}')

    def judge_files(self, before, who):
        """What a start writes in order to replace the cache is gone when it has ended."""
        kept = [path for path in self.machine.snapshot()
                if path not in before and path not in self.g.disk and '__pycache__' not in path]
        if kept:
            self.machine.violate('left-behind', 'file', f'{who}: files that no undisturbed start'
                                 f' leaves: {kept[:3]}')

    def judge_state(self, value, who, step):
        """The state of the importing process."""
        machine = self.machine
        machine.probes['states compared'] = machine.probes.get('states compared', 0) + 1
        for what in value['lost']:
            machine.violate('host-changed', f'lost {what}', f'{who}: {what}: the change that the'
                            ' program made during the import is undone')
        # a failing fork or pipe leaves open what the interpreter has opened for it
        leaks = any(f.get('role') == 'a' and f.get('kind') != WRITES or 'call' in f
                    for f in step.get('faults', ()))
        changes = value['changes']
        if any(x.startswith(('attribute ', 'class ', 'exit ', 'locale', 'logging', 'decimal'))
               for x in changes):
            effects = self.world.import_effects(self.library, value['added'])
            changes = [x for x in changes if x not in effects]
        for change in changes:
            if not (leaks and change.startswith('descriptors ')):
                machine.violate('host-changed', change.partition(' from ')[0], f'{who}: {change}')
        generator = getattr(self.library, 'generator', None)
        names = {m.name for m in generator.modules} if generator is not None else ()
        for name in value['added']:
            if name in names:
                machine.violate('host-changed', 'module ' + name, f'{who}: {name} of the standard'
                                ' library is imported by the import of the library')

    def judge_call(self, value, spec, who, disturbed=False):
        machine = self.machine
        if value.get('skipped'):
            return
        machine.probes['direct calls'] = machine.probes.get('direct calls', 0) + 1
        n, action = value['n'], value['action']
        if action is None:
            good = value.get('value') == ['result', n, True]
        elif action == 'big':
            good = value.get('value') == [20000, n]
        elif action == 'raise':
            good = value.get('error') == 'ValueError' and str(n) in value.get('text', '')
        else:
            good = 'error' in value
        if disturbed and 'error' in value:
            good = True
        if not good:
            machine.violate('wrong-outcome', f'call:{action}',
                            f'{who}: the outcome of helper {n} ({action}) is {value}')

    def do_heal(self, number, step):
        self.world.heal(self.machine, self.g.answers, f'step {number}',
                        warm=step.get('warm', True), config=step.get('config'))


def spec_of(proc):
    while proc.parent is not None:
        proc = proc.parent
    return proc.spec


FOREIGN = {}


def shrink(w):
    if w['lib'] == 'real':
        if w['count'] > 100:
            yield {**w, 'count': w['count'] // 4}
        return
    for i in range(len(w['steps'])):
        s = copy.deepcopy(w)
        step = s['steps'].pop(i)
        if step['do'] != 'heal' or len(s['steps']) > 1:
            yield s
    for i, step in enumerate(w['steps']):
        if step['do'] != 'run':
            continue
        for j in range(len(step['procs'])):
            if len(step['procs']) > 1:
                s = copy.deepcopy(w)
                s['steps'][i]['procs'].pop(j)
                yield s
            ops = step['procs'][j][1].get('ops', [])
            for k in range(len(ops)):
                if len(ops) > 1:
                    s = copy.deepcopy(w)
                    s['steps'][i]['procs'][j][1]['ops'].pop(k)
                    yield s
        for j in range(len(step.get('faults', ()))):
            s = copy.deepcopy(w)
            s['steps'][i]['faults'].pop(j)
            yield s
        for key, simple in (('crash', None), ('p', 0), ('lines', None), ('wait', 0)):
            if step.get(key):
                s = copy.deepcopy(w)
                s['steps'][i][key] = simple
                yield s


def start(**spec):
    return {'ops': [['start']], **spec}


def languages(rng, w):
    """Users have locales of their own, and so do the default encodings of text files."""
    if rng.random() < 0.2:
        for step in w['steps']:
            if (step.get('procs') or step['do'] == 'heal') and rng.random() < 0.7:
                step.setdefault('config', {})['encoding'] = rng.choice(
                        ['ascii', 'latin-1', 'cp1251', 'shift_jis'])
    return w


def some(rng, g, n=10):
    cids = list(g.answers)
    return rng.sample(cids, min(n, len(cids)))


def position(rng, g, role='a', kinds=WRITES, warm=False):
    """The number of a point among those of the given kinds that a start passes."""
    trace = g.warm_trace if warm else g.trace
    among = [x for x in trace if x[1] == role and x[2] in kinds.split('|')]
    return rng.randint(1, max(1, len(among)))


def step_run(procs, **extra):
    return {'do': 'run', 'procs': procs, **extra}


def initial(rng, weights=('empty', 'empty', 'foreign', 'warm')):
    what = rng.choice(weights)
    step = {'do': 'disk', 'is': what}
    if what == 'foreign':
        step.update(tag=rng.choice('qp'), version=rng.choice(['4.2.9', '4.3.1', '0.0.1', '14.3.0']))
    elif what == 'warm' and rng.random() < 0.5:
        step['without'] = rng.choice(['stubs.py', 'modules.py', 'stubs.cpython', '.pyc',
                                      'modules.cpython'])
    return step
