"""Simulated histories of operations on shared signature and parameter values.

A value is named by an expression (how to get it from the base values); it is made once per run
and shared by all threads.  The reference for an operation is the same operation on freshly made
equal values in a process that does nothing else.
"""
import copy
import itertools
import json
import pickle
import random
import re
import typing as t

import canon
import instrument
import qworld
import simsched as sched

api = qworld.api
ANNOTATIONS = [int, str, t.Any, t.List[int], t.Optional[str], t.Union[int, str],
               t.Callable[[int], str], t.Dict[str, int], t.Literal['a', 'b'], t.Type[int],
               t.Tuple[int, ...], None, 'text', list[int], [int, 'x'], t.TypeVar('T')]
# values that are equal, yet not the same: groups of indices into TWINS
GROUPS = [[0, 1, 2], [3, 4, 5, 6], [7, 8], [9, 10], [11, 12]]
TWINS = [1, True, 1.0, 0, False, 0.0, -0.0, (1, 'x'), (True, 'x'), frozenset([2]),
         frozenset([2.0]), 3, 3 + 0j]
EXECUTION = None  # the execution hooks belong to


class Hook:
    """Annotation or default whose special methods are schedule, fault and re-entrance points."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        hooked(self, 'eq')
        return isinstance(other, Hook) and self.n == other.n

    def __hash__(self):
        hooked(self, 'hash')
        return hash(('Hook', self.n))

    def __repr__(self):
        hooked(self, 'repr')
        return f'Hook({self.n})'

    def __reduce__(self):
        hooked(self, 'reduce')
        return Hook, (self.n,)


def hooked(hook, what):
    s = sched.active()
    if s is None or EXECUTION is None:
        return
    s.point('op', f'hook {what}')
    EXECUTION.hooked(s.cur)


def atom(spec):
    kind, n = spec
    if kind == 'H':
        return Hook(n)
    if kind == 'T':
        return ANNOTATIONS[n % len(ANNOTATIONS)]
    if kind == 'B':
        return TWINS[n % len(TWINS)]
    if kind == 'L':
        return [n, [n]]
    if kind == 'D':
        return {'k': n, 'l': [n]}
    return n


KINDS = [api.ParameterKind.POSITIONAL_ONLY, api.ParameterKind.POSITIONAL_OR_KEYWORD,
         api.ParameterKind.VARIADIC_POSITIONAL, api.ParameterKind.KEYWORD_ONLY,
         api.ParameterKind.VARIADIC_KEYWORD]


def parameter(spec, make):
    kind, name, annotation, optional, default = spec
    if not optional:
        return api.RequiredParameter(annotation=make(annotation), kind=KINDS[kind], name=name)
    if default is None:
        return api.OptionalParameter(annotation=make(annotation), kind=KINDS[kind], name=name)
    return api.OptionalParameter(annotation=make(annotation), kind=KINDS[kind], name=name,
                                 default=make(default))


class Values:
    """Values by expression, each made once."""

    def __init__(self, shared=True):
        self.shared = shared
        self.memo = {}
        self.order = []
        self.atoms = {}

    def atom(self, spec):
        if not self.shared:
            return atom(spec)
        key = tuple(spec)
        if key not in self.atoms:
            self.atoms[key] = atom(spec)
        return self.atoms[key]

    def get(self, expression):
        if not self.shared:
            return self.make(expression)
        key = json.dumps(expression)
        if key in self.memo:
            return self.memo[key]
        value = self.make(expression)
        if key not in self.memo:  # another thread may have been faster
            self.memo[key] = value
            self.order.append(key)
        return self.memo[key]

    def make(self, expression):
        kind = expression[0]
        if kind == 'q':
            return api.signature_from_callable(qworld.resolve(expression[1]))
        if kind == 'plain':
            return api.PlainSignature(*[parameter(p, self.atom) for p in expression[1]],
                                      returns=self.atom(expression[2]))
        if kind == 'over':
            return api.OverloadedSignature(*[self.get(x) for x in expression[1]])
        if kind == 'parameter':
            return parameter(expression[1], self.atom)
        if kind == 'of':  # a parameter of a signature
            value = self.get(expression[1])
            value = getattr(value, 'signatures', [value])
            parameters = [p for s in value for p in s.parameters]
            return parameters[expression[2] % len(parameters)] if parameters else None
        if kind == 'bound':
            return self.get(expression[1]).bind(*self.args(expression[2]),
                                                **self.kwargs(expression[3]))
        if kind == 'pickled':
            return pickle.loads(pickle.dumps(self.get(expression[1])))
        raise ValueError(expression)

    def args(self, specs):
        return [self.atom(s) for s in specs]

    def kwargs(self, specs):
        return {k: self.atom(s) for k, s in specs.items()}

    def fingerprint(self):
        found = {key: description(self.memo[key]) for key in self.order}
        for key, value in self.atoms.items():
            found[str(key)] = canon.Canon().any(value)
        return found


def description(value):
    if hasattr(value, 'kind'):
        return canon.Canon().parameter(value)
    return canon.signature(value)


def perform(values, op):
    """Result of an operation as text."""
    try:
        do = op['do']
        if do == 'query':
            try:
                api.signature_from_callable(qworld.resolve(op['c']))
            except Exception:
                pass
            return 'asked'
        if op.get('fresh'):
            # of its own, not kept
            values = Values(shared=False)
        value = values.get(op['v'])
        if do in ('bind', 'expects', 'all_set'):
            args, kwargs = values.args(op['a']), values.kwargs(op['k'])
            return text(getattr(value, do)(*args, **kwargs))
        if do in ('eq', 'ne', 'in'):
            other = values.get(op['o'])
            if do == 'in':
                return text(value in (other, value))
            return text(value == other if do == 'eq' else value != other)
        if do == 'hash':
            return 'int' if isinstance(hash(value), int) else 'not an int'
        if do == 'key':
            return text({value: 1}.get(value))
        if do == 'repr':
            return canon._ADDRESS.sub('0x', repr(value))
        if do == 'str':
            return canon._ADDRESS.sub('0x', str(value))
        if do == 'pickle':
            return text(pickle.loads(pickle.dumps(value, op.get('p', 4))))
        if do == 'copy':
            return text(copy.copy(value))
        if do == 'deepcopy':
            return text(copy.deepcopy(value))
        if do == 'read':
            return text(value)
        raise ValueError(op)
    except BaseException as error:  # noqa
        if getattr(error, '__sim_abort__', False):
            raise
        return 'EXC ' + canon.exception(error)


def text(value):
    s = sched.active()
    task, op = (s.cur, s.cur.op) if s is not None else (None, None)
    if task is not None:
        task.op = None  # observing is not part of the operation
    try:
        return (repr(value) if value is None or isinstance(value, (bool, int))
                else description(value))
    finally:
        if task is not None:
            task.op = op


_reference = {}


def reference(op):
    if op['do'] == 'query':
        return {'text': 'asked', 'calls': 0}
    key = json.dumps([op['do'], op['v'], op.get('a'), op.get('k'), op.get('o'), op.get('p')])
    if key not in _reference:
        if len(_reference) > 5000:
            _reference.clear()

        def alone():
            instrument.PROBE = probe = [0, 0]
            instrument.enable('call')
            result = perform(Values(), op)
            instrument.enable(None)
            return {'text': result, 'calls': probe[0]}

        _reference[key] = qworld.forked(alone)
        if 'text' not in _reference[key]:
            raise qworld.HarnessError(f'{op}: {_reference[key]}')
    return _reference[key]


class Execution:
    def __init__(self, workload, references, decisions):
        self.w, self.references, self.decisions = workload, references, decisions
        self.values = Values()
        self.violations = []
        self.fired = {}
        self.sites = []
        self.done = 0

    def violate(self, kind, key, detail):
        self.violations.append({'kind': kind, 'key': key, 'detail': detail})

    def hooked(self, task):
        op = task.op
        if op is None or op.spec is None:
            return
        fault = op.fault
        if fault is not None and fault['at'] == 'hook' and not op.fired:
            op.seen += 1
            if op.seen >= fault['k']:
                op.fired = True
                op.fault_where = 'hook'
                raise instrument.EXCEPTIONS[fault['exc']]('injected')
        again = op.spec.get('r')
        if again is not None and not op.nested:
            op.hooks += 1
            if op.hooks >= again['at']:
                op.nested = True
                self.fired['re-entrance'] = self.fired.get('re-entrance', 0) + 1
                self.apply(again['op'], 'nested')
                task.op = op

    def apply(self, spec, where):
        s = sched.active()
        task = s.cur
        s.point('op', where)
        op = Operation(spec)
        before = task.op
        task.op = op
        try:
            result = perform(self.values, spec)
        finally:
            task.op = before
        self.done += 1
        expected = self.references[json.dumps(spec)]['text']
        if op.fired:
            key = f'{op.fault["at"]}:{op.fault["exc"]}'
            self.fired[key] = self.fired.get(key, 0) + 1
            self.sites.append(op.fault_where)
            if result.startswith('EXC ' + op.fault['exc']):
                return
        if result != expected:
            self.violate('different-result', label(spec),
                         f'{where}: {json.dumps(spec)[:500]}: {qworld.diff(expected, result)}')

    def run(self, seed):
        global EXECUTION
        EXECUTION = self
        w = self.w
        for expression in w['values']:
            try:
                self.values.get(expression)
            except Exception:
                pass
        for op in itertools.chain(*w['tasks'], w['post']):
            for spec in [*op.get('a', ()), *op.get('k', {}).values()]:
                self.values.atom(spec)
        before = self.values.fingerprint()
        hashes = self.hashes()
        rng = random.Random(f'{seed}:schedule') if self.decisions is None else None
        s = sched.Sched(rng=rng, decisions=self.decisions, p=w['p'])
        for n, ops in enumerate(w['tasks']):
            s.spawn(lambda n=n, ops=ops: [self.apply(op, f'task {n} op {i}')
                                          for i, op in enumerate(ops)])
        instrument.enable(w['trace'])
        failure = s.run()
        instrument.enable(None)
        if failure is not None:
            if failure[0] == 'harness-error':
                raise qworld.HarnessError(failure[1])
            self.violate(failure[0], 'schedule', failure[1])
        after = self.values.fingerprint()
        for key, value in before.items():
            if after[key] != value:
                self.violate('value-changed', 'value',
                             f'{key[:300]}: {qworld.diff(value, after[key])}')
        later = self.hashes()
        for key, value in hashes.items():
            if later[key] != value:
                self.violate('hash-changed', 'value', f'{key[:300]}: {value} -> {later[key]}')
        for i, op in enumerate(w['post']):
            if self.violations:
                break
            expected = self.references[json.dumps(op)]['text']
            result = perform(self.values, op)
            if result != expected:
                self.violate('different-result', label(op),
                             f'post {i}: {json.dumps(op)[:500]}: {qworld.diff(expected, result)}')
        return {'violations': self.violations[:5], 'decisions': s.recorded, 'steps': s.steps,
                'switches': s.switches, 'queries': self.done, 'fired': self.fired,
                'log': s.log_hash, 'interleaving': s.switch_hash, 'now': s.now,
                'sites': self.sites,
                'probes': {'values watched': len(before)}}

    def hashes(self):
        found = {}
        for key, value in self.values.memo.items():
            try:
                found[key] = hash(value)
            except TypeError:
                found[key] = None
        return found


def label(op):
    """What a known finding is identified by: the operation and the callables involved."""
    return ' '.join([op['do']] + sorted(set(re.findall(r'"q", "([^"]+)"', json.dumps(op.get('v', ['q', op.get('c')]))))))


class Operation(qworld.Op):
    __slots__ = ('spec', 'nested', 'hooks')

    def __init__(self, spec):
        super().__init__(spec.get('f'))
        self.spec, self.nested, self.hooks = spec, False, 0


def every(workload):
    for op in itertools.chain(*workload['tasks'], workload['post']):
        yield op
        if op.get('r'):
            yield op['r']['op']


def execute(workload, seed, decisions):
    references = {json.dumps(op): reference(op) for op in every(workload)}
    return qworld.forked(lambda: Execution(workload, references, decisions).run(seed))
