"""Shared signature values behave as immutable values."""
import copy

from .qcommon import describe, namesakes, same_names  # noqa

SERIES = 'q'
PREIMPORT = True
QUICK = {'runs': 2400, 'budget': 40}
THOROUGH = {'runs': 90000, 'budget': 1500}
RULE = ('One evaluation is one simulated run: operations by 1-4 threads on shared signature and'
        ' parameter values under one seeded schedule, with exceptions and re-entrant operations'
        ' injected. Non-trivial: at least one task switch, fired fault or two operations;'
        ' distinct: different event logs or switch sequences.')
STUBS = ['choice of the running thread', 'threading locks and sleeps',
         'annotation, default and argument objects whose methods are schedule points']
ASSUMPTIONS = ['threads switch only at executed lines or bytecodes of the package and inside'
               ' methods of annotations and defaults',
               'the reference is the same operation alone on equal fresh values']
NAMES = 'abcdefghij'
GROUPS = [[0, 1, 2], [3, 4, 5, 6], [7, 8], [9, 10], [11, 12]]


def atom(rng):
    r = rng.random()
    if r < 0.35:
        return ['H', rng.randrange(4)]
    if r < 0.75:
        return ['T', rng.randrange(16)]
    return [rng.choice('LDIB'), rng.randrange(13)]


def plain(rng):
    kinds = sorted(rng.choice([0, 1, 1, 1, 3, 3]) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8])))
    if rng.random() < 0.3:
        kinds.append(2)
    if rng.random() < 0.3:
        kinds.append(4)
    kinds.sort()
    names = rng.sample(NAMES, len(kinds))
    optional = False
    parameters = []
    for kind, name in zip(kinds, names):
        if kind in (2, 4):
            parameters.append([kind, name, atom(rng), True, None])
            continue
        if kind == 3:
            optional = rng.random() < 0.4
        else:
            optional = optional or rng.random() < 0.3
        parameters.append([kind, name, atom(rng), optional,
                           atom(rng) if optional and rng.random() < 0.8 else None])
    return ['plain', parameters, atom(rng)]


def equals(rng, world):
    """Values that are equal, but differ in constants: 1 and True and so on."""
    group = rng.choice(GROUPS)
    base = plain(rng)
    while not base[1]:
        base = plain(rng)
    simple = rng.random() < 0.6  # with unhashable constants memoization is impossible
    for p in base[1]:
        if simple:
            p[2] = ['T', rng.randrange(6)]
            if p[4] is not None:
                p[4] = ['I', rng.randrange(3)]
    if simple:
        base[2] = ['T', rng.randrange(6)]
    n = rng.randint(1, 2)
    places = [rng.choice([(p, 2)] + [(p, 4)] * 4) if p[4] is not None else (p, 2)
              for p in rng.sample(base[1], min(n, len(base[1])))]
    found = []
    for index in rng.sample(group, min(len(group), rng.choice([2, 2, 3]))):
        for place, key in places:
            place[key] = ['B', index]
        found.append(copy.deepcopy(base))
    if rng.random() < 0.3:
        found = [['over', [x, plain(rng)]] for x in found]
    elif rng.random() < 0.3:
        args, kwargs = arguments(rng, base)
        found = [['bound', x, args, kwargs] for x in found]
    return found


def value(rng, world, depth=0):
    r = rng.random()
    if r < 0.45:
        return plain(rng)
    if r < 0.65:
        return ['over', [plain(rng) for _ in range(rng.randint(2, 3))]]
    if r < 0.75:
        row = rng.choice(world.POOL)
        if row[2] < 6000:
            return ['q', f'{row[0]}:{row[1]}']
        return plain(rng)
    if r < 0.8:
        return ['q', f'dyn:{rng.choice(world.dynamic.KINDS)}:{rng.randrange(24)}']
    if depth:
        return plain(rng)
    base = value(rng, world, 1)
    if r < 0.87:
        return ['of', base, rng.randrange(5)]
    args, kwargs = arguments(rng, base)
    return ['bound', base, args, kwargs]


def arguments(rng, base=None):
    args = [atom(rng) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3, 4]))]
    kwargs = {name: atom(rng) for name in rng.sample(NAMES + 'z', rng.choice([0, 0, 1, 1, 2]))}
    if rng.random() < 0.6 and base is not None and base[0] == 'plain':
        # mostly acceptable ones
        kwargs = {p[1]: atom(rng) for p in base[1] if p[0] in (1, 3) and rng.random() < 0.4}
        room = 0
        for p in base[1]:
            if p[0] > 1 or p[1] in kwargs:
                break
            room += 1
        del args[rng.randint(0, room):]
    return args, kwargs


def again(rng, op):
    """The same operation with other arguments of the same shape."""
    op = copy.deepcopy(op)
    op.pop('f', None)
    op.pop('r', None)
    op['a'] = [atom(rng) if rng.random() < 0.7 else a for a in op['a']]
    op['k'] = {k: atom(rng) if rng.random() < 0.7 else a for k, a in op['k'].items()}
    return op


def vary(rng, x):
    """The same expression with some other constants."""
    if len(x) == 2 and isinstance(x[0], str) and x[0] in 'HTBLDI':
        return ['H', rng.randrange(4)] if x[0] == 'H' or rng.random() < 0.3 else x
    return [vary(rng, y) if isinstance(y, list) else y for y in x]


def passing(rng):
    """Operations on values that nobody keeps."""
    base = plain(rng)
    while not base[1]:
        base = plain(rng)
    del base[1][rng.choice([1, 2, 9]):]
    for p in base[1]:
        if p[4] is not None or rng.random() < 0.5:
            p[4 if p[4] is not None else 2] = ['H', rng.randrange(4)]
    op = operation(rng, [base], False, 1)
    if rng.random() < 0.5:
        op = {'do': 'eq', 'v': base, 'o': copy.deepcopy(base)}
    ops = []
    for _ in range(rng.randint(6, 18)):
        found = {**copy.deepcopy(op), 'v': vary(rng, base), 'fresh': True}
        if 'o' in op:
            found['o'] = vary(rng, base) if rng.random() < 0.5 else copy.deepcopy(found['v'])
        if 'a' in op:
            found['a'] = vary(rng, op['a'])
        ops.append(found)
    return ops


def operation(rng, values, faulty, depth=0):
    do = rng.choice(['bind'] * 6 + ['expects', 'expects', 'all_set', 'all_set', 'eq', 'eq', 'ne',
                                    'in', 'hash', 'key', 'repr', 'str', 'pickle', 'copy',
                                    'deepcopy', 'read'])
    op = {'do': do, 'v': rng.choice(values)}
    if op['v'][0] in ('of', 'parameter') and do in ('bind', 'expects', 'all_set'):
        op['do'] = do = rng.choice(['eq', 'hash', 'repr', 'str', 'pickle', 'read'])
    if do in ('bind', 'expects', 'all_set'):
        op['a'], op['k'] = arguments(rng, op['v'])
    if do in ('eq', 'ne', 'in'):
        op['o'] = rng.choice(values)
    if do == 'pickle':
        op['p'] = rng.choice([2, 4, 5])
    if not depth:
        if faulty and rng.random() < 0.5:
            op['f'] = {'k': rng.choice([1, 1, 2, 3, 4, 6, 8, 11]),
                       'at': rng.choice(['call', 'call', 'hook']),
                       'exc': rng.choice(['Interrupt', 'NoMemory', 'Boom'])}
        if rng.random() < 0.2:
            op['r'] = {'at': rng.choice([1, 1, 2, 3]), 'op': operation(rng, values, False, 1)}
    return op


def cid(row):
    return f'{row[0]}:{row[1]}'


def generate(rng, world):
    values = ([value(rng, world) for _ in range(rng.randint(1, 3))] if rng.random() < 0.8
              else equals(rng, world))
    if rng.random() < 0.4:
        args, kwargs = arguments(rng)
        base = rng.choice(values)
        if base[0] not in ('of', 'bound'):
            values.append(['bound', base, args, kwargs])
    if rng.random() < 0.3:
        # equal to another value, but not the same object
        values.append(copy.deepcopy(values[0]) if rng.random() < 0.5 else ['pickled', values[0]])
    beside = []
    if rng.random() < 0.3:
        # other signatures are queried in the meantime, some with types of the same name
        name = rng.choice(same_names(world)) if rng.random() < 0.5 else None
        rows = namesakes(world, name) if name else [rng.choice(world.POOL) for _ in range(4)]
        rows = [r for r in rows if r[2] < 9000]
        if rows:
            values.append(['q', cid(rng.choice(rows))])
            beside = [cid(rng.choice(rows)) for _ in range(3)]
    n = rng.choice([1, 2, 2, 3, 4])
    faulty = rng.random() < 0.5
    tasks = [[operation(rng, values, faulty) for _ in range(rng.randint(1, 4))]
             for _ in range(n)]
    if rng.random() < 0.5:
        bound = [op for ops in tasks for op in ops if 'a' in op]
        for _ in range(rng.randint(1, 3) if bound else 0):
            ops = rng.choice(tasks)
            ops.insert(rng.randrange(len(ops) + 1), again(rng, rng.choice(bound)))
    if rng.random() < 0.15:
        rng.choice(tasks).extend(passing(rng))
    for c in beside:
        ops = rng.choice(tasks)
        ops.insert(rng.randrange(len(ops) + 1), {'do': 'query', 'c': c})
    if n > 1 and rng.random() < 0.25:
        # everybody does the same with the same object
        op = operation(rng, values[:1], False, 1)
        for ops in tasks:
            at = rng.randrange(len(ops) + 1)
            ops[at:at] = [copy.deepcopy(op) for _ in range(rng.choice([1, 2, 4]))]
    post = [operation(rng, values, False, 1) for _ in range(rng.randint(1, 3))]
    post += [{'do': 'read', 'v': v} for v in values]
    return {'values': values, 'tasks': tasks, 'post': post,
            'trace': rng.choice(['line', 'line', 'opcode', 'call']),
            'p': rng.choice([0.01, 0.03, 0.1, 0.1, 0.3])}


def execute(world, workload, seed, decisions):
    import vworld
    return vworld.execute(workload, seed, decisions)


def shrink(w):
    if len(w['tasks']) > 1:
        for t in reversed(range(len(w['tasks']))):
            c = copy.deepcopy(w)
            del c['tasks'][t]
            yield c
    for part in range(len(w['tasks']) + 1):
        ops = (w['tasks'] + [w['post']])[part]
        for i in reversed(range(len(ops))):
            if len(ops) == 1 and part < len(w['tasks']):
                continue
            c = copy.deepcopy(w)
            del (c['tasks'] + [c['post']])[part][i]
            yield c
        for i, op in enumerate(ops):
            for key in ('r', 'f'):
                if key in op:
                    c = copy.deepcopy(w)
                    del (c['tasks'] + [c['post']])[part][i][key]
                    yield c
    for i in range(len(w['values'])):
        c = copy.deepcopy(w)
        del c['values'][i]
        yield c
    if w['trace'] == 'opcode':
        c = copy.deepcopy(w)
        c['trace'] = 'line'
        yield c
