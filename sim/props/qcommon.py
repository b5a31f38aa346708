"""Workload generation and shrinking shared by the query-simulator properties."""
import copy


def pick_theme(rng, world, n):
    """n callables (with repetitions) that share evaluation state."""
    r = rng.random()
    if r < 0.08:
        # types of the same name from several stub modules
        rows = namesakes(world, rng.choice(same_names(world)))
        rows = [rng.choice(rows) for _ in range(3)]
    elif r < 0.55:
        tag = rng.choice(world.TAGS)
        rows = world.BY_TAG[tag]
        rows = [rng.choice(rows) for _ in range(rng.randint(1, 3))]
    elif r < 0.8:
        rows = [rng.choice(world.TAGGED) for _ in range(rng.randint(1, 3))]
    else:
        rows = [rng.choice(world.POOL) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        rows.append(rng.choice(world.POOL))
    cids = [f'{row[0]}:{row[1]}' for row in rows]
    if rng.random() < 0.15:
        cids.append(dyn(rng, world))
    costs = {f'{row[0]}:{row[1]}': row[2] for row in rows}
    cids = [c for c in cids if costs.get(c, 0) < 20000] or cids[:1]
    return [rng.choice(cids) for _ in range(n)]


def namesakes(world, name):
    return [row for tag, rows in sorted(world.BY_TAG.items())
            if tag.rpartition('.')[2] == name for row in rows]


_same = []


def same_names(world):
    """Names that several stub modules give to different types."""
    if not _same:
        modules = {}
        for tag in sorted(world.BY_TAG):
            module, _, name = tag.rpartition('.')
            modules.setdefault(name, set()).add(module)
        for name in sorted(modules):
            if len(modules[name]) > 1:
                _same.extend([name] * (1 if len(name) < 6 else 3))  # type variables are short
    return _same


def dyn(rng, world):
    return f'dyn:{rng.choice(world.dynamic.KINDS)}:{rng.randrange(24)}'


def q(cid, hold=True, fault=None):
    return ['q', cid, hold, fault]


def shrink(w):
    """Yields simpler workloads."""
    for part in ('pre', 'post', 'rounds'):
        if len(w.get(part, ())) > 1:
            c = copy.deepcopy(w)
            c[part] = []
            yield c
        for i in reversed(range(len(w.get(part, ())))):
            c = copy.deepcopy(w)
            del c[part][i]
            yield c
    if len(w['tasks']) > 1:
        for t in reversed(range(len(w['tasks']))):
            c = copy.deepcopy(w)
            del c['tasks'][t]
            yield c
    for t, ops in enumerate(w['tasks']):
        if len(ops) > 1:
            for i in reversed(range(len(ops))):
                c = copy.deepcopy(w)
                del c['tasks'][t][i]
                yield c
    for part in [w.get('pre', []), w.get('post', []), w.get('rounds', [])] + w['tasks']:
        for op in part:
            if op[0] == 'q' and op[3] is not None:
                kept = op[3]
                op[3] = None
                c = copy.deepcopy(w)
                op[3] = kept
                yield c
            if op[0] == 'fork' and len(op[1]) > 1:
                for i in range(len(op[1])):
                    kept = op[1].pop(i)
                    c = copy.deepcopy(w)
                    op[1].insert(i, kept)
                    yield c
    if w.get('trace') == 'opcode':
        c = copy.deepcopy(w)
        c['trace'] = 'line'
        yield c


def describe(w):
    """Number of interacting operations: the measure of non-triviality."""
    return sum(len(ops) for ops in w['tasks'])
