"""Worker process: worker.py run|replay|minimise PROPERTY ARGS-JSON (inside a scratch world)."""
import importlib
import json
import os
import random
import re
import sys
import time


def emit(record):
    sys.__stdout__.write(json.dumps(record) + '\n')
    sys.__stdout__.flush()


def load(prop):
    module = importlib.import_module('props.' + prop.lower())
    if module.SERIES == 'q':
        import qworld as world
        import instrument
        import gc
        instrument.setup(os.path.dirname(world.paradigm.__file__))
        if module.PREIMPORT:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for name in world.universe.MODULES:
                    try:
                        importlib.import_module(name)
                    except Exception:
                        pass
        gc.collect()
        gc.freeze()
    else:
        import dworld as world
        world.setup()
    return module, world


def one(module, world, seed, workload=None, decisions=None):
    if workload is None:
        rng = random.Random(f'{seed}:workload')
        workload = module.generate(rng, world)
    execute = getattr(module, 'execute', None)
    if execute is not None:
        result = execute(world, workload, seed, decisions)
    else:
        snapshot = world.hoststate.Snapshot() if getattr(module, 'HOST', False) else None
        result = world.execute(workload, seed, decisions, snapshot)
    if result.get('stall'):
        # blocked for good in something that is not simulated
        result = {**result, 'violations': [{'kind': 'stall', 'key': 'stall', 'detail':
                                            'the run does not end: it blocks outside of any simulated'
                                            ' lock, pipe or sleep'}]}
    return workload, result


def known(result, findings):
    """Splits violations into new ones and those listed as known findings."""
    new, listed = [], []
    for v in result.get('violations', ()):
        found = match(v, findings)
        if found is None:
            new.append(v)
        else:
            listed.append(found)
    return new, listed


def match(violation, findings):
    if violation['key'] in findings:
        return violation['key']
    for finding in findings:
        if finding.startswith('/') and re.search(finding[1:-1],
                                                 f'{violation["key"]} {violation["detail"]}'):
            return finding
    return None


def run(prop, args):
    module, world = load(prop)
    end = time.monotonic() + args['budget']
    for i in range(args['start'], args['runs'], args['stride']):
        if time.monotonic() > end:
            break
        seed = f'{prop}:{args["seed"]}:{i}'
        t = time.monotonic()
        world.RUN = i
        try:
            workload, result = one(module, world, seed)
        except Exception as error:
            import traceback
            emit({'i': i, 'harness': traceback.format_exc()})
            continue
        new, listed = known(result, args['findings'])
        record = {'i': i, 'wall': time.monotonic() - t,
                  'size': module.describe(workload)}
        for key in ('steps', 'switches', 'queries', 'fired', 'log', 'interleaving',
                    'probes', 'now', 'sites', 'harness', 'skipped'):
            if key in result:
                record[key] = result[key]
        if listed:
            record['known'] = sorted(set(listed))
        if i % 400 == args['start'] % 400:
            record['workload'] = workload
        if i % 50 == args['start'] % 50 and 'log' in result:
            again = one(module, world, seed)[1]
            record['repeat'] = again.get('log') == result['log']
            replayed = one(module, world, seed, workload, result['decisions'])[1]
            record['replayed'] = replayed.get('log') == result['log']
        if new:
            record['violation'] = {'seed': seed, 'workload': workload,
                                   'decisions': result.get('decisions', []),
                                   'violations': new}
        emit(record)
        if new and not args.get('keep_going'):
            break


def replay(prop, args):
    module, world = load(prop)
    workload, result = one(module, world, args['seed'], args['workload'],
                           args['decisions'])
    new, _ = known(result, args['findings'])
    emit({'violations': new, 'log': result.get('log'),
          'harness': result.get('harness'), 'stall': result.get('stall')})


def minimise(prop, args):
    """Shrinks workload, then decisions, keeping the violation class."""
    module, world = load(prop)
    end = time.monotonic() + args['budget']
    workload, decisions = args['workload'], args['decisions']
    kind = args['kind']
    attempts = accepted = 0

    def fails(w, d, seed):
        nonlocal attempts
        attempts += 1
        try:
            _, result = one(module, world, seed, w, d)
        except Exception:
            return None
        new, _ = known(result, args['findings'])
        for v in new:
            if v['kind'] == kind:
                return result.get('decisions', []) if d is None else d
        return None

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for candidate in module.shrink(workload):
            if time.monotonic() > end:
                break
            found = fails(candidate, decisions, args['seed'])
            if found is None and decisions:
                for attempt in range(args.get('retries', 12)):
                    if time.monotonic() > end:
                        break
                    found = fails(candidate, None, f'{args["seed"]}:m{attempt}')
                    if found is not None:
                        break
            if found is not None:
                workload, decisions = candidate, found
                accepted += 1
                progress = True
                break
    i = 0
    while i < len(decisions) and time.monotonic() < end + 10:
        shorter = decisions[:i] + decisions[i + 1:]
        if fails(workload, shorter, args['seed']) is not None:
            decisions = shorter
            accepted += 1
        else:
            i += 1
    _, result = one(module, world, args['seed'], workload, decisions)
    new, _ = known(result, args['findings'])
    emit({'workload': workload, 'decisions': decisions, 'violations': new,
          'attempts': attempts, 'accepted': accepted, 'log': result.get('log')})


if __name__ == '__main__':
    {'run': run, 'replay': replay, 'minimise': minimise}[sys.argv[1]](
            sys.argv[2], json.load(sys.stdin))
