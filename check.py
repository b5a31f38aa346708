#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N] [--budget S]

Decides one property of properties.jsonl by deterministic simulation of /repo's working tree.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: harness error.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
sys.path.insert(0, SIM)
sys.dont_write_bytecode = True

import install  # noqa

HASH_SEEDS = [0, 1, 2, 3, 5, 8, 13, 21]


def read_findings(prop):
    """Known findings of a property: key, or /pattern/ of key and detail -> description."""
    found = {}
    with open(os.path.join(HERE, 'known_findings.json')) as file:
        for entry in json.load(file)['findings']:
            if entry['property'] == prop:
                for key in entry.get('keys', []) + [f'/{x}/' for x in entry.get('patterns', [])]:
                    found[key] = f'{entry["id"]}: {entry["what"]}'
    return found


class Pool:
    """Worker processes of one check."""

    def __init__(self, prop, module, site, log):
        self.prop, self.module, self.site, self.log = prop, module, site, log
        self.records = []
        self.procs = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.errors = []

    def command(self, what, payload, hash_seed, timeout):
        done = subprocess.run(
                [install.PYTHON, '-W', 'ignore', os.path.join(SIM, 'worker.py'), what, self.prop],
                input=json.dumps(payload), capture_output=True, text=True,
                env=self.environment(hash_seed), cwd=self.site, timeout=timeout)
        lines = [x for x in done.stdout.splitlines() if x.startswith('{')]
        if not lines:
            raise RuntimeError(f'worker {what} failed: {done.stderr[-2000:]}')
        return json.loads(lines[-1])

    def environment(self, hash_seed):
        return install.environment(self.site, hash_seed,
                                   PYTHONDONTWRITEBYTECODE=1, PDSIM_SITE=self.site)

    def start(self, n, payload, keep_going=False, first=0):
        self.procs.clear()
        self.stop.clear()
        for w in range(n):
            hash_seed = HASH_SEEDS[w % len(HASH_SEEDS)]
            proc = subprocess.Popen(
                    [install.PYTHON, '-W', 'ignore', os.path.join(SIM, 'worker.py'), 'run', self.prop],
                    stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE, text=True, start_new_session=True,
                    env=self.environment(hash_seed), cwd=self.site)
            proc.stdin.write(json.dumps({**payload, 'start': first + w, 'stride': n,
                                         'keep_going': keep_going}))
            proc.stdin.close()
            thread = threading.Thread(target=self.read, args=(proc, hash_seed), daemon=True)
            errors = threading.Thread(target=self.read_errors, args=(proc,), daemon=True)
            thread.start()
            errors.start()
            self.procs.append((proc, thread))

    def read_errors(self, proc):
        text = proc.stderr.read()
        if text.strip():
            with self.lock:
                self.errors.append(text[-1500:])

    def read(self, proc, hash_seed):
        for line in proc.stdout:
            if not line.startswith('{'):
                continue
            try:
                record = json.loads(line)
            except ValueError:
                continue
            record['hash_seed'] = hash_seed
            with self.lock:
                self.records.append(record)
            if 'violation' in record:
                self.stop.set()

    def wait(self, deadline, keep_going=False):
        while any(p.poll() is None for p, _ in self.procs):
            if self.stop.is_set() and not keep_going:
                time.sleep(0.3)
                break
            if time.monotonic() > deadline:
                break
            time.sleep(0.05)
        import signal
        for p, _ in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for p, thread in self.procs:
            p.wait()
            thread.join(5)


def prepare(module, site):
    install.copy_package(site)
    if module.SERIES == 'q':
        done = install.build_database(site)
        if done.returncode or '/paradigm/__init__.py' not in done.stdout:
            raise RuntimeError('the package cannot be imported:\n' + done.stderr[-3000:])
    prep = getattr(module, 'prepare', None)
    if prep is not None:
        prep(site)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--replay')
    parser.add_argument('--runs', type=int)
    parser.add_argument('--budget', type=float)
    parser.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument('--keep-going', action='store_true')
    parser.add_argument('--no-known', action='store_true', help='report known findings too')
    parser.add_argument('--dump', help='write all records to this file')
    args = parser.parse_args()
    started = time.monotonic()
    prop = args.property
    module = importlib.import_module('props.' + prop.lower())
    findings = {} if args.no_known else read_findings(prop)
    site = install.scratch(prop.lower())
    try:
        prepare(module, site)
        pool = Pool(prop, module, site, [])
        if args.replay:
            return replay(pool, prop, findings, args.replay)
        return search(pool, prop, module, findings, args, started)
    finally:
        install.remove(site)


def replay(pool, prop, findings, path):
    with open(path) as file:
        record = json.load(file)
    payload = {'seed': record['seed'], 'workload': record['workload'],
               'decisions': record['decisions'], 'findings': sorted(findings)}
    result = pool.command('replay', payload, record['hash_seed'], 300)
    for v in result['violations']:
        print(f'  {v["kind"]} {v["key"]}: {v["detail"][:1500]}')
    if result['violations']:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('the replay shows no violation', {k: result[k] for k in ('log', 'harness', 'stall')})
    return 2 if result.get('harness') else 0


def search(pool, prop, module, findings, args, started):
    preset = module.THOROUGH if args.tier == 'thorough' else module.QUICK
    runs, budget = args.runs or preset['runs'], args.budget or preset['budget']
    payload = {'seed': args.seed, 'runs': runs, 'budget': budget,
               'findings': sorted(findings)}
    print(f'{prop}: VERIF_SEED={args.seed} tier={args.tier} runs<={runs}'
          f' budget={budget}s workers={args.workers}', flush=True)
    begin = time.monotonic()
    pool.start(args.workers, payload, args.keep_going)
    pool.wait(time.monotonic() + budget * 1.3 + 90, args.keep_going)
    searched = time.monotonic() - begin
    records = sorted(pool.records, key=lambda r: r['i'])
    status = 0
    violations = [r for r in records if 'violation' in r]
    reported = None
    unreproduced = []
    examined = 0
    while True:
        for record in violations[examined:examined + 6]:
            reported = confirm(pool, prop, record, findings, unreproduced)
            if reported:
                break
        examined = len(violations)
        left = budget - searched
        if reported or not violations or args.keep_going or args.replay or left < 2:
            break
        # what cannot be reproduced (addresses, for example) may show up again
        first = (max(r['i'] for r in records) // args.workers + 1) * args.workers
        if first >= runs:
            break
        begin = time.monotonic()
        pool.start(args.workers, {**payload, 'budget': left}, first=first)
        pool.wait(time.monotonic() + left * 1.3 + 90)
        searched += time.monotonic() - begin
        found = sorted((r for r in pool.records if r['i'] >= first), key=lambda r: r['i'])
        records += found
        violations += [r for r in found if 'violation' in r]
    if args.dump:
        with open(args.dump, 'w') as file:
            json.dump(records, file)
    if violations and reported is None and len(violations) >= 3:
        reported = save(prop, violations[0], {'minimised': False, 'reproduced': False})
    write_evidence(prop, module, args, records, searched, started, findings,
                   violations, unreproduced)
    known = sorted({key for r in records for key in r.get('known', ())})
    for what in sorted(set(findings.values())):
        print(f'KNOWN-FINDING: property={prop} {what}')
    harness = [r for r in records if 'harness' in r]
    stalls = [r for r in records if 'stall' in r]
    done = [r for r in records if 'log' in r]
    print(f'{prop}: {len(done)} runs, {len(harness)} harness errors, {len(stalls)} stalls,'
          f' {len(violations)} violating, known hit: {known}, {searched:.1f}s', flush=True)
    if reported:
        print(f'VIOLATION property={prop} replay={reported}')
        return 1
    if harness[:1]:
        print(harness[0]['harness'][-3000:])
    if pool.errors:
        print('worker stderr:', pool.errors[0])
    if len(done) < max(10, len(records) // 2):
        print('ERROR: too few completed runs')
        return 2
    if harness or stalls:
        print(f'note: {len(harness)} harness errors and {len(stalls)} stalled runs were set aside')
        if len(harness) + len(stalls) > max(3, len(done) // 50):
            return 2
    return status


def save(prop, record, extra):
    v = record['violation']
    path = os.path.join(HERE, 'replays')
    os.makedirs(path, exist_ok=True)
    path = os.path.join(path, f'{prop}-{v["seed"].replace(":", "-")}.json')
    with open(path, 'w') as file:
        json.dump({'property': prop, 'hash_seed': record['hash_seed'], **v, **extra},
                  file, indent=1)
        file.write('\n')
    return path


def confirm(pool, prop, record, findings, unreproduced):
    v = record['violation']
    first = v['violations'][0]
    print(f'violation in run {record["i"]} (seed {v["seed"]}): {first["kind"]} {first["key"]}:'
          f' {first["detail"][:600]}', flush=True)
    payload = {'seed': v['seed'], 'workload': v['workload'], 'decisions': v['decisions'],
               'findings': sorted(findings), 'kind': first['kind'], 'budget': 40}
    original = dict(v)
    try:
        small = pool.command('minimise', payload, record['hash_seed'], 180)
    except Exception as error:
        print('minimisation failed:', str(error)[-500:])
        small = None
    for candidate, minimised in ((small, True), (original, False)):
        if candidate is None or not candidate.get('violations'):
            continue
        payload = {**payload, 'workload': candidate['workload'],
                   'decisions': candidate['decisions']}
        try:
            result = pool.command('replay', payload, record['hash_seed'], 120)
        except Exception as error:
            print('replay failed:', str(error)[-500:])
            continue
        if any(x['kind'] == first['kind'] for x in result['violations']):
            record['violation'] = {**v, 'workload': candidate['workload'],
                                   'decisions': candidate['decisions'],
                                   'violations': result['violations']}
            w = candidate['workload']
            print(f'minimised={minimised}: {json.dumps(w)[:1500]}')
            print(f'decisions: {json.dumps(candidate["decisions"])[:600]}')
            for x in result['violations'][:3]:
                print(f'  {x["kind"]} {x["key"]}: {x["detail"][:1200]}')
            return save(prop, record, {'minimised': minimised, 'reproduced': True,
                                       'log': result['log'],
                                       'original_size': [len(json.dumps(original['workload'])),
                                                         len(original['decisions'])]})
    unreproduced.append(v['seed'])
    print('this violation did not reproduce in a fresh process', flush=True)
    return None


def write_evidence(prop, module, args, records, searched, started, findings, violations,
                   unreproduced):
    done = [r for r in records if 'log' in r]
    fired, probes, sites = {}, {}, {}
    for r in done:
        for key, n in r.get('fired', {}).items():
            fired[key] = fired.get(key, 0) + n
        for key, n in r.get('probes', {}).items():
            probes[key] = probes.get(key, 0) + n
        for site in r.get('sites', ()):
            sites[site] = sites.get(site, 0) + 1
    nontrivial = {(r['interleaving'], r['log']) for r in done
                  if r.get('switches') or r.get('fired') or r['size'] > 1}
    repeats = [r['repeat'] for r in done if 'repeat' in r]
    replays = [r['replayed'] for r in done if 'replayed' in r]
    coverage = {
        'evaluations': len(done),
        'distinct_nontrivial': len(nontrivial),
        'rule': getattr(module, 'RULE', (
            'One evaluation is one simulated run: a generated workload under one seeded schedule'
            ' and fault sequence. Non-trivial: at least one task switch, fired fault or two'
            ' interacting operations; distinct: different event logs (hash over every schedule'
            ' point passed, in order) or switch sequences.')),
        'samples': [{'i': r['i'], 'workload': r['workload']} for r in done
                    if 'workload' in r][:3] or [{'i': r['i']} for r in done[:2]],
        'seeds': len(done),
        'runs_per_hour': round(len(done) / max(searched, 0.001) * 3600),
        'simulated_time_s': round(sum(r.get('now', 0) for r in done), 3),
        'schedule_points': sum(r.get('steps', 0) for r in done),
        'task_switches': sum(r.get('switches', 0) for r in done),
        'operations': sum(r.get('queries', 0) for r in done),
        'distinct_interleavings': len({r['interleaving'] for r in done if r.get('switches')}),
        'distinct_event_logs': len({r['log'] for r in done}),
        'faults_fired': dict(sorted(fired.items())),
        'distinct_fault_sites': len(sites),
        'probes': dict(sorted(probes.items())),
        'determinism': {'repeated_runs': len(repeats), 'same_log': sum(repeats),
                        'replayed_from_decisions': len(replays), 'same_log_replayed': sum(replays)},
        'real_components': module.REAL if hasattr(module, 'REAL') else DEFAULT_REAL[module.SERIES],
        'stubbed_components': (module.STUBS if hasattr(module, 'STUBS')
                               else DEFAULT_STUBS[module.SERIES]),
        'harness_errors': len([r for r in records if 'harness' in r]),
        'stalled_runs': len([r for r in records if 'stall' in r]),
        'unreproduced': unreproduced,
        'known_findings_hit': sorted({k for r in records for k in r.get('known', ())}),
    }
    evidence = {'property': prop, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick',
                'seed': args.seed, 'level': 'exploration', 'coverage': coverage,
                'assumptions': getattr(module, 'ASSUMPTIONS', DEFAULT_ASSUMPTIONS[module.SERIES]),
                'wall_s': round(time.monotonic() - started, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as file:
        json.dump(evidence, file, indent=1)
        file.write('\n')


DEFAULT_REAL = {
    'q': ['the whole package under test from /repo\'s working tree', 'the real typeshed database',
          'CPython import system, typing, inspect', 'operating system threads and fork'],
    'd': ['the whole package under test from /repo\'s working tree', 'CPython import system,'
          ' compileall, py_compile, pickle', 'operating system processes (one running at a time)',
          'files in a scratch directory'],
}
DEFAULT_STUBS = {
    'q': ['choice of the running thread', 'threading locks and sleeps', 'time'],
    'd': ['choice of the running process and thread', 'multiprocessing processes, queues and pipes',
          'clock, pids, temporary names', 'durability of files', 'typeshed (a generated library)',
          'standard library enumeration (a generated library)'],
}
DEFAULT_ASSUMPTIONS = {
    'q': ['threads switch only at executed lines or bytecodes of the package, lock operations and'
          ' imports', 'injected exceptions appear at function entries and import calls, not between'
          ' arbitrary bytecodes', 'golden answers come from the same tree, alone in a pristine process'],
    'd': ['simulated processes switch only at I/O, lock, process and pipe operations',
          'power loss keeps an ordered prefix of directory operations and any page-granular subset'
          ' of unsynchronised data', 'the generated stub library uses the constructs of typeshed'],
}

if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
