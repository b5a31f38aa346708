"""The scheduler of the host simulator: one simulated machine with its processes and its disk.

Exactly one thread of all simulated processes runs at any moment: the one that was told to go on.
Which one that is, which of its operations fail, when processes are killed and when the power goes
off is decided here, by one PRNG or by a recorded list of decisions.
"""
import ctypes
import json
import os
import random
import select
import signal
import socket
import stat
import time
import zlib

import dhook

real = dhook.real
REAL_TIMEOUT = 30
PAGE = 4096
MAX_PROCS = 60
EPOCH = 1_700_000_000
DIRECTORY = 'directory'


class Stall(Exception):
    pass


class Entity:
    """A thread of a simulated process."""
    __slots__ = ('id', 'proc', 'sock', 'buffer', 'state', 'message', 'tick', 'deadline', 'step',
                 'reply', 'started', 'rank')

    def __init__(self, id_, proc, sock):
        self.id, self.proc, self.sock = id_, proc, sock
        self.buffer = b''
        self.state = 'parked'  # parked, blocked, dead
        self.message = None
        self.tick = -1
        self.deadline = None
        self.step = 0
        self.reply = {}
        self.started = False
        self.rank = None


class Proc:
    def __init__(self, number, pid, parent, role):
        self.number, self.pid, self.parent, self.role = number, pid, parent, role
        self.alive = True
        self.counts = {}
        self.total = 0
        self.results = []
        self.killed = False
        self.children = 0
        self.mutations = 0
        self.exec = False
        self.program = None
        self.points = []
        try:
            self.pidfd = os.pidfd_open(pid)
        except OSError:
            self.pidfd = None


class Host:
    def __init__(self, site, rng, decisions=None, p=0.1, lines=None, now=0.0):
        self.site = site
        self.rng = rng
        self.replay = ({(d[0], d[1]): d[2] for d in decisions}
                       if decisions is not None else None)
        self.recorded = []
        self.lowest = 0
        # either threads lose the processor at random, or the one of the highest rank has it,
        # and changes of ranks are random
        self.ranks = float(p[1:]) if isinstance(p, str) else None
        self.p, self.lines = p, lines
        self.entities = []
        self.procs = []
        self.by_pid = {}
        self.orphans = []
        self.now = now
        self.steps = 0
        self.progress = 0
        self.switches = 0
        self.log = 0
        self.interleaving = 0
        self.cur = None
        self.failure = None
        self.fired = {}
        self.sites = {}
        self.kinds = {}
        self.disk = Disk(site, now)
        self.config = {}
        self.faults = []
        self.crash = None
        self.crashed = None
        self.actions = []
        self.max_steps = 60000
        self.trace = None
        self.addr = os.path.join(site, 'sock')
        self.listener = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            os.unlink(self.addr)
        except FileNotFoundError:
            pass
        self.listener.bind(self.addr)
        self.listener.listen(64)

    # -- starting ------------------------------------------------------------------------
    def start(self, role, program, prepare):
        """Forks a process that joins the simulation and then runs the program."""
        pid = real.fork()
        if not pid:
            code = 70
            try:
                self.listener.close()
                for e in self.entities:
                    e.sock.close()
                prepare()
                code = program(lambda: dhook.join(self.addr, self.site))
            except BaseException:  # noqa
                import traceback
                traceback.print_exc()
                code = 71
            finally:
                real.exit(code if isinstance(code, int) else 0)
        proc = self.add(pid, None, role)
        proc.program = role
        self.admit(pid)
        return proc

    def start_exec(self, role, command):
        """Starts an interpreter that joins the simulation by its sitecustomize."""
        argv, env = command
        pid = real.fork()
        if not pid:
            try:
                self.listener.close()
                os.chdir(self.site)
                os.execve(argv[0], argv, env)
            finally:
                os._exit(72)
        proc = self.add(pid, None, role)
        proc.program, proc.exec = role, True
        self.admit(pid)
        return proc

    def add(self, pid, parent, role):
        proc = Proc(len(self.procs), pid, parent, role)
        self.procs.append(proc)
        self.by_pid[pid] = proc
        return proc

    def admit(self, pid):
        """Accepts the connection of a new thread of a process."""
        proc = self.by_pid[pid]
        end = real.monotonic() + REAL_TIMEOUT
        while True:
            if ready(self.listener, 0.02):
                sock, _ = self.listener.accept()
                e = Entity(len(self.entities), proc, sock)
                message = self.receive(e)
                if message is None:
                    sock.close()
                    continue
                found = self.by_pid.get(message['pid'])
                if found is None:
                    raise Stall(f'unexpected process: {message}')
                e.proc = found
                self.entities.append(e)
                e.message = {'t': 'point', 'k': 'start', 'w': 'start'}
                e.reply = {'config': self.configure(found), 'now': self.now}
                if found is proc:
                    return e
                continue
            if self.dead(proc):
                proc.alive = False
                return None
            if real.monotonic() > end:
                raise Stall('a new thread or process does not join')

    def configure(self, proc):
        config = dict(self.config)
        config.update(number=proc.number, pid=dhook.PIDS + proc.number,
                      ppid=1 if proc.parent is None else dhook.PIDS + proc.parent.number,
                      seed=f'{proc.number}:{self.config.get("seed")}')
        for fault in self.faults:
            if fault.get('call') and self.concerns(fault, proc):
                config['call'] = fault['call']
                config['mode'] = config.get('mode') or 'call'
        return config

    @staticmethod
    def concerns(fault, proc):
        if fault.get('helpers'):
            return proc.parent is not None
        return fault.get('role') in (None, proc.role)

    def applies(self, fault, proc, kind, where):
        wanted = fault.get('kind', 'any')
        return (self.concerns(fault, proc) and kind != 'start'
                and (wanted == 'any' or kind in wanted.split('|'))
                and fault.get('match', '') in where)

    # -- the wire ------------------------------------------------------------------------
    def receive(self, e):
        end = real.monotonic() + REAL_TIMEOUT
        while True:
            line, found, rest = e.buffer.partition(b'\n')
            if found:
                e.buffer = rest
                return json.loads(line)
            left = end - real.monotonic()
            if left <= 0 or not ready(e.sock, left):
                raise Stall(f'no answer for {REAL_TIMEOUT} s')
            try:
                data = e.sock.recv(1 << 16)
            except ConnectionResetError:
                data = b''
            if not data:
                return None
            e.buffer += data

    def send(self, e, message):
        try:
            e.sock.sendall(json.dumps(message).encode() + b'\n')
        except (BrokenPipeError, ConnectionResetError):
            pass

    def dead(self, proc):
        if proc.pidfd is None:
            return True
        return ready(proc.pidfd, 0)

    def await_death(self, proc):
        if proc.pidfd is not None:
            if not ready(proc.pidfd, REAL_TIMEOUT):
                raise Stall('a process does not die')
        self.buried(proc)

    def buried(self, proc):
        proc.alive = False
        self.progress += 1
        if proc.pidfd is not None:
            os.close(proc.pidfd)
            proc.pidfd = None
        for e in self.entities:
            if e.proc is proc and e.state != 'dead':
                e.state = 'dead'
                e.sock.close()

    def kill(self, proc):
        if proc.alive:
            try:
                real.kill(proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.await_death(proc)
            proc.killed = True

    # -- choices -------------------------------------------------------------------------
    def choose(self):
        ready = [e for e in self.entities if e.state == 'parked'
                 or e.state == 'blocked' and e.tick != self.progress]
        timed = [e for e in self.entities if e.state == 'blocked' and e.deadline is not None
                 and e.tick == self.progress]
        if not ready and not timed:
            waiting = [e for e in self.entities if e.state == 'blocked']
            # a helper may wait forever for a parent that was killed
            if all(self.orphaned(e.proc) for e in waiting):
                self.orphans = sorted({f'{e.proc.role} ({e.message["w"]})' for e in waiting})
            else:
                self.fail('hang', 'nothing can go on: ' + '; '.join(
                        f'process {e.proc.number} ({e.proc.role}) is {e.message["w"]}'
                        for e in waiting))
            return None
        due = [e for e in timed if e.deadline <= self.now]
        first = ready or due or [min(timed, key=lambda e: e.deadline)]
        cur = self.cur
        default = cur if cur in first else first[0]
        key = (cur.id if cur is not None else -1, cur.step if cur is not None else self.steps)
        chosen = default
        if len(ready) + len(timed) == 1:
            pass
        elif self.replay is not None:
            wanted = self.replay.get(key)
            chosen = next((e for e in ready + timed if e.id == wanted), default)
        elif self.ranks is not None:
            chosen = self.ranked(cur, ready or due or first)
            if chosen is not default:
                self.recorded.append([*key, chosen.id])
        elif cur not in first or self.rng.random() < self.p:
            # any time may pass while the others are stalled
            among = ready + timed if self.rng.random() < 0.2 else ready + due or first
            chosen = self.rng.choice(among)
            if chosen is not default:
                self.recorded.append([*key, chosen.id])
        if chosen in timed:
            self.now = max(self.now, chosen.deadline)
        return chosen

    def ranked(self, cur, among):
        for e in self.entities:
            if e.rank is None:
                e.rank = self.rng.random()
        if cur is not None and self.rng.random() < self.ranks:
            cur.rank = self.lowest = self.lowest - 1
        return max(among, key=lambda e: e.rank)

    @staticmethod
    def orphaned(proc):
        while proc.parent is not None:
            proc = proc.parent
            if proc.killed:
                return True
        return False

    def fail(self, kind, detail):
        if self.failure is None:
            self.failure = (kind, detail)

    # -- running -------------------------------------------------------------------------
    def run(self):
        """Until every process has ended, the machine has crashed or nothing can go on."""
        while self.failure is None and self.crashed is None:
            e = self.choose()
            if e is None:
                break
            if e is not self.cur:
                self.switches += 1
                self.interleaving = mix(self.interleaving, e.id * 7 + self.steps % 1)
                self.interleaving = mix(self.interleaving, zlib.crc32(
                        str(e.message.get('w')).encode()))
            self.cur = e
            self.grant(e)
            if self.steps > self.max_steps:
                self.fail('no-progress', f'more than {self.max_steps} steps: '
                          + str(self.describe()))
        return self.failure

    def describe(self):
        return [(e.proc.role, e.state, e.message.get('k'), e.message.get('w'))
                for e in self.entities if e.state != 'dead']

    def grant(self, e):
        """Lets a thread go on until its next message."""
        self.steps += 1
        self.now = round(self.now + 0.001, 6)
        message = e.message
        reply, e.reply = e.reply, {}
        reply['now'] = self.now
        if self.lines and (e.step == 0 or message.get('k') == 'line'):
            reply['credit'] = self.line_gap(e)
        if e.state == 'blocked':
            if e.deadline is not None and e.deadline <= self.now:
                reply['timeout'] = True
        kind = message['k'] if message['t'] == 'point' else None
        if kind is not None:
            proc = e.proc
            if not message.get('struck'):
                proc.total += 1
                proc.counts[kind] = proc.counts.get(kind, 0) + 1
            if self.trace is not None:
                self.trace.append((proc.number, proc.role, kind, message['w']))
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            self.log = mix(self.log, zlib.crc32(
                    f'{e.id}:{kind}:{plain(message["w"])}'.encode()))
            self.progress += 1
            if message.get('struck'):
                call = next((f for f in self.faults if f.get('call')
                             and self.concerns(f, proc)), None)
                self.strikes('call:' + what(call['call']['fault']), message['w'])
                if call['call']['fault'].get('kill'):
                    self.kill(proc)
                    return
            for fault in self.faults:
                if fault.get('call') or not self.applies(fault, proc, kind, message['w']):
                    continue
                fault['seen'] = fault.get('seen', 0) + 1
                k = fault['k']
                if fault['seen'] == k or (fault.get('lasting') and fault['seen'] >= k):
                    if fault['fault'].get('only') == 'big' and message.get('n', 0) < 64:
                        continue
                    self.strikes(f'{kind}:' + what(fault['fault']), message['w'])
                    if fault['fault'].get('kill'):
                        self.kill(proc)
                        return
                    if 'short' in fault['fault']:
                        reply['short'] = fault['fault']['short']
                    else:
                        reply['fault'] = fault['fault']
            crash = self.crash
            if crash is not None and not crash.get('after') and self.applies(
                    crash, proc, kind, message['w']):
                crash['seen'] = crash.get('seen', 0) + 1
                if crash['seen'] >= crash['k']:
                    self.crashed = f'{kind} {message["w"]}'
                    self.strikes('power loss' if crash.get('power') else 'crash of all processes',
                                 message['w'])
                    return
        for action in self.actions:
            if not action.get('done') and self.steps >= action['step']:
                action['done'] = True
                action['do']()
        e.state = 'running'
        e.step += 1
        self.send(e, reply)
        self.listen(e)

    def line_gap(self, e):
        if self.replay is not None:
            # the gaps are part of the decisions
            return self.replay.get((e.id, -e.step - 1), 1 << 40)
        gap = max(1, int(self.rng.expovariate(1 / self.lines)))
        self.recorded.append([e.id, -e.step - 1, gap])
        return gap

    def strikes(self, name, where):
        self.fired[name] = self.fired.get(name, 0) + 1
        self.sites[f'{name} @ {plain(where)}'] = self.sites.get(f'{name} @ {plain(where)}', 0) + 1

    def listen(self, e):
        """Messages of the running thread, until it waits for the next permission."""
        while True:
            message = self.receive(e)
            if message is None:
                self.progress += 1
                if e.proc.alive:
                    self.await_death(e.proc)
                e.state = 'dead'
                e.sock.close()
                return
            t = message['t']
            if t == 'bye':
                e.state = 'dead'
                e.sock.close()
                self.progress += 1
                return
            if t == 'point':
                e.message, e.state = message, 'parked'
                return
            if t == 'block':
                e.message, e.state = message, 'blocked'
                e.message['k'] = 'block'
                e.tick, e.deadline = self.progress, message.get('d')
                return
            self.progress += 1
            if t == 'done':
                if message['k'] not in ('pipe-close', 'unlock'):
                    e.proc.mutations += 1
                    self.disk.sync(self.now)
                    if message['k'] == 'fsync':
                        self.disk.fsync(message['path'])
            elif t == 'forked':
                e.proc.children += 1
                role = f'{e.proc.role}/h{e.proc.children}'
                proc = self.add(message['pid'], e.proc, role)
                proc.exec = bool(message.get('exec'))
                if len(self.procs) > MAX_PROCS:
                    self.fail('no-progress', f'more than {MAX_PROCS} processes have been started')
                    return
                self.admit(message['pid'])
            elif t == 'thread':
                self.admit(e.proc.pid)
            elif t == 'killed':
                proc = self.by_pid.get(message['pid'])
                if proc is not None and (proc.pidfd is None or ready(proc.pidfd, 1)):
                    self.buried(proc)
            elif t == 'pid':
                number = message['pid'] - dhook.PIDS
                found = number < len(self.procs) and self.procs[number].alive
                self.send(e, {'pid': self.procs[number].pid if found else None})
                continue
            elif t == 'result':
                if message['k'] == 'attempt' and 'error' in message['v']:
                    message['v']['alive'] = [
                        p.role for p in self.procs if p.alive and p.parent is e.proc
                        and not (p.pidfd is not None and ready(p.pidfd, 0))]
                e.proc.results.append((message['k'], message['v']))
            self.send(e, {})

    # -- ends ----------------------------------------------------------------------------
    def alive(self):
        return [p for p in self.procs if p.alive]

    def stop(self):
        for proc in self.procs:
            if proc.alive:
                try:
                    real.kill(proc.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for proc in self.procs:
            if proc.alive:
                self.await_death(proc)
            if proc.pidfd is not None:
                os.close(proc.pidfd)
                proc.pidfd = None
        for e in self.entities:
            e.sock.close()
        reap()
        self.entities, self.procs, self.by_pid, self.cur = [], [], {}, None

    def reboot(self):
        """After a crash: processes are gone; the disk is what the crash left."""
        crash = self.crash
        self.stop()
        kept = None
        if crash.get('power'):
            kept = self.disk.lose(random.Random(f'disk:{crash.get("disk")}'))
        self.crash = self.crashed = None
        return kept

    def close(self):
        self.stop()
        self.listener.close()


def ready(fd, seconds):
    poll = dhook.real_poll()
    poll.register(fd, select.POLLIN)
    return bool(poll.poll(max(0, seconds) * 1000))


def reap():
    while True:
        try:
            pid, _ = real.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            return
        if not pid:
            return


def become_subreaper():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def mix(h, n):
    return (h * 1000003 + n) & 0xffffffffffff


def what(fault):
    if 'errno' in fault:
        import errno
        return errno.errorcode[fault['errno']]
    if 'raise' in fault:
        return fault['raise']
    if 'host' in fault:
        return 'host ' + fault['host']
    if 'exit' in fault:
        return f'exit {fault["exit"]}'
    return 'short write' if 'short' in fault else 'kill' if 'kill' in fault else str(fault)


def plain(where):
    """Without what differs between executions (addresses in temporary names)."""
    return ''.join(c for c in str(where) if not c.isdigit())


class Disk:
    """What is on the disk of the machine, and what of it would survive a power loss."""

    def __init__(self, site, now=0.0):
        self.site = site
        self.roots = [os.path.join(site, 'paradigm'), os.path.join(site, 'tmp')]
        with real.open(os.path.join(site, 'originals.json')) as file:
            self.originals = set(json.load(file))
        self.now = now
        self.changes = 0
        self.adopt()

    def scan(self):
        found = {}
        for root in self.roots:
            stack = [root]
            while stack:
                top = stack.pop()
                try:
                    with real.scandir(top) as entries:
                        for entry in entries:
                            path = entry.path
                            if entry.is_dir(follow_symlinks=False):
                                stack.append(path)
                                if path not in self.originals:
                                    found[path] = DIRECTORY, ()
                                continue
                            if path in self.originals:
                                continue
                            if entry.is_file(follow_symlinks=False):
                                s = entry.stat(follow_symlinks=False)
                                found[path] = (s.st_ino, (s.st_size, s.st_mtime_ns, s.st_ctime_ns))
                except FileNotFoundError:
                    pass
        return found

    def date(self, path, seconds):
        """The clock of the file system is the simulated one."""
        ns = int((EPOCH + seconds) * 10 ** 9)
        os.utime(path, ns=(ns, ns))
        s = real.stat(path)
        return s.st_size, s.st_mtime_ns, s.st_ctime_ns

    def sync(self, now):
        """Takes note of what the last operation did."""
        self.now = now
        found = self.scan()
        change = {}
        for path in self.entries:
            if path not in found:
                change[path] = None
        for path, (ino, stamp) in found.items():
            if self.entries.get(path) != ino:
                change[path] = ino
            if ino == DIRECTORY:
                continue
            if ino not in self.inodes or self.stamps.get(ino) != stamp:
                with real.open(path, 'rb') as file:
                    data = file.read()
                versions = self.inodes.setdefault(ino, [(b'', now)])
                if versions[-1][0] != data:
                    versions.append((data, now))
                    self.changes += 1
                elif ino in self.stamps and self.stamps[ino][1] != stamp[1]:
                    # written once more, or dated
                    versions[-1] = (data, now)
                self.stamps[ino] = self.date(path, versions[-1][1])
        if change:
            self.changes += 1
            self.journal.append(change)
            for path, ino in change.items():
                if ino is None:
                    del self.entries[path]
                else:
                    self.entries[path] = ino
                try:
                    self.date(os.path.dirname(path), now)
                except FileNotFoundError:
                    pass
            # numbers of removed files are used again
            used = set(self.durable.values()) | {ino for c in self.journal for ino in c.values()}
            present = set(self.entries.values())
            for ino in [i for i in self.inodes if i not in present]:
                versions = self.inodes.pop(ino)
                self.stamps.pop(ino, None)
                if ino in used and not isinstance(ino, str):
                    # keep its content under a number that cannot come back
                    alias = f'{ino}:{self.changes}'
                    self.inodes[alias] = versions
                    self.durable = {p: alias if i == ino else i for p, i in self.durable.items()}
                    self.journal = [{p: alias if i == ino else i for p, i in c.items()}
                                    for c in self.journal]
                elif ino in used:
                    self.inodes[ino] = versions

    def fsync(self, path):
        ino = self.entries.get(path)
        if ino in self.inodes:
            self.inodes[ino] = [self.inodes[ino][-1]]
        self.settle_entries()

    def settle_entries(self):
        self.durable = dict(self.entries)
        self.journal = []

    def settle(self):
        """Everything reaches the disk."""
        for ino in self.inodes:
            self.inodes[ino] = [self.inodes[ino][-1]]
        self.settle_entries()

    def lose(self, rng):
        """Power loss: rewrites the directory to one of the states the disk may be in."""
        keep = (len(self.journal) if rng.random() < 0.6
                else rng.randint(0, len(self.journal)))
        entries = dict(self.durable)
        for change in self.journal[:keep]:
            for path, ino in change.items():
                if ino is None:
                    entries.pop(path, None)
                else:
                    entries[path] = ino
        notes = [f'{keep} of {len(self.journal)} directory operations kept']
        files = {}
        chosen = {}
        for path, ino in sorted(entries.items()):
            if ino == DIRECTORY:
                files[path] = (None, 0)
                continue
            if ino not in chosen:
                chosen[ino] = survive(self.inodes[ino], rng)
            how, data, mtime = chosen[ino]
            files[path] = (data, mtime)
            notes.append(f'{path[len(self.site) + 1:]}: {how}, {len(data)} bytes')
        self.rewrite(files)
        return notes

    def rewrite(self, files):
        """files: path -> (content, time of the simulated clock)"""
        for path, (ino, _) in sorted(self.scan().items(), reverse=True):
            (os.rmdir if ino == DIRECTORY else os.unlink)(path)
        for path, (data, mtime) in files.items():
            if data is None:
                os.makedirs(path, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with real.open(path, 'wb') as file:
                file.write(data)
            self.date(path, mtime)
        self.adopt()

    def adopt(self):
        """What is there now has been there all the time."""
        self.entries, self.stamps, self.inodes = {}, {}, {}
        for path, (ino, stamp) in sorted(self.scan().items()):
            if ino == DIRECTORY:
                self.entries[path] = ino
                continue
            with real.open(path, 'rb') as file:
                data = file.read()
            mtime = real.stat(path).st_mtime - EPOCH
            self.inodes[ino] = [(data, mtime)]
            self.entries[path] = ino
            self.stamps[ino] = self.date(path, mtime)
        for root in self.roots:
            for top, _, _ in os.walk(root):
                self.date(top, self.now)
        self.settle_entries()

    def files(self):
        found = {}
        for path, (ino, _) in sorted(self.scan().items()):
            if ino == DIRECTORY:
                found[path] = (None, 0)
                continue
            with real.open(path, 'rb') as file:
                found[path] = (file.read(), real.stat(path).st_mtime - EPOCH)
        return found


def survive(versions, rng):
    """One of the contents a file may have after a power loss."""
    latest, mtime = versions[-1]
    if len(versions) == 1:
        return 'durable', latest, mtime
    r = rng.random()
    if r < 0.25:
        return 'complete', latest, mtime
    if r < 0.35:
        return 'older', *versions[rng.randrange(len(versions))]
    if r < 0.45:
        return 'empty', b'', mtime
    if r < 0.65:
        pages = max(1, len(latest) // PAGE)
        n = (rng.randint(0, pages) * PAGE if rng.random() < 0.6
             else rng.randint(0, len(latest)))
        return 'truncated', latest[:n], mtime
    if r < 0.8:
        n = rng.randint(0, len(latest)) // PAGE * PAGE
        return 'zero-filled end', latest[:n] + bytes(len(latest) - n), mtime
    pages = [latest[i:i + PAGE] for i in range(0, len(latest), PAGE)]
    share = rng.choice([0.2, 0.5])
    lost = [i for i in range(len(pages)) if rng.random() < share]
    for i in lost:
        pages[i] = bytes(len(pages[i]))
    return f'{len(lost)} of {len(pages)} pages lost', b''.join(pages), mtime
