"""The part of the host simulator that lives inside every simulated process.

Replaces the points where a process meets the rest of the world (files, directories, processes,
pipes, locks, threads, clock, randomness) by points of the simulator: the thread tells the
scheduler what it is about to do, waits until it is told to go on, and fails the way it is told to.
Inactive, and transparent, until join() is called.
"""
import _thread
import builtins
import errno
import fcntl
import io
import json
import os
import posix
import random
import select
import socket
import stat
import sys
import time
import types

real = types.SimpleNamespace(
        open=io.open, os_open=os.open, read=os.read, write=os.write, close=os.close,
        fork=os.fork, waitpid=os.waitpid, getpid=os.getpid,
        getppid=os.getppid, kill=os.kill, pipe=os.pipe, stat=os.stat, lstat=os.lstat,
        scandir=os.scandir, listdir=os.listdir, sleep=time.sleep, time=time.time, time_ns=time.time_ns, monotonic=time.monotonic, perf_counter=time.perf_counter,
        urandom=os.urandom, allocate_lock=_thread.allocate_lock, rlock=_thread.RLock,
        get_ident=_thread.get_ident, start=_thread.start_new_thread, exit=os._exit)
NODE = None  # this process in the simulation
INSTALLED = False
ACT = None  # changes something in the importing program
PIPE_CHUNK = 4096
PIDS = 5000000  # numbers of simulated processes begin here


class SimAbort(BaseException):
    __sim_abort__ = True


class Endpoint:
    """One thread's line to the scheduler."""
    __slots__ = ('sock', 'buffer', 'busy', 'credit', 'ident')

    def __init__(self, addr, hello):
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.buffer = b''
        self.busy = False
        self.credit = 0
        self.ident = real.get_ident()
        self.sock.connect(addr)
        NODE.note(self.call(hello))

    def call(self, message):
        self.busy = True
        try:
            self.sock.sendall(json.dumps(message).encode() + b'\n')
            while True:
                line, found, rest = self.buffer.partition(b'\n')
                if found:
                    self.buffer = rest
                    break
                data = self.sock.recv(1 << 16)
                if not data:
                    real.exit(99)  # the simulation is over
                self.buffer += data
            reply = json.loads(line)
        finally:
            self.busy = False
        node = NODE
        if node is not None and 'now' in reply:
            node.now = reply['now']
        if 'credit' in reply:
            self.credit = reply['credit']
        return reply


class Node:
    def __init__(self, addr, site, parent=None):
        self.addr, self.site = addr, site
        self.pid, self.parent = real.getpid(), real.getppid()
        self.now = 0.0
        self.endpoints = {}
        self.files = {}
        self.package = os.path.join(site, 'paradigm') + '/'
        self.temporary = os.path.join(site, 'tmp') + '/'
        with real.open(os.path.join(site, 'originals.json')) as file:
            self.originals = set(json.load(file))
        self.config = {}
        self.names = self.pid_number = 0
        self.dirs = None
        self.rng = None
        self.calls = None

    def note(self, reply):
        config = reply.get('config')
        if config is not None:
            self.config = config
            self.pid_number = config.get('number', 0)
            self.rng = random.Random(config.get('seed', 0))
            self.dirs = random.Random(config['dirs']) if config.get('dirs') is not None else None
            self.calls = config.get('call')
            self.count = 0
            monitor(config.get('mode'))

    def tracked(self, path):
        """Absolute path if a file of the simulation's interest is named."""
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith('/'):
            path = os.path.join(os.getcwd(), path)
        if '/../' in path or '/./' in path or '//' in path:
            path = os.path.normpath(path)
        if path.startswith(self.temporary):
            return path
        if path.startswith(self.package) and path not in self.originals:
            return path
        return None

    def short(self, path):
        return path[len(self.site) + 1:] if path.startswith(self.site) else path


def endpoint():
    node = NODE
    if node is None or node.pid != real.getpid():
        return None
    e = node.endpoints.get(real.get_ident())
    return None if e is None or e.busy else e


def point(kind, where='', **extra):
    """Schedule and fault point: returns the reply."""
    e = endpoint()
    if e is None:
        return {}
    reply = e.call({'t': 'point', 'k': kind, 'w': where, **extra})
    fault = reply.get('fault')
    if fault is not None:
        strike(fault, where)
    return reply


def strike(fault, where):
    if 'errno' in fault:
        raise OSError(fault['errno'], os.strerror(fault['errno']), where)
    if 'exit' in fault:
        real.exit(fault['exit'])
    if 'host' in fault:
        if ACT is not None:
            ACT(fault['host'])
        return
    if 'raise' in fault:
        raise exceptions()[fault['raise']]('injected')


def done(kind, where='', **extra):
    e = endpoint()
    if e is not None:
        e.call({'t': 'done', 'k': kind, 'w': where, **extra})


def wait_until(pred, where, timeout=None):
    """Blocks the current thread in simulated time."""
    e = endpoint()
    deadline = None if timeout is None or e is None else NODE.now + max(timeout, 0)
    while True:
        if pred():
            return True
        if e is None:
            raise RuntimeError(f'blocked outside of the simulation: {where}')
        reply = e.call({'t': 'block', 'w': where, 'd': deadline})
        if reply.get('timeout'):
            return pred()
        if reply.get('fault'):
            strike(reply['fault'], where)


def pause(where):
    """Others go on while a thread looks whether something has happened."""
    wait_until(lambda: False, where, 0.001)


_exceptions = None


def exceptions():
    global _exceptions
    if _exceptions is None:
        import dfaults
        _exceptions = {name: value for name, value in vars(dfaults).items()
                       if isinstance(value, type) and issubclass(value, BaseException)}
        _exceptions.update(MemoryError=MemoryError, RecursionError=RecursionError,
                           KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit,
                           ValueError=ValueError, OSError=OSError)
    return _exceptions


# -- files -----------------------------------------------------------------------------

MUTATING = set('wax+')


def is_stream(fd):
    try:
        mode = os.fstat(fd).st_mode
    except OSError:
        return False
    return stat.S_ISFIFO(mode) or stat.S_ISSOCK(mode)


def chunked(where, data, write):
    """A write is not atomic: it reaches the file in pieces, and may stop after some of them."""
    size = NODE.config.get('chunk', 1 << 30) if NODE is not None else 1 << 30
    total = 0
    while True:
        piece = data[total:total + size]
        try:
            reply = point('write', where, n=len(piece))
        except OSError:
            if total:
                return total
            raise
        short = reply.get('short')
        if short is not None and len(piece) > 1:
            total += write(piece[:max(1, min(len(piece) - 1, int(len(piece) * short)))])
            done('write', where)
            return total
        total += write(piece)
        done('write', where)
        if total >= len(data):
            return total


class SimFileIO(io.FileIO):
    _where = None
    _writes = _stream = False

    def __init__(self, file, mode='r', closefd=True, opener=None):
        node = NODE
        where = None
        if endpoint() is not None:
            if isinstance(file, int):
                if file in node.files:
                    where = node.files[file]
                elif is_stream(file):
                    self._stream = True
            else:
                where = node.tracked(file)
        self._writes = bool(MUTATING & set(mode))
        if where is not None and not isinstance(file, int):
            point('open:w' if self._writes else 'open:r', node.short(where))
        super().__init__(file, mode, closefd, opener)
        if where is not None:
            self._where = node.short(where)
            node.files[self.fileno()] = where
            if self._writes and not isinstance(file, int):
                done('open:w', self._where)

    def write(self, data):
        if self._stream:
            return stream_write(self.fileno(), bytes(data), super().write)
        if self._where is None:
            return super().write(data)
        return chunked(self._where, bytes(data), super().write)

    def readinto(self, buffer):
        if self._stream:
            wait_readable(self.fileno(), 'pipe file')
        elif self._where is not None:
            point('read', self._where)
        return super().readinto(buffer)

    def readall(self):
        if self._stream:
            chunks = []
            while True:
                wait_readable(self.fileno(), 'pipe file')
                chunk = super().read(1 << 16)
                if not chunk:
                    return b''.join(chunks)
                chunks.append(chunk)
        if self._where is not None:
            point('read', self._where)
        return super().readall()

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        if self._stream:
            wait_readable(self.fileno(), 'pipe file')
        elif self._where is not None:
            point('read', self._where)
        return super().read(size)

    def truncate(self, size=None):
        if self._where is not None:
            point('write', self._where)
        result = super().truncate(size)
        if self._where is not None:
            done('write', self._where)
        return result

    def close(self):
        if self.closed or self._where is None or endpoint() is None:
            return super().close()
        if NODE is not None and self.closefd:
            NODE.files.pop(self.fileno(), None)
        try:
            if self._writes:
                point('close', self._where)
        finally:
            super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    node = NODE
    if endpoint() is None or not isinstance(mode, str):
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if 'b' not in mode and encoding in (None, 'locale'):
        # of the language of the user
        encoding = node.config.get('encoding', encoding)
    if isinstance(file, int):
        if file not in node.files and not is_stream(file):
            return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif node.tracked(file) is None:
        if node.config.get('stubs') and os.fspath(file).endswith('.pyi'):
            point('stub', os.path.basename(file))
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    if not binary:
        encoding = io.text_encoding(encoding)
    raw = SimFileIO(file, raw_mode, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = buffering == 1 and not binary
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in raw_mode:
            buffer = io.BufferedRandom(raw, size)
        elif MUTATING & set(raw_mode):
            buffer = io.BufferedWriter(raw, size)
        else:
            buffer = io.BufferedReader(raw, size)
        if binary:
            return buffer
        text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def sim_open_code(path):
    return sim_open(path, 'rb')


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    where = NODE.tracked(path) if endpoint() is not None and dir_fd is None else None
    if where is None:
        return real.os_open(path, flags, mode, dir_fd=dir_fd)
    node = NODE
    writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    point('open:w' if writes else 'open:r', node.short(where))
    fd = real.os_open(path, flags, mode)
    node.files[fd] = where
    if writes:
        done('open:w', node.short(where))
    return fd


def wait_readable(fd, where):
    poller = real_poll()
    poller.register(fd, select.POLLIN | select.POLLHUP | select.POLLERR)
    wait_until(lambda: poller.poll(0), where)


def stream_write(fd, data, write):
    poller = real_poll()
    poller.register(fd, select.POLLOUT | select.POLLERR)
    sent = 0
    while True:
        point('pipe-write', 'pipe', n=len(data) - sent)
        wait_until(lambda: poller.poll(0), 'writing to a full pipe')
        sent += write(data[sent:sent + PIPE_CHUNK])
        if sent >= len(data):
            return sent


def sim_read(fd, n):
    if endpoint() is None:
        return real.read(fd, n)
    where = NODE.files.get(fd)
    if where is not None:
        point('read', NODE.short(where))
    elif is_stream(fd):
        point('pipe-read', 'pipe')
        wait_readable(fd, 'reading from an empty pipe')
    return real.read(fd, n)


def sim_write(fd, data):
    if endpoint() is None:
        return real.write(fd, data)
    where = NODE.files.get(fd)
    if where is not None:
        return chunked(NODE.short(where), bytes(data), lambda piece: real.write(fd, piece))
    if is_stream(fd):
        return stream_write(fd, bytes(data), lambda chunk: real.write(fd, chunk))
    return real.write(fd, data)


def sim_close(fd):
    if NODE is not None and endpoint() is not None:
        where = NODE.files.pop(fd, None)
        if where is not None:
            try:
                point('close', NODE.short(where))
            finally:
                real.close(fd)
            return None
        try:
            stream = is_stream(fd)
        except Exception:
            stream = False
        real.close(fd)
        if stream:
            done('pipe-close', 'pipe')
        return None
    return real.close(fd)


def mutator(name, kind, paths=1):
    function = getattr(os, name)

    def wrapped(*args, **kwargs):
        where = None
        if endpoint() is not None:
            for arg in [*args[:paths], *kwargs.values()]:
                if isinstance(arg, int) and arg in NODE.files:
                    where = NODE.files[arg]
                elif isinstance(arg, (str, bytes, os.PathLike)):
                    where = where or NODE.tracked(arg)
        if where is None:
            return function(*args, **kwargs)
        where = NODE.short(where)
        point(kind, where)
        result = function(*args, **kwargs)
        done(kind, where)
        return result

    wrapped.__name__ = name
    return wrapped


def syncer(name):
    function = getattr(os, name)

    def wrapped(fd):
        if endpoint() is None:
            return function(fd)
        number = fd if isinstance(fd, int) else fd.fileno()
        where = NODE.files.get(number)
        if where is None:
            return None  # nothing of the simulation: spare the real disk
        point('fsync', NODE.short(where))
        done('fsync', NODE.short(where), path=where)
        return None

    return wrapped


def sim_stat(path, *args, **kwargs):
    if endpoint() is not None and not isinstance(path, int):
        where = NODE.tracked(path)
        if where is not None and where.startswith(NODE.package) and where[-1] != '/':
            point('stat', NODE.short(where))
    return real.stat(path, *args, **kwargs)


class Entries:
    """Directory entries in the order of the simulated file system."""

    def __init__(self, path, rng):
        with real.scandir(path) as entries:
            self._entries = sorted(entries, key=lambda entry: entry.name)
        rng = random.Random(f'{rng}:{len(self._entries)}')
        rng.shuffle(self._entries)
        self._iterator = iter(self._entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._iterator)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self._iterator = iter(())


def sim_scandir(path='.'):
    if NODE is None or NODE.config.get('dirs') is None or isinstance(path, int):
        return real.scandir(path)
    return Entries(path, NODE.config['dirs'])


def sim_listdir(path='.'):
    result = real.listdir(path)
    if NODE is not None and NODE.config.get('dirs') is not None:
        result.sort()
        random.Random(f'{NODE.config["dirs"]}:{len(result)}').shuffle(result)
    return result


# -- processes -------------------------------------------------------------------------

def sim_fork():
    e = endpoint()
    if e is None:
        pid = real.fork()
        if not pid and NODE is not None:
            leave()  # a thread the simulation does not know
        return pid
    point('fork', 'fork')
    addr, site = NODE.addr, NODE.site
    IMPORT_LOCK.acquire()  # like the interpreter does
    try:
        pid = real.fork()
    finally:
        IMPORT_LOCK.release()
    if not pid:
        leave()
        join(addr, site)
        return pid
    e.call({'t': 'forked', 'pid': pid})
    return pid


def leave():
    """Forgets the simulation of the parent."""
    global NODE
    node, NODE = NODE, None
    for e in node.endpoints.values():
        e.sock.close()


def join(addr, site, **hello):
    global NODE
    NODE = node = Node(addr, site)
    e = Endpoint(addr, {'t': 'hello', 'pid': node.pid, 'ppid': real.getppid(), **hello})
    node.endpoints[e.ident] = e
    import tempfile
    tempfile._name_sequence = names(node.config.get('number', 0))
    random.seed(node.config.get('number', 0))
    return e


def names(number):
    n = 0
    while True:
        n += 1
        yield f'sim{number}x{n}'


def sim_exit(status):
    """A process may be slow to end, which nothing that it runs can prevent."""
    try:
        point('exit', 'exit')
    except BaseException:  # noqa
        pass
    real.exit(status)


def sim_waitpid(pid, options):
    if endpoint() is None:
        return real.waitpid(pid, options)
    if options & os.WNOHANG:
        result = real.waitpid(pid, options)
        if not result[0]:
            pause('waitpid')
        return result
    point('waitpid', 'waitpid')
    found = []

    def ended():
        result = real.waitpid(pid, options | os.WNOHANG)
        if result[0]:
            found.append(result)
        return found

    wait_until(ended, 'waiting for a child process')
    return found[0]


def sim_getpid():
    """Numbers of processes repeat from one boot to the next."""
    node, pid = NODE, real.getpid()
    return pid if node is None or node.pid != pid else node.config.get('pid', pid)


def sim_getppid():
    node, ppid = NODE, real.getppid()
    if node is None or node.pid != real.getpid():
        return ppid
    return node.config.get('ppid', ppid) if ppid == node.parent else 1


def sim_kill(pid, sig):
    e = endpoint()
    if e is None:
        return real.kill(pid, sig)
    point('kill', 'kill')
    if pid >= PIDS:
        pid = e.call({'t': 'pid', 'pid': pid}).get('pid')
        if pid is None:
            raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    result = real.kill(pid, sig)
    if sig:
        endpoint().call({'t': 'killed', 'pid': pid})
    return result


def sim_pipe():
    point('pipe', 'pipe')
    result = real.pipe()
    if NODE is not None and NODE.config.get('pipe'):
        fcntl.fcntl(result[1], 1031, NODE.config['pipe'])  # F_SETPIPE_SZ
    return result


def sim_id(value):
    """Distinguishes the names of temporary files."""
    node = NODE
    if node is None or not isinstance(value, str):
        return id(value)
    node.names += 1
    return node.pid_number * 1000 + node.names


def sim_spawnv(function):
    def spawnv_passfds(path, args, passfds):
        e = endpoint()
        helper = any('resource_tracker' in str(a) for a in args)
        if e is None or helper:
            return function(path, args, passfds)
        point('spawn', 'spawn')
        pid = function(path, args, passfds)
        e.call({'t': 'forked', 'pid': pid, 'exec': True})
        return pid

    return spawnv_passfds


# -- time and randomness ---------------------------------------------------------------

def sim_time():
    return real.time() if NODE is None else 1_700_000_000 + NODE.now


def sim_monotonic():
    return real.monotonic() if NODE is None else NODE.now


def sim_sleep(seconds):
    if endpoint() is None:
        return real.sleep(seconds)
    wait_until(lambda: False, 'sleep', seconds)


def sim_urandom(n):
    return real.urandom(n) if NODE is None or NODE.rng is None else NODE.rng.randbytes(n)


# -- threads and locks -----------------------------------------------------------------

class SimLock:
    def __init__(self):
        self._locked = False

    def _take(self):
        if self._locked:
            return False
        self._locked = True
        return True

    def acquire(self, blocking=True, timeout=-1):
        if self._locked:
            if not blocking:
                return False
            if endpoint() is None:
                return outside(self._take, timeout)
            return wait_until(self._take, 'lock', timeout if timeout is not None
                              and timeout >= 0 else None)
        if endpoint() is not None and crowded():
            point('lock', 'lock')
            if self._locked:
                return self.acquire(blocking, timeout)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if crowded() and endpoint() is not None:
            point('unlock', 'lock')

    def locked(self):
        return self._locked

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


def crowded():
    node = NODE
    return node is not None and len(node.endpoints) > 1


def outside(take, timeout):
    end = real.monotonic() + (20 if timeout is None or timeout < 0 else timeout)
    while not take():
        if real.monotonic() > end:
            if timeout is not None and timeout >= 0:
                return False
            raise RuntimeError('the lock is held for ever')
        real.sleep(0.0005)
    return True


class SimRLock:
    def __init__(self):
        self._owner, self._count = None, 0

    def _take(self):
        if self._owner is not None:
            return False
        self._owner, self._count = real.get_ident(), 1
        return True

    def acquire(self, blocking=True, timeout=-1):
        if self._owner == real.get_ident():
            self._count += 1
            return True
        if self._take():
            return True
        if not blocking:
            return False
        if endpoint() is None:
            return outside(self._take, timeout)
        return wait_until(self._take, 'rlock', timeout if timeout is not None
                          and timeout >= 0 else None)

    def release(self):
        if self._owner != real.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == real.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        state = self._count, self._owner
        self._owner, self._count = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state[0]


IMPORT_LOCK = SimRLock()


def install_locks():
    """Before anything else is imported."""
    import importlib._bootstrap as bootstrap
    bootstrap._imp = Proxy(bootstrap._imp, acquire_lock=IMPORT_LOCK.acquire,
                           release_lock=IMPORT_LOCK.release,
                           lock_held=lambda: IMPORT_LOCK._owner is not None)
    _thread.allocate_lock = _thread.allocate = SimLock
    _thread.RLock = SimRLock
    import functools
    import reprlib
    import threading
    threading.Lock = threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    threading.RLock = SimRLock
    for module in (functools, reprlib):
        if hasattr(module, 'RLock'):
            module.RLock = SimRLock

    def start_new_thread(function, args, kwargs={}):
        e = endpoint()
        if e is None:
            return real.start(function, args, kwargs)
        started = real.allocate_lock()
        started.acquire()

        def body():
            node = NODE
            ident = real.get_ident()
            started.release()
            mine = Endpoint(node.addr, {'t': 'hello', 'pid': node.pid, 'thread': True})
            node.endpoints[ident] = mine
            try:
                function(*args, **kwargs)
            finally:
                for lock in sentinels.pop(ident, ()):
                    lock._locked = False
                if NODE is node:
                    node.endpoints.pop(ident, None)
                    mine.sock.sendall(b'{"t": "bye"}\n')
                    mine.sock.close()

        result = real.start(body, ())
        started.acquire()
        e.call({'t': 'thread', 'ident': result})
        return result

    sentinels = {}
    real_set_sentinel = threading._set_sentinel

    def set_sentinel():
        if endpoint() is None:
            return real_set_sentinel()
        lock = SimLock()
        sentinels.setdefault(real.get_ident(), []).append(lock)
        return lock

    threading._set_sentinel = set_sentinel
    threading._start_new_thread = start_new_thread
    _thread.start_new_thread = _thread.start_new = start_new_thread
    import queue
    queue.SimpleQueue = queue._PySimpleQueue


# -- points inside the package ---------------------------------------------------------

TOOL = 3
_codes = {}
_monitoring = None


def classify(code):
    try:
        return _codes[code]
    except KeyError:
        name = code.co_filename
        node = NODE
        found = _codes[code] = (node is not None and name.startswith(node.package)
                                and name in node.originals)
        return found


def monitor(mode):
    global _monitoring
    if mode == _monitoring:
        return
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'pdsim')
        mon.register_callback(TOOL, mon.events.PY_START, on_start)
        mon.register_callback(TOOL, mon.events.LINE, on_line)
    events = {None: 0, 'call': mon.events.PY_START,
              'line': mon.events.PY_START | mon.events.LINE}[mode]
    _monitoring = mode
    mon.set_events(TOOL, events)
    mon.restart_events()


def on_line(code, line):
    if not classify(code):
        return sys.monitoring.DISABLE
    e = endpoint()
    if e is None or len(NODE.endpoints) < 2:
        return None
    e.credit -= 1
    if e.credit <= 0:
        e.call({'t': 'point', 'k': 'line', 'w': f'{os.path.basename(code.co_filename)}:{line}'})


def on_start(code, offset):
    if not classify(code):
        return sys.monitoring.DISABLE
    node = NODE
    if node is None or node.calls is None or endpoint() is None:
        return None
    node.count += 1
    if node.count == node.calls['k']:
        fault = node.calls['fault']
        where = f'{os.path.basename(code.co_filename)}:{code.co_qualname}'
        reply = endpoint().call({'t': 'point', 'k': 'call', 'w': where, 'struck': True})
        if fault.get('kill'):
            wait_until(lambda: False, 'killed')
        strike(fault, where)


# -- installation ----------------------------------------------------------------------

class Proxy:
    """A module with some of its functions replaced."""

    def __init__(self, module, **replaced):
        self.__dict__['_module'] = module
        self.__dict__.update(replaced)

    def __getattr__(self, name):
        return getattr(self._module, name)


class Names(tuple):
    """Of all builtin modules only some are enumerated."""

    def __iter__(self):
        if NODE is not None and not NODE.config.get('real'):
            return iter(('builtins', 'sys'))
        return super().__iter__()


_poll = select.poll
_epoll = select.epoll


def real_poll():
    return _poll()


class SimPoll:
    """select.poll that waits in simulated time."""

    def __init__(self):
        self._poll = _poll()

    def register(self, *args):
        return self._poll.register(*args)

    def unregister(self, *args):
        return self._poll.unregister(*args)

    def modify(self, *args):
        return self._poll.modify(*args)

    def poll(self, timeout=None):
        if endpoint() is None:
            return self._poll.poll(timeout)
        if timeout is not None and timeout <= 0:
            return self._poll.poll(0) or pause('poll') or self._poll.poll(0)
        found = []

        def ready():
            found[:] = self._poll.poll(0)
            return found

        wait_until(ready, 'poll', None if timeout is None or timeout < 0 else timeout / 1000)
        return found


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    install_locks()
    import importlib._bootstrap_external as external
    import selectors
    import sysconfig
    import tempfile  # noqa
    functions = {
        'open': sim_os_open, 'read': sim_read, 'write': sim_write, 'close': sim_close,
        'fork': sim_fork, 'waitpid': sim_waitpid, '_exit': sim_exit,
        'kill': sim_kill, 'pipe': sim_pipe,
        'getpid': sim_getpid, 'getppid': sim_getppid, 'stat': sim_stat, 'scandir': sim_scandir,
        'listdir': sim_listdir, 'urandom': sim_urandom,
        'fsync': syncer('fsync'), 'fdatasync': syncer('fdatasync'),
    }
    for name, kind, paths in [('replace', 'rename', 2), ('rename', 'rename', 2),
                              ('unlink', 'unlink', 1), ('remove', 'unlink', 1),
                              ('rmdir', 'unlink', 1), ('mkdir', 'mkdir', 1),
                              ('link', 'rename', 2), ('symlink', 'rename', 2),
                              ('truncate', 'write', 1), ('ftruncate', 'write', 1),
                              ('utime', 'meta', 1), ('chmod', 'meta', 1)]:
        functions[name] = mutator(name, kind, paths)
    for name, function in functions.items():
        setattr(os, name, function)
    builtins.open = io.open = sim_open
    io.open_code = sim_open_code
    external._os = Proxy(posix, **functions)
    external._io = Proxy(external._io, FileIO=SimFileIO, open_code=sim_open_code, open=sim_open)
    external.id = sim_id
    time.time, time.sleep = sim_time, sim_sleep
    time.time_ns = lambda: int(sim_time() * 10 ** 9)
    time.monotonic = time.perf_counter = sim_monotonic
    time.monotonic_ns = lambda: int(sim_monotonic() * 10 ** 9)
    import threading
    threading._time = sim_monotonic
    import queue
    queue.time = sim_monotonic
    select.poll = SimPoll
    selectors.PollSelector._selector_cls = SimPoll
    selectors.DefaultSelector = selectors.PollSelector
    import _multiprocessing
    import multiprocessing.connection as connection
    import multiprocessing.util as util
    import multiprocessing.synchronize as synchronize  # noqa
    connection.Connection._write = staticmethod(sim_write)
    connection.Connection._read = staticmethod(sim_read)
    connection.Connection._send.__defaults__ = (sim_write,)
    connection.Connection._recv.__defaults__ = (sim_read,)
    connection.Connection._close.__defaults__ = (sim_close,)
    connection._WaitSelector = selectors.PollSelector
    util.spawnv_passfds = sim_spawnv(util.spawnv_passfds)

    class SemLock(_multiprocessing.SemLock):
        def acquire(self, block=True, timeout=None):
            take = super().acquire
            if endpoint() is None:
                return take(block, timeout)
            point('lock', 'semaphore')
            if take(False):
                return True
            if not block:
                return False
            return bool(wait_until(lambda: take(False), 'semaphore', timeout))

        def release(self):
            super().release()
            done('unlock', 'semaphore')

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *args):
            self.release()

    _multiprocessing.SemLock = SemLock
    import multiprocessing.reduction as reduction
    dumps = reduction.ForkingPickler.dumps.__func__

    def sim_dumps(cls, obj, protocol=None):
        point('pickle', 'pickle')
        return dumps(cls, obj, protocol)

    reduction.ForkingPickler.dumps = classmethod(sim_dumps)
    get_path = sysconfig.get_path

    def sim_get_path(name, *args, **kwargs):
        if (NODE is not None and name in ('stdlib', 'platstdlib')
                and not NODE.config.get('real')):
            return os.path.join(NODE.config.get('lib', NODE.site), 'stdlib')
        return get_path(name, *args, **kwargs)

    sysconfig.get_path = sim_get_path
    sys.builtin_module_names = Names(sys.builtin_module_names)
