"""Cooperative scheduler: real threads parked and released one at a time.

Every choice is drawn from one PRNG and recorded as a sparse list of decisions
``[task, local step, target]``; replaying the list reproduces the run without the PRNG.
Schedule points are delivered by a trace function (lines or opcodes of the package under
test), by the locks below, by patched sleeps and by the harness.
"""
import _thread
import os
import sys


def _after_fork():
    s = CURRENT
    if s is not None and s.cur is not None and s.cur.ident == _thread.get_ident():
        s.forked()


os.register_at_fork(after_in_child=_after_fork)

import queue  # noqa
import threading  # noqa
import time
import zlib

real_allocate_lock = _thread.allocate_lock
real_rlock = _thread.RLock
real_get_ident = _thread.get_ident
real_start = _thread.start_new_thread
real_sleep = time.sleep
real_monotonic = time.monotonic

CURRENT = None  # the scheduler of the current run, if any


class SimAbort(BaseException):
    """Unwinds a task whose run is over."""
    __sim_abort__ = True


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Task:
    __slots__ = ('id', 'fn', 'gate', 'step', 'pred', 'deadline', 'done', 'ident',
                 'last', 'sentinels', 'op', 'background')

    def __init__(self, id_, fn, background=False):
        self.background = background
        self.id, self.fn = id_, fn
        self.gate = real_allocate_lock()
        self.gate.acquire()
        self.step = 0
        self.pred = self.deadline = None
        self.done = False
        self.ident = None
        self.last = 'start'
        self.sentinels = []
        self.op = None


class Sched:
    def __init__(self, rng=None, decisions=None, p=0.01, weights=None,
                 max_steps=3_000_000):
        self.rng = rng
        self.replay = ({(d[0], d[1]): d[2] for d in decisions}
                       if decisions is not None else None)
        self.recorded = []
        self.p = p
        self.weights = {'line': 1, 'opcode': 0.3, 'call': 2, 'ext': 30,
                        'lock': 60, 'unlock': 60, 'op': 40}
        if weights:
            self.weights.update(weights)
        self.tasks = []
        self.cur = None
        self.steps = 0
        self.max_steps = max_steps
        self.credit = self._gap()
        self.now = 0.0
        self.log_hash = 0
        self.switches = 0
        self.switch_hash = 0
        self.finished = real_allocate_lock()
        self.finished.acquire()
        self.failure = None
        self.counts = {}
        self.over = False
        self.pid = os.getpid()

    # -- choices -----------------------------------------------------------------------
    def _gap(self):
        if self.rng is None:
            return float('inf')
        return self.rng.expovariate(self.p) if self.p > 0 else float('inf')

    def _pick(self, among):
        return among[self.rng.randrange(len(among))]

    # -- task life cycle ---------------------------------------------------------------
    def spawn(self, fn, background=False):
        task = Task(len(self.tasks), fn, background)
        self.tasks.append(task)
        real_start(self._body, (task,))
        return task

    def _body(self, task):
        task.gate.acquire()
        task.ident = real_get_ident()
        try:
            if not self.over:
                task.fn()
        except SimAbort:
            pass
        except BaseException as error:  # noqa
            import traceback
            self.fail('harness-error', traceback.format_exc())
        finally:
            sys.settrace(None)
            for lock in task.sentinels:
                lock._locked = False
            task.done = True
            task.step += 1
            self._exit(task)

    def run(self):
        """Runs all spawned tasks to completion; returns when no task is left."""
        global CURRENT
        CURRENT = self
        try:
            first = self._choose_blocked(None)
            self._activate(first)
            self.finished.acquire()
        finally:
            CURRENT = None
        return self.failure

    def _activate(self, task):
        self.cur = task
        task.gate.release()

    def _exit(self, task):
        if all(t.done or t.background for t in self.tasks):
            self.over = True  # threads that the code under test left behind end here
        if self.over:
            pending = [t for t in self.tasks if not t.done]
            if pending:  # unwind the rest one by one
                self._activate(pending[0])
                return
            self.finished.release()
            return
        nxt = self._choose_blocked(task)
        if nxt is None:
            self._over()
            self._exit(task)
            return
        self._activate(nxt)

    def _over(self):
        self.over = True

    def fail(self, kind, detail):
        if self.failure is None:
            self.failure = (kind, detail)
        self._over()

    def _runnable(self, t):
        return (not t.done
                and (t.pred is None or t.pred()
                     or (t.deadline is not None and t.deadline <= self.now)))

    def _eligible(self, t):
        """Any time may pass while the other tasks are stalled."""
        return self._runnable(t) or not t.done and t.deadline is not None

    def _elapse(self, t):
        if not self._runnable(t):
            self.now = max(self.now, t.deadline)

    def _choose_blocked(self, task):
        """Picks the next task when the current one cannot continue."""
        while True:
            among = [t for t in self.tasks if self._runnable(t)]
            if among:
                break
            deadlines = [t.deadline for t in self.tasks
                         if not t.done and t.deadline is not None]
            if not deadlines:
                self.fail('deadlock', 'every task waits for another: '
                          + '; '.join(f'task {t.id} at {t.last}'
                                      for t in self.tasks if not t.done))
                return None
            self.now = max(self.now, min(deadlines))
        among += [t for t in self.tasks if t not in among and self._eligible(t)]
        key = (-1, 0) if task is None else (task.id, -task.step - 1)
        if self.replay is not None:
            wanted = self.replay.get(key)
            chosen = next((t for t in among if t.id == wanted), among[0])
        else:
            chosen = self._pick(among) if len(among) > 1 else among[0]
            if chosen is not among[0]:
                self.recorded.append([*key, chosen.id])
        self._elapse(chosen)
        return chosen

    # -- schedule points ---------------------------------------------------------------
    def point(self, kind, where=0):
        task = self.cur
        if self.over:
            raise SimAbort
        task.step += 1
        self.steps += 1
        task.last = where
        self.log_hash = (self.log_hash * 1000003 + task.id * 31
                         + (where if type(where) is int
                            else zlib.crc32(where.encode()))
                         ) & 0xffffffffffff
        if self.steps > self.max_steps:
            self.fail('no-progress', f'more than {self.max_steps} steps')
            raise SimAbort
        if self.replay is not None:
            wanted = self.replay.get((task.id, task.step))
            if wanted is None:
                return
            target = self.tasks[wanted] if wanted < len(self.tasks) else None
            if target is None or target is task or not self._eligible(target):
                return
        else:
            self.credit -= self.weights[kind]
            if self.credit > 0:
                return
            self.credit = self._gap()
            among = [t for t in self.tasks if t is not task and self._eligible(t)]
            if not among:
                return
            target = self._pick(among)
            self.recorded.append([task.id, task.step, target.id])
        self._elapse(target)
        self._switch(task, target, where)

    def _switch(self, task, target, where):
        self.switches += 1
        self.switch_hash = (self.switch_hash * 1000003 + task.id * 131
                            + target.id * 17
                            + (where if type(where) is int
                               else zlib.crc32(where.encode()))
                            ) & 0xffffffffffff
        self._activate(target)
        task.gate.acquire()
        if self.over:
            raise SimAbort

    def wait(self, pred, where, timeout=None):
        """Blocks the current task until pred() or the (simulated) timeout."""
        task = self.cur
        if self.over:
            raise SimAbort
        deadline = None if timeout is None else self.now + max(timeout, 0)
        while not pred():
            if deadline is not None and self.now >= deadline:
                return False
            task.step += 1
            task.last = where
            task.pred, task.deadline = pred, deadline
            target = self._choose_blocked(task)
            if target is None:
                raise SimAbort
            if target is not task:
                self._switch(task, target, where)
            task.pred = task.deadline = None
        return True

    def owns(self):
        return (not self.over and self.cur is not None
                and self.cur.ident == real_get_ident()
                # handlers of forks that run before ours
                and self.pid == os.getpid())

    def forked(self):
        """Called in a forked child: only the current task survives."""
        cur = self.cur
        cur.ident = real_get_ident()
        self.pid = os.getpid()
        for t in self.tasks:
            if t is not cur:
                t.done = True


def active():
    s = CURRENT
    return s if s is not None and s.owns() else None


def outside(take, timeout):
    """Waits for a lock outside of a run: for a real thread, if there is any."""
    end = real_monotonic() + (20 if timeout is None or timeout < 0 else timeout)
    while not take():
        if real_monotonic() > end:
            if timeout is not None and timeout >= 0:
                return False
            raise RuntimeError('the lock is held for ever')
        real_sleep(0.0005)
    return True


# -- locks -----------------------------------------------------------------------------

class SimLock:
    """threading.Lock that hands control to the scheduler; a plain flag outside runs."""

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        if s is None:
            if self._locked and blocking:
                if CURRENT is not None and CURRENT.over:
                    raise SimAbort
                return outside(self._take, timeout)
            return self._take()
        s.point('lock', 'lock.acquire')
        if self._locked:
            if not blocking:
                return False
            if not s.wait(self._free, 'lock.wait',
                          None if timeout is None or timeout < 0 else timeout):
                return False
        self._locked = True
        return True

    def _free(self):
        return not self._locked

    def _take(self):
        if self._locked:
            return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s = active()
        if s is not None:
            s.point('unlock', 'lock.release')

    def locked(self):
        return self._locked

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class SimRLock:
    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        me = real_get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if s is None:
            if self._owner is not None:
                if CURRENT is not None and CURRENT.over:
                    raise SimAbort
                if not blocking:
                    return False
                return outside(self._take, timeout)
        else:
            s.point('lock', 'rlock.acquire')
            if self._owner is not None:
                if not blocking:
                    return False
                if not s.wait(self._free, 'rlock.wait',
                              None if timeout is None or timeout < 0
                              else timeout):
                    return False
        self._owner, self._count = me, 1
        return True

    def _free(self):
        return self._owner is None

    def _take(self):
        if self._owner is not None:
            return False
        self._owner, self._count = real_get_ident(), 1
        return True

    def release(self):
        if self._owner != real_get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            s = active()
            if s is not None:
                s.point('unlock', 'rlock.release')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == real_get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        state = self._count, self._owner
        self._owner, self._count = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state[0]


def install():
    """Replaces the lock primitives for everything imported from now on."""
    _thread.allocate_lock = _thread.allocate = SimLock
    _thread.RLock = SimRLock
    threading.Lock = threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    threading.RLock = SimRLock
    # modules that are imported already took the originals by value
    for name in ('functools', 'reprlib'):
        module = sys.modules.get(name)
        if module is not None and hasattr(module, 'RLock'):
            module.RLock = SimRLock

    def start_new_thread(function, args, kwargs={}):
        s = active()
        if s is None:
            return real_start(function, args, kwargs)
        s.spawn(lambda: function(*args, **kwargs), background=True)
        s.point('lock', 'thread.start')
        return 0

    def set_sentinel():
        s = active()
        if s is None:
            return real_set_sentinel()
        lock = SimLock()
        s.cur.sentinels.append(lock)
        return lock

    real_set_sentinel = threading._set_sentinel
    threading._set_sentinel = set_sentinel
    threading._start_new_thread = start_new_thread
    _thread.start_new_thread = _thread.start_new = start_new_thread

    # the C implementation blocks without the scheduler knowing
    queue.SimpleQueue = queue._PySimpleQueue

    def sleep(seconds):
        s = active()
        if s is None:
            return real_sleep(seconds)
        s.wait(lambda: False, 'sleep', seconds)

    time.sleep = sleep
