"""Deterministic simulator for multi-threaded Python code.

Real OS threads are used only as stacks: exactly one of them holds the baton at any
time and the simulator decides, at every *point*, which one runs next.  Points are

  * every operation of a lock, and hence of every event, condition, semaphore, queue
    and thread start/join/exit of the standard library (all built on our lock),
  * every sleep,
  * every source line executed in the repository under test (sys.monitoring),
  * explicit points in harness objects (key comparisons, source calls).

Time is virtual: it moves only when nothing can run (to the next deadline), by a
per-point epsilon when a run asks for it, and by injected stalls.

One run is a pure function of (plan, seed, code); every scheduling decision that differs
from the default policy is recorded as a *deviation*, and (plan, deviations, code)
replays it exactly without the PRNG.

install() must be called before the code under test is imported.
"""
import atexit
import sys
import _thread
import threading
import time
import random
import hashlib
import gc
import weakref


class _Real:
    allocate_lock = staticmethod(_thread.allocate_lock)
    start_new_thread = staticmethod(_thread.start_new_thread)
    sleep = staticmethod(time.sleep)
    monotonic = staticmethod(time.monotonic)
    time = staticmethod(time.time)
    Thread = threading.Thread
    get_ident = staticmethod(_thread.get_ident)
    atexit_register = staticmethod(atexit.register)
    atexit_unregister = staticmethod(atexit.unregister)
    thread_atexit = staticmethod(threading._register_atexit)


REAL = _Real
WALL0 = 1_600_000_000.0
SIM = None  # the active simulation, if any
REPO_PREFIX = '/repo/'

NEW, RUN, BLOCKED, DONE = 'new', 'run', 'blocked', 'done'


class SimAbort(BaseException):
    """Unwinds the threads of a finished or failed run."""


class HarnessError(Exception):
    """The harness itself is wrong (never a violation)."""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg = cls, msg


class Task:
    __slots__ = (
        'id', 'name', 'state', 'deadline', 'baton', 'thread', 'exc', 'joiners',
        'wake', 'daemon', 'prio', 'blocks', 'intr', 'abort_raises', 'site', 'released',
        'nostall', 'waiting_on', 'finished', 'stalled', 'timed', 'points',
    )

    def __init__(self, id, name, daemon):
        self.id = id
        self.name = name
        self.state = NEW
        self.deadline = None
        self.baton = REAL.allocate_lock()
        self.baton.acquire()
        self.finished = REAL.allocate_lock()
        self.finished.acquire()
        self.thread = None
        self.exc = None
        self.joiners = []
        self.wake = None
        self.daemon = daemon
        self.prio = 0.0
        self.blocks = 0
        self.intr = None
        self.abort_raises = 0
        self.site = 'start'
        self.released = False
        self.nostall = False
        self.waiting_on = None
        self.stalled = False
        self.timed = 0
        self.points = 0


class Strategy:
    """How schedules are drawn.  All draws come from one PRNG, only while exploring."""

    def __init__(self, seed, cfg):
        self.rng = random.Random(seed)
        self.cfg = cfg
        self.mode = cfg.get('mode', 'rand')
        self.p_line = cfg.get('p_line', 0.02)
        self.p_sync = cfg.get('p_sync', 0.3)
        self.p_stall = cfg.get('p_stall', 0.0)
        self.stall_max = cfg.get('stall_max', 2.0)
        self.changes = set()
        if self.mode == 'pct':
            n = self.rng.randint(1, 4)
            span = int(10 ** self.rng.uniform(1.5, 3.7))
            self.changes = {self.rng.randint(1, span) for _ in range(n)}
        self.line_gap = self._gap()

    def _gap(self):
        p = self.p_line
        if p <= 0:
            return 1 << 60
        # geometric
        import math
        u = self.rng.random()
        return 1 + int(math.log(1 - u) / math.log(1 - p)) if p < 1 else 1


class Sim:
    def __init__(self, seed=0, cfg=None, deviations=None, max_points=400000, trace=False):
        cfg = cfg or {}
        self.cfg = cfg
        self.replaying = deviations is not None
        self.dev_in = {d[0]: d[1:] for d in deviations} if deviations is not None else None
        self.deviations = []
        self.strat = None if self.replaying else Strategy(seed, cfg)
        self.now = 0.0
        self.eps = cfg.get('eps', 0.0)
        self.line_points = cfg.get('lines', True)
        self.n = 0
        self.seq = 0
        self.max_points = max_points
        self.stuck_max = 40000
        self.stuck_at = self.stuck_max
        self.tasks = []
        self.exit_calls = []
        self.current = None
        self.aborting = False
        self.violation = None
        self.harness_exc = None
        self.end_lock = REAL.allocate_lock()
        self.end_lock.acquire()
        self.ended = False
        self.root = None
        self.faults = {}
        self.probes = {}
        self.switches = 0
        self.pairs = set()
        self.sig = hashlib.blake2b(digest_size=8)
        self.wall_jumps = []  # (virtual time, delta)
        self.thread_starts = 0
        self.fail_thread_starts = ()
        self.trace = [] if trace else None
        self.interrupts = {}  # task name -> (k-th block, exception factory)
        self.keep = []
        self.source_classes = {}
        self.stalls_on = True
        self.leaked = 0
        self.sleep_calls = {}
        if self.dev_in is not None:
            self._dev_keys = sorted(self.dev_in)
            self._dev_i = 0
            self._next_dev = self._dev_keys[0] if self._dev_keys else 1 << 60

    # ------------------------------------------------------------------ reporting
    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def stamp(self):
        """Next global event sequence number."""
        self.seq += 1
        return self.seq

    def note(self, *what):
        if self.trace is not None:
            t = self.current.name if self.current else '-'
            self.trace.append(f'{self.n:6d} t={self.now:.6f} {t}: ' + ' '.join(map(str, what)))

    def violate(self, cls, msg):
        """Called by oracles during the run: record and unwind."""
        if self.violation is None:
            self.violation = (cls, msg)
            self.note('VIOLATION', cls, msg)
        raise SimAbort()

    # ------------------------------------------------------------------ time
    def wall(self):
        off = 0.0
        for t, d in self.wall_jumps:
            if t <= self.now:
                off += d
        return WALL0 + self.now + off

    # ------------------------------------------------------------------ tasks
    def new_task(self, name, daemon=False):
        t = Task(len(self.tasks), name, daemon)
        if self.strat is not None:
            t.prio = self.strat.rng.random()
        self.tasks.append(t)
        return t

    def spawn(self, fn, name, daemon=False):
        th = SimThread(target=fn, name=name, daemon=daemon)
        th.sim_name = name
        th._harness = True
        th.start()
        return th

    def run(self, fn):
        """Runs fn() as the root task to completion; called from a real thread."""
        global SIM
        assert SIM is None
        SIM = self
        try:
            self.root = self.new_task('main')
            th = SimThread(target=fn, name='main')
            th._sim_attach(self.root)
            self.root.state = RUN
            self.current = self.root
            self.root.released = True
            self.root.baton.release()
            if not self.end_lock.acquire(timeout=120):
                raise HarnessError('run did not end within 120 s of real time')
            self._unwind()
        finally:
            SIM = None
        if self.harness_exc is not None:
            raise self.harness_exc

    def _unwind(self):
        self.aborting = True
        for t in list(self.tasks):
            if t.state != DONE:
                self.current = t
                t.baton.release()
                if not t.finished.acquire(timeout=10):
                    self.leaked += 1
        # tasks created while unwinding
        for t in list(self.tasks):
            if t.state == NEW:
                self.leaked += 1

    def _end(self):
        if not self.ended:
            self.ended = True
            self.end_lock.release()

    def task_done(self, task):
        task.state = DONE
        if self.aborting:
            task.finished.release()
            return
        for j in task.joiners:
            if j.state == BLOCKED:
                j.state = RUN
                j.wake = 'done'
                j.deadline = None
        task.finished.release()
        if self.violation is not None or self.harness_exc is not None or task is self.root:
            self._end()
            return
        nxt = self._choose(None)
        if nxt is None:
            self._end()
            return
        self._goto(nxt)

    # ------------------------------------------------------------------ points
    def line(self, code, lineno):
        """A line of the code under test is about to run in the current task."""
        if self.aborting:
            self._abort_raise()
            return
        self.n += 1
        if self.eps:
            self.now += self.eps
        cur = self.current
        cur.points += 1
        cur.site = (code.co_name, lineno)
        if self.n > self.stuck_at or self.n > self.max_points:
            self._budget()
        if self.replaying:
            if self.n >= self._next_dev:
                self._deviate(cur)
            return
        st = self.strat
        if st.mode == 'pct':
            if self.n in st.changes:
                cur.prio = -self.n
                self._pct(cur)
            return
        st.line_gap -= 1
        if st.line_gap <= 0:
            st.line_gap = st._gap()
            self._preempt(cur)

    def point(self, what):
        """A synchronisation point in the current task."""
        if self.aborting:
            self._abort_raise()
            return
        self.n += 1
        if self.eps:
            self.now += self.eps
        cur = self.current
        if self.n > self.stuck_at or self.n > self.max_points:
            self._budget()
        if self.trace is not None:
            self.note('@', what)
        if self.replaying:
            if self.n >= self._next_dev:
                self._deviate(cur)
            return
        st = self.strat
        if st.mode == 'pct':
            if self.n in st.changes:
                cur.prio = -self.n
            self._pct(cur)
            return
        if st.p_sync and st.rng.random() < st.p_sync:
            self._preempt(cur)

    def _budget(self):
        if self.violation is None:
            self.violation = (
                'no-progress',
                f'{self.stuck_max if self.n <= self.max_points else self.max_points} scheduling '
                f'points without finishing (t={self.now:.3f}, '
                f'in {self.current.name} at {self.current.site})',
            )
        raise SimAbort()

    def _abort_raise(self):
        t = self.current
        t.abort_raises += 1
        n = t.abort_raises
        if 20 < n <= 200:
            return True  # it keeps retrying: let it get out of its loop
        if n > 600:
            self.leaked += 1
            t.state = DONE
            t.finished.release()
            lk = REAL.allocate_lock()
            lk.acquire()
            lk.acquire()  # leak this thread
        raise SimAbort()

    def _due(self):
        now = self.now
        for t in self.tasks:
            if t.state == BLOCKED and t.deadline is not None and t.deadline <= now:
                t.state = RUN
                t.wake = 'timeout'
                t.deadline = None
                if t.waiting_on is not None:
                    t.waiting_on.remove(t)
                    t.waiting_on = None

    def _preempt(self, cur):
        st = self.strat
        if st.p_stall and self.stalls_on and not cur.nostall and st.rng.random() < st.p_stall:
            dt = round(st.stall_max * st.rng.random() ** 2, 6)
            self.deviations.append((self.n, 'stall', dt))
            self._stall(cur, dt)
            return
        self._due()
        others = [t for t in self.tasks if t.state == RUN and t is not cur]
        if not others:
            return
        nxt = others[st.rng.randrange(len(others))] if len(others) > 1 else others[0]
        self.deviations.append((self.n, 'to', nxt.id))
        self._switch(cur, nxt)

    def _pct(self, cur):
        self._due()
        best = cur
        for t in self.tasks:
            if t.state == RUN and t.prio > best.prio:
                best = t
        if best is not cur:
            self.deviations.append((self.n, 'to', best.id))
            self._switch(cur, best)

    def _deviate(self, cur):
        act = self._take_dev()
        if act is None:
            return
        if act[0] == 'stall':
            if not self.stalls_on:
                return
            self.deviations.append((self.n,) + tuple(act))
            self._stall(cur, act[1])
            return
        self._due()
        if act[1] >= len(self.tasks):
            return
        nxt = self.tasks[act[1]]
        if nxt.state == RUN and nxt is not cur:
            self.deviations.append((self.n,) + tuple(act))
            self._switch(cur, nxt)

    def _take_dev(self):
        act = None
        while self._next_dev <= self.n:
            if self._next_dev == self.n:
                act = self.dev_in[self.n]
            self._dev_i += 1
            self._next_dev = (
                self._dev_keys[self._dev_i] if self._dev_i < len(self._dev_keys) else 1 << 60
            )
        return act

    def _stall(self, cur, dt):
        self.fault('thread_stall')
        self.note('stall', dt)
        cur.state = BLOCKED
        cur.stalled = True
        cur.deadline = self.now + dt
        self._leave(cur)
        cur.stalled = False

    # ------------------------------------------------------------------ switching
    def _choose(self, cur):
        """The task to run when cur cannot (cur is None or blocked).  None: nothing left."""
        while True:
            self._due()
            run = [t for t in self.tasks if t.state == RUN]
            if run:
                break
            dl = None
            for t in self.tasks:
                if t.state == BLOCKED and t.deadline is not None:
                    if dl is None or t.deadline < dl:
                        dl = t.deadline
            if dl is None:
                live = [t for t in self.tasks if t.state == BLOCKED]
                if live and self.violation is None:
                    self.violation = (
                        'deadlock',
                        'no thread can run: '
                        + ', '.join(f'{t.name} waits at {t.site}' for t in live),
                    )
                    self.note('DEADLOCK', self.violation[1])
                return None
            if dl > self.now:
                self.stuck_at = self.n + self.stuck_max
            self.now = dl
        base = cur.id if cur is not None else -1
        default = None
        for t in run:
            if t.id > base:
                default = t
                break
        if default is None:
            default = run[0]
        if len(run) == 1:
            return default
        # one more numbered decision
        self.n += 1
        if self.replaying:
            nxt = default
            if self.n >= self._next_dev:
                act = self._take_dev()
                if act is not None and act[0] == 'to' and act[1] < len(self.tasks):
                    c = self.tasks[act[1]]
                    if c.state == RUN:
                        nxt = c
        elif self.strat.mode == 'pct':
            nxt = max(run, key=lambda t: t.prio)
        else:
            nxt = run[self.strat.rng.randrange(len(run))]
        if nxt is not default:
            self.deviations.append((self.n, 'to', nxt.id))
        return nxt

    def _goto(self, nxt):
        self.current = nxt
        nxt.baton.release()

    def _switch(self, cur, nxt):
        """cur stays runnable."""
        self.switches += 1
        self.pairs.add((cur.site, nxt.site))
        self.sig.update(b'%d:%d;' % (self.n, nxt.id))
        if self.trace is not None:
            self.note('-> switch to', nxt.name, 'from', cur.site)
        self._goto(nxt)
        cur.baton.acquire()
        if self.aborting:
            self._abort_raise()

    def _leave(self, cur):
        """cur is blocked; come back when it has been woken and chosen."""
        nxt = self._choose(cur)
        if nxt is None:
            self._end()
            cur.baton.acquire()
            self._abort_raise()
        if nxt is not cur:
            self.switches += 1
            self.pairs.add((cur.site, nxt.site))
            self.sig.update(b'%d:%d;' % (self.n, nxt.id))
            if self.trace is not None:
                self.note('-> leaves to', nxt.name, 'from', cur.site)
            self._goto(nxt)
            cur.baton.acquire()
        if self.aborting:
            self._abort_raise()

    def block(self, deadline=None, waiters=None, interruptible=True):
        """Blocks the current task until woken; returns the reason."""
        cur = self.current
        if self.aborting:
            self._abort_raise()
            raise SimAbort()
        cur.blocks += 1
        if deadline is not None:
            cur.timed += 1
        intr = self.interrupts.get(cur.name)
        if interruptible and intr is not None and intr[0] == 'long':
            # interrupted only in a wait that lasts that long
            at = self.now + intr[2]
            if deadline is None or deadline > at:
                cur.state = BLOCKED
                cur.deadline = at
                cur.wake = None
                if waiters is not None:
                    waiters.append(cur)
                    cur.waiting_on = waiters
                self._leave(cur)
                if cur.wake != 'timeout' or self.now < at:
                    return cur.wake
                if waiters is not None and cur in waiters:
                    waiters.remove(cur)
                cur.waiting_on = None
                cur.deadline = None
                self.fault('interrupt')
                self.note('interrupted')
                raise intr[1]()
        if interruptible and intr is not None and intr[0] == cur.blocks:
            # interrupted while waiting: others may run first, then the exception
            self.fault('interrupt')
            cur.state = BLOCKED
            cur.deadline = self.now + intr[2] if deadline is None else min(deadline, self.now + intr[2])
            if waiters is not None:
                waiters.append(cur)
                cur.waiting_on = waiters
            cur.wake = None
            self._leave(cur)
            if waiters is not None and cur in waiters:
                waiters.remove(cur)
            cur.waiting_on = None
            cur.deadline = None
            self.note('interrupted')
            raise intr[1]()
        cur.state = BLOCKED
        cur.deadline = deadline
        cur.wake = None
        if waiters is not None:
            waiters.append(cur)
            cur.waiting_on = waiters
        self._leave(cur)
        return cur.wake

    def wake_all(self, waiters):
        for t in waiters:
            t.waiting_on = None
            if t.state == BLOCKED:
                t.state = RUN
                t.wake = 'woken'
                t.deadline = None
        waiters.clear()

    def sleep(self, dt, what='sleep'):
        cur = self.current
        if self.aborting:
            self._abort_raise()
            raise SimAbort()
        self.n += 1
        if self.n > self.stuck_at or self.n > self.max_points:
            self._budget()
        if self.trace is not None:
            self.note(what, dt)
        self.sleep_calls[cur.name] = self.sleep_calls.get(cur.name, 0) + 1
        if cur.site and not isinstance(cur.site, tuple):
            cur.site = what
        if dt <= 2 * self.eps and self.strat is not None:
            cur.prio = -self.n  # a busy poller must not starve the others
        self.block(self.now + dt)

    def settle(self, dt):
        """No stall begins from now on; time passes."""
        self.stalls_on = False
        self.sleep(dt, 'settle')

    def digest(self):
        return self.sig.hexdigest()


# ---------------------------------------------------------------------- primitives
class SimLock:
    __slots__ = ('_locked', '_waiters', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None:
            if self._locked:
                if not blocking or timeout is not None and timeout >= 0:
                    return False
                raise HarnessError('blocking acquire outside a simulation')
            self._locked = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout is not None and timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        if sim.aborting:
            sim._abort_raise()
            self._locked = True
            return True
        sim.point('acquire')
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = sim.now + timeout
        while self._locked:
            if not blocking:
                return False
            if deadline is not None and sim.now >= deadline:
                return False
            # (threading.Condition gives no guarantee for an interrupt while it takes its lock back)
            sim.block(deadline, self._waiters, sys._getframe(1).f_code.co_name != '_acquire_restore')
        self._locked = True
        return True

    def release(self):
        sim = SIM
        if not self._locked:
            if sim is not None and sim.aborting:
                sim._abort_raise()
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if sim is None or sim.aborting:
            return
        if self._waiters:
            sim.wake_all(self._waiters)
        sim.point('release')

    def locked(self):
        return self._locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    acquire_lock, release_lock, locked_lock = acquire, release, locked


def _bootstrap(cell):
    self, task = cell
    cell.clear()
    task.baton.acquire()
    sim = SIM
    ident = REAL.get_ident()
    self._ident = ident
    threading._active[ident] = self
    try:
        if not sim.aborting:
            self.run()
    except SimAbort:
        pass
    except BaseException as e:  # an uncaught exception ends the thread
        task.exc = e
        if self._harness or task is sim.root:
            tb, last = e.__traceback__, None
            while tb is not None:
                last, tb = tb, tb.tb_next
            f = last.tb_frame.f_code.co_filename if last is not None else ''
            if f.startswith(REPO_PREFIX) and not isinstance(e, HarnessError):
                # the code under test raised where the scenario expects it not to
                if sim.violation is None:
                    sim.violation = ('unexpected-exception',
                                     f'{type(e).__name__}: {e} at {f}:{last.tb_lineno}')
            else:
                sim.harness_exc = sim.harness_exc or e
        else:
            sim.note('thread died of', repr(e))
            e.__traceback__ = None
    finally:
        threading._active.pop(ident, None)
        self._sim_done = True
        task.thread = None
        del self  # (what only this thread kept alive is finalized here)
        if sim is not None:
            sim.task_done(task)


class SimThread(_Real.Thread):
    """threading.Thread whose start/join/is_alive are the simulator's."""

    _task = None
    _sim_done = False
    _harness = False
    sim_name = None

    def _sim_attach(self, task):
        self._task = task
        task.thread = self
        self._started._flag = True
        # (the OS thread, which ends a little later, must not keep the object alive)
        REAL.start_new_thread(_bootstrap, ([self, task],))

    def start(self):
        if self._task is not None or self._started.is_set():
            raise RuntimeError('threads can only be started once')
        sim = SIM
        if sim is None:
            raise HarnessError('thread started outside a simulation')
        sim.point('thread-start')
        if not self._harness:
            sim.thread_starts += 1
            if sim.thread_starts in sim.fail_thread_starts:
                sim.fault('thread_start_failure')
                raise RuntimeError("can't start new thread")
        k = sum(1 for t in sim.tasks if t.name.startswith('lib'))
        task = sim.new_task(self.sim_name or f'lib{k}', self.daemon)
        self._sim_attach(task)
        task.state = RUN
        sim.point('thread-started')

    def join(self, timeout=None):
        sim = SIM
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        if sim is None:
            return
        if sim.current is self._task:
            raise RuntimeError('cannot join current thread')
        sim.point('join')
        deadline = None if timeout is None else sim.now + max(0, timeout)
        while not self._sim_done:
            if deadline is not None and sim.now >= deadline:
                return
            self._task.joiners.append(sim.current)
            try:
                sim.block(deadline)
            finally:
                if sim.current in self._task.joiners:
                    self._task.joiners.remove(sim.current)

    def is_alive(self):
        return self._task is not None and not self._sim_done

    @property
    def ident(self):
        return self._ident


def _sleep(dt):
    sim = SIM
    if dt < 0:
        raise ValueError('sleep length must be non-negative')
    if sim is not None:
        sim.sleep(dt)


def _wall():
    return SIM.wall() if SIM is not None else WALL0


def _mono():
    return 1000.0 + SIM.now if SIM is not None else 1000.0


EXIT_CALLS = []  # registered while the code under test was imported


def _at_exit(early, func, args, kwargs):
    """An exit handler: kept for the simulated exit, if there is one."""
    if SIM is not None:
        SIM.exit_calls.append((early, func, args, kwargs))
    elif sys._getframe(2).f_code.co_filename.startswith(REPO_PREFIX):
        EXIT_CALLS.append((early, func, args, kwargs))
    else:
        return False
    return True


def _atexit_register(func, *args, **kwargs):
    if not _at_exit(False, func, args, kwargs):
        REAL.atexit_register(func, *args, **kwargs)
    return func


def _atexit_unregister(func):
    for calls in [EXIT_CALLS] + ([SIM.exit_calls] if SIM is not None else []):
        calls[:] = [c for c in calls if c[1] != func]
    REAL.atexit_unregister(func)


def _thread_atexit(func, *args, **kwargs):
    if not _at_exit(True, func, args, kwargs):
        REAL.thread_atexit(func, *args, **kwargs)


def _on_line(code, lineno):
    if not code.co_filename.startswith(REPO_PREFIX):
        return sys.monitoring.DISABLE
    sim = SIM
    if sim is not None and (sim.line_points or sim.aborting):
        sim.line(code, lineno)


def install(repo='/repo'):
    """Replaces threads, locks and clocks for everything imported from now on."""
    global REPO_PREFIX
    import logging  # its locks stay real: no scheduling point inside logging
    import warnings, queue, concurrent.futures, bisect, collections, contextlib  # noqa
    import urllib.request, http.client, socket, inspect, unittest, copy, codecs  # noqa

    warnings.simplefilter('ignore')
    REPO_PREFIX = repo.rstrip('/') + '/'
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading.RLock = threading._PyRLock
    threading.Thread = SimThread
    time.sleep = _sleep
    time.time = _wall
    time.time_ns = lambda: int(_wall() * 1e9)
    time.monotonic = _mono
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    time.perf_counter = _mono
    time.perf_counter_ns = lambda: int(_mono() * 1e9)
    threading._time = _mono
    queue.time = _mono
    queue.SimpleQueue = queue._PySimpleQueue
    threading.Timer.__bases__ = (SimThread,)
    atexit.register, atexit.unregister = _atexit_register, _atexit_unregister
    threading._register_atexit = _thread_atexit
    weakref.finalize._registered_with_atexit = True
    import concurrent.futures.thread as cft
    cft._global_shutdown_lock = SimLock()

    class _Null(logging.Handler):
        def createLock(self):
            self.lock = None

        def emit(self, record):
            if SIM is not None:
                SIM.note('log', record.levelname, record.getMessage())

    lg = logging.getLogger('stream2py')
    lg.addHandler(_Null())
    lg.propagate = False
    logging.raiseExceptions = False
    mon = sys.monitoring
    mon.use_tool_id(4, 'dst')
    mon.register_callback(4, mon.events.LINE, _on_line)
    mon.set_events(4, mon.events.LINE)
    threading.stack_size(512 * 1024)
