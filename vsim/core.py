"""The simulator: every source of nondeterminism of OnekaPy behind a seam owned here.

Seams (installed once, before oneka is imported; neutral until a run configures them):
  randomness   np.random.* legacy functions, np.random.default_rng / PCG64..., os.urandom   -> per-task seeded streams
  clock        time.*, datetime.datetime.now/today/utcnow                                   -> virtual clock, in a seeded time zone
  disk         open / io.open / bz2 / os.replace / os.remove ...  (inside the scratch dir)  -> faultable raw writes, crash
  memory       np.zeros / empty / full / ... called from code under test                    -> n-th allocation fails
  threads      real threads parked on a baton, sys.settrace pre-emption on oneka lines      -> seeded scheduler
  interrupts   KeyboardInterrupt / SystemExit raised at the n-th oneka line event
"""
import builtins
import bz2
import datetime as _dt
import io
import logging
import os
import random
import sys
import threading
import time as _time

import numpy as np

REPO = os.environ.get('VSIM_REPO', '/repo')
_REPO_PREFIX = os.path.realpath(REPO) + os.sep

REAL = dict(open=builtins.open, time=_time.time, perf=_time.perf_counter, Lock=threading.Lock, RLock=threading.RLock,
            monotonic=_time.monotonic, process_time=_time.process_time)


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulation itself could not be carried out."""


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimBudget(BaseException):
    """A step budget of the simulation is exhausted."""


# where the simulated host stands (with daylight saving time in some places)
ZONES = ('UTC0', 'CST6CDT,M3.2.0,M11.1.0', 'UTC0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'UTC0', 'SST11')


def set_zone(z):
    os.environ['TZ'] = z
    _time.tzset()


class Sim:
    """State of the current simulated run (one per forked child)."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed, scratch=None):
        self.seed = seed
        set_zone(ZONES[seed % len(ZONES)])
        self.scratch = os.path.realpath(scratch) if scratch else None
        self.task = 0
        # randomness
        self.streams = {}
        self.gen_count = {}
        self.epoch = getattr(self, 'epoch', 0) + 1
        self.extreme_p = 0.0
        self.stretch_p = 0.0
        self.draws = 0
        self.mvn = []               # observed multivariate_normal calls (task, mean, cov, value)
        self.record_mvn = False
        # clock
        self.now = 1595635200.25    # 25 July 2020: the wall clock, which others may set
        self.mono = 1000.5          # time that has passed since the machine started
        self.cpu = 3.5              # time the processor was given to this process
        self.tick = 0.001
        self.jumps = {}             # read number -> seconds added before that read
        self.clock_reads = 0
        # disk
        self.fs_active = False
        self.fs_writes = 0
        self.fs_ops = 0
        self.fs_fault = None        # callable(op, path, nbytes) -> None or ('err', OSError) | ('short', n) | ('crash', n)
        self.dead = False
        self.fs_after_interrupt = 0
        # memory
        self.alloc_active = False
        self.alloc_count = 0
        self.alloc_fail = ()
        self.alloc_fired = 0
        # events
        self.fired = {}
        self.probes = {}
        self.on_show = None
        self.shows = 0
        self.plots = []
        self.record_plots = False
        self.stub_plots = True
        self.plots_after_interrupt = 0
        self.sched = None
        self.deferred = []          # threads that code under test has started but that were not given the processor yet
        self.lines = 0
        self.work = 0               # flow evaluations etc. since start
        self.interrupted = False
        self.simtime = 0.0

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- randomness
    def rs(self):
        t = self.task
        r = self.streams.get(t)
        if r is None:
            r = self.streams[t] = _RandomState(self.entropy('legacy') % 2**32)
        self.draws += 1
        return r

    def entropy(self, what):
        key = (self.task, what)
        n = self.gen_count[key] = self.gen_count.get(key, 0) + 1
        return random.Random('%r/%r/%r/%d' % (self.seed, self.task, what, n)).getrandbits(64)

    def new_entropy(self, seed):
        """A different state of the entropy source (as after a process restart)."""
        self.seed = seed
        self.streams = {}
        self.gen_count = {}
        self.epoch += 1

    # -- clock
    def clock(self):
        self.clock_reads += 1
        j = self.jumps.get(self.clock_reads)
        if j is not None:
            self.now += j
            self.fire('clock_jump_back' if j < 0 else 'clock_jump')
        self.now += self.tick
        self.mono += self.tick
        return self.now

    def monotonic(self):
        self.now += self.tick
        self.mono += self.tick
        return self.mono

    def elapse(self, s):
        """Time passes."""
        self.now += s
        self.mono += s
        self.cpu += 0.4 * s

    def processor(self):
        self.monotonic()
        self.cpu += 0.5 * self.tick
        return self.cpu


SIM = Sim()


def in_repo(frame):
    return frame is not None and frame.f_code.co_filename.startswith(_REPO_PREFIX)


# ------------------------------------------------------------------------------------------------ randomness
_RandomState = np.random.RandomState
_Generator = np.random.Generator
_PCG64 = np.random.PCG64


def _extreme(lo, hi, rng):
    SIM.fire('extreme_draw')
    return lo if rng.random_sample() < 0.5 else hi


def _stretch(mean, v):
    """Some of the normal vectors drawn are moved out along their own direction: rare draws made common."""
    if not SIM.stretch_p:
        return v
    mean, v = np.asarray(mean, float), np.array(v, float)
    for row in v.reshape(-1, v.shape[-1]):
        if SIM.rs().random_sample() < SIM.stretch_p:
            SIM.fire('stretched_draw')
            row += 2.0 * (row - mean)
    return v


class SimGenerator(_Generator):
    """A real generator whose calls the simulator sees."""

    def multivariate_normal(self, mean, cov, *a, **k):
        v = _stretch(mean, super().multivariate_normal(mean, cov, *a, **k))
        SIM.draws += 1
        if SIM.record_mvn:
            SIM.mvn.append((SIM.task, np.array(mean, float), np.array(cov, float), np.array(v, float)))
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        SIM.draws += 1
        if size is None and SIM.extreme_p and np.isscalar(low) and SIM.rs().random_sample() < SIM.extreme_p:
            return _extreme(low, high, SIM.rs())
        return super().uniform(low, high, size)

    def triangular(self, left, mode, right, size=None):
        SIM.draws += 1
        if size is None and SIM.extreme_p and left < right and SIM.rs().random_sample() < SIM.extreme_p:
            return _extreme(left, right, SIM.rs())
        return super().triangular(left, mode, right, size)


class TaskGenerator(SimGenerator):
    """An unseeded generator: every task that uses it sees its own stream (whoever created it)."""


def _task_method(name):
    def f(self, *a, **k):
        per = self.__dict__.setdefault('_per', {})
        g = per.get((SIM.epoch, SIM.task))
        if g is None:
            g = per[(SIM.epoch, SIM.task)] = SimGenerator(_PCG64(SIM.entropy('gen')))
        return getattr(g, name)(*a, **k)
    f.__name__ = name
    return f


for _n in dir(_Generator):
    if not _n.startswith('_') and callable(getattr(_Generator, _n)):
        setattr(TaskGenerator, _n, _task_method(_n))


class SimRandomState(_RandomState):
    def __init__(self, seed=None):
        super().__init__(SIM.entropy('rs') % 2**32 if seed is None else seed)


def _default_rng(seed=None):
    if isinstance(seed, _Generator):
        return seed
    if seed is None:
        return TaskGenerator(_PCG64(0))
    if isinstance(seed, np.random.BitGenerator):
        return SimGenerator(seed)
    return SimGenerator(_PCG64(seed))


def _bitgen(cls):
    class B(cls):
        def __init__(self, seed=None):
            super().__init__(SIM.entropy('bit') if seed is None else seed)
    B.__name__ = cls.__name__
    return B


def _legacy(name):
    if name == 'uniform':
        def f(low=0.0, high=1.0, size=None):
            r = SIM.rs()
            if size is None and SIM.extreme_p and np.isscalar(low) and r.random_sample() < SIM.extreme_p:
                return float(_extreme(low, high, r))
            return r.uniform(low, high, size)
    elif name == 'triangular':
        def f(left, mode, right, size=None):
            r = SIM.rs()
            if size is None and SIM.extreme_p and left < right and r.random_sample() < SIM.extreme_p:
                return float(_extreme(left, right, r))
            return r.triangular(left, mode, right, size)
    elif name == 'multivariate_normal':
        def f(mean, cov, *a, **k):
            v = _stretch(mean, SIM.rs().multivariate_normal(mean, cov, *a, **k))
            if SIM.record_mvn:
                SIM.mvn.append((SIM.task, np.array(mean, float), np.array(cov, float), np.array(v, float)))
            return v
    elif name == 'seed':
        def f(seed=None):
            r = SIM.rs()
            r.seed(SIM.entropy('reseed') % 2**32 if seed is None else seed)
    else:
        def f(*a, **k):
            return getattr(SIM.rs(), name)(*a, **k)
    f.__name__ = name
    return f


def _install_random():
    for name in dir(np.random.mtrand._rand):
        if not name.startswith('_') and callable(getattr(np.random, name, None)) and name in np.random.__all__:
            setattr(np.random, name, _legacy(name))
    np.random.default_rng = _default_rng
    np.random.RandomState = SimRandomState
    np.random.Generator = SimGenerator
    for c in ('PCG64', 'MT19937', 'Philox', 'SFC64', 'PCG64DXSM'):
        setattr(np.random, c, _bitgen(getattr(np.random, c)))

    _py = random.Random
    real_urandom = os.urandom

    def urandom(n):
        f = sys._getframe(1)
        if in_repo(f):
            return random.Random(SIM.entropy('urandom')).randbytes(n)
        return real_urandom(n)
    os.urandom = urandom
    # Python's own generator, if the code under test uses it.
    for name in ('random', 'uniform', 'triangular', 'gauss', 'normalvariate', 'randint', 'choice', 'shuffle', 'betavariate'):
        real = getattr(random, name)

        def f(*a, _n=name, _real=real, **k):
            if in_repo(sys._getframe(1)):
                key = ('py', SIM.task)
                r = SIM.streams.get(key)
                if r is None:
                    r = SIM.streams[key] = _py(SIM.entropy('py'))
                return getattr(r, _n)(*a, **k)
            return _real(*a, **k)
        setattr(random, name, f)


# ------------------------------------------------------------------------------------------------ clock
def _install_clock():
    real = {n: getattr(_time, n) for n in ('localtime', 'gmtime', 'asctime', 'ctime', 'strftime')}
    _time.time = lambda: SIM.clock()
    _time.time_ns = lambda: int(SIM.clock() * 1e9)
    for n in ('monotonic', 'perf_counter'):
        setattr(_time, n, lambda: SIM.monotonic())
        setattr(_time, n + '_ns', lambda: int(SIM.monotonic() * 1e9))
    for n in ('process_time', 'thread_time'):
        setattr(_time, n, lambda: SIM.processor())
        setattr(_time, n + '_ns', lambda: int(SIM.processor() * 1e9))
    _time.localtime = lambda s=None: real['localtime'](SIM.clock() if s is None else s)
    _time.gmtime = lambda s=None: real['gmtime'](SIM.clock() if s is None else s)
    _time.ctime = lambda s=None: real['asctime'](real['localtime'](SIM.clock() if s is None else s))
    _time.asctime = lambda t=None: real['asctime'](real['localtime'](SIM.clock()) if t is None else t)
    _time.strftime = lambda f, t=None: real['strftime'](f, real['localtime'](SIM.clock()) if t is None else t)
    _time.sleep = lambda s: SIM.elapse(s)

    base = _dt.datetime

    class datetime(base):
        @classmethod
        def now(cls, tz=None):
            return base.fromtimestamp(SIM.clock(), tz)

        @classmethod
        def utcnow(cls):
            return base.fromtimestamp(SIM.clock(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    _dt.datetime = datetime


# ------------------------------------------------------------------------------------------------ disk
def _mine(path):
    if not SIM.fs_active or SIM.scratch is None or isinstance(path, int):
        return False
    try:
        p = os.path.join(SIM.scratch, os.fsdecode(path)) if not os.path.isabs(os.fsdecode(path)) else os.fsdecode(path)
    except TypeError:
        return False
    p = os.path.normpath(p)
    return p == SIM.scratch or p.startswith(SIM.scratch + os.sep)


def _ask(op, path, n=0):
    """Let the simulator decide the fate of one disk operation."""
    if SIM.dead:
        return ('dead', 0)
    SIM.fs_ops += 1
    if SIM.interrupted:
        SIM.fs_after_interrupt += 1
    if SIM.fs_fault is None:
        return None
    return SIM.fs_fault(op, os.fsdecode(path) if not isinstance(path, int) else str(path), n)


def _crash():
    SIM.dead = True
    SIM.fire('process_crash')
    raise SimCrash()


class SimFileIO(io.FileIO):
    """A raw file whose writes can fail, be short, be torn by a crash."""

    def write(self, b):
        mv = memoryview(b).cast('B')
        d = _ask('write', self.name, len(mv))
        if d is None:
            SIM.fs_writes += 1
            return super().write(mv)
        kind, arg = d
        if kind == 'dead':
            return len(mv)
        if kind == 'err':
            SIM.fire('disk_error')
            raise arg
        if kind == 'short':
            n = max(1, min(len(mv), arg))
            SIM.fire('short_write')
            SIM.fs_writes += 1
            return super().write(mv[:n])
        if kind == 'partial_err':           # some bytes land, then the device is full
            n = min(len(mv), arg[0])
            if n:
                super().write(mv[:n])
            SIM.fire('disk_error')
            raise arg[1]
        if kind == 'crash':
            n = min(len(mv), arg)
            if n:
                super().write(mv[:n])
                SIM.fire('torn_write')
            _crash()
        raise HarnessError(kind)

    def close(self):
        if not self.closed and not SIM.dead and self.writable():
            d = _ask('close', self.name)
            if d is not None and d[0] == 'err':
                super().close()
                SIM.fire('disk_error')
                raise d[1]
            if d is not None and d[0] == 'crash':
                super().close()
                _crash()
        super().close()


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not isinstance(mode, str) or not _mine(file) or not any(c in mode for c in 'wax+'):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    d = _ask('open', file)
    if d is not None:
        if d[0] == 'dead':
            raise SimCrash()
        if d[0] == 'err':
            SIM.fire('disk_error')
            raise d[1]
        if d[0] == 'crash':
            _crash()
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '')
    raw = SimFileIO(file, rawmode, closefd, opener)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap_os(name):
    real = getattr(os, name)

    def f(path, *a, **k):
        if _mine(path):
            d = _ask(name, path)
            if d is not None:
                if d[0] == 'dead':
                    raise SimCrash()
                if d[0] == 'err':
                    SIM.fire('disk_error')
                    raise d[1]
                if d[0] == 'crash':
                    _crash()
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _install_fs():
    builtins.open = _sim_open
    io.open = _sim_open
    for m in (bz2, sys.modules.get('gzip'), sys.modules.get('lzma'), sys.modules.get('tempfile')):
        if m is not None and hasattr(m, '_builtin_open'):
            m._builtin_open = _sim_open
    for n in ('replace', 'rename', 'remove', 'unlink', 'link', 'truncate'):
        setattr(os, n, _wrap_os(n))


# ------------------------------------------------------------------------------------------------ memory
def _install_alloc():
    for n in ('zeros', 'empty', 'full', 'ones', 'pad', 'zeros_like', 'empty_like', 'full_like', 'ones_like',
              'concatenate', 'vstack', 'hstack', 'block', 'insert', 'append', 'copy', 'resize', 'array'):
        real = getattr(np, n)

        def f(*a, _real=real, _n=n, **k):
            if SIM.alloc_active and in_repo(sys._getframe(1)):
                SIM.alloc_count += 1
                if SIM.alloc_count in SIM.alloc_fail:
                    SIM.alloc_fired += 1
                    SIM.fire('allocation_failure')
                    raise MemoryError('simulated: ' + _n)
            return _real(*a, **k)
        f.__name__ = n
        f.__wrapped__ = real
        setattr(np, n, f)


# ------------------------------------------------------------------------------------------------ threads
class SimLock:
    """Lock used by code under test: blocking hands the baton on instead of blocking the process."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            s = SIM.sched
            if s is None or not s.block():
                raise Violation('deadlock', 'all caller threads are blocked')
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _install_locks():
    threading.Lock = lambda: SimLock() if in_repo(sys._getframe(1)) else REAL['Lock']()
    threading.RLock = lambda: SimLock(True) if in_repo(sys._getframe(1)) else REAL['RLock']()
    _install_threads()


def _install_threads():
    """A thread that code under test starts runs as late as it can: when it is joined, or when the process waits for something."""
    T, C = threading.Thread, threading.Condition
    start, join, is_alive, wait = T.start, T.join, T.is_alive, C.wait

    def from_repo():
        f = sys._getframe(2)
        while f is not None:
            if in_repo(f):
                return True
            f = f.f_back
        return False

    def release(t):
        SIM.deferred.remove(t)
        start(t)

    def sim_start(self):
        if SIM.sched is None and threading.current_thread() is threading.main_thread() and from_repo():
            SIM.deferred.append(self)
            SIM.fire('thread_deferred')
            return
        start(self)

    def sim_join(self, timeout=None):
        if self in SIM.deferred:
            if timeout is not None:
                SIM.elapse(timeout)
                return
            release(self)
        join(self, timeout)

    def sim_wait(self, timeout=None):
        if SIM.deferred and SIM.sched is None and threading.current_thread() is threading.main_thread():
            for t in list(SIM.deferred):
                release(t)
        return wait(self, timeout)
    T.start, T.join, C.wait = sim_start, sim_join, sim_wait
    T.is_alive = lambda self: self in SIM.deferred or is_alive(self)


class Scheduler:
    """Runs tasks in real threads, exactly one at a time; a seeded generator (or an explicit list of
    switches) decides at every line of code under test whether, and to whom, the baton passes."""

    def __init__(self, spec, max_steps=4000000):
        self.p = spec.get('p', 0.05)
        self.rng = random.Random(spec.get('seed', 0))
        self.plan = None
        if 'switches' in spec:
            self.plan = {int(s): int(t) for s, t in spec['switches']}
        self.opcodes = spec.get('opcodes', False)
        self.bursts = spec.get('bursts', False)
        self.step = 0
        self.switches = []
        self.max_steps = max_steps
        self.over = False
        self.next_at = None

    def _draw_next(self):
        # geometric gap, drawn only at switch time: cheap per step
        import math
        u = self.rng.random()
        self.next_at = self.step + 1 + int(math.log(max(u, 1e-12)) / math.log(1 - self.p))

    def run(self, tasks):
        """tasks: callables.  Returns list of ('ok', value) / ('exc', exception)."""
        n = len(tasks)
        self.alive = list(range(n))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Semaphore(0)
        self.res = [None] * n
        self.cur = None
        self._draw_next()
        SIM.sched = self
        ths = []

        def body(i):
            self.sems[i].acquire()
            SIM.task = i
            try:
                sys.settrace(self._trace)
                try:
                    v = tasks[i]()
                finally:
                    sys.settrace(None)
                self.res[i] = ('ok', v)
            except BaseException as e:          # noqa
                self.res[i] = ('exc', e)
            self._finish(i)
        for i in range(n):
            t = threading.Thread(target=body, args=(i,), daemon=True)
            ths.append(t)
            t.start()
        self._to(self._pick(None))
        self.done.acquire()
        SIM.sched = None
        SIM.task = 0
        for t in ths:
            t.join()
        return self.res

    def _pick(self, cur):
        c = [i for i in self.alive if i != cur]
        if not c:
            return None
        if self.plan is not None:
            t = self.plan.get(self.step)
            if t in c:
                return t
            return c[0]
        return c[self.rng.randrange(len(c))]

    def _to(self, i):
        self.cur = i
        SIM.task = i
        self.switches.append((self.step, i))
        self.sems[i].release()

    def _finish(self, i):
        self.alive.remove(i)
        self.step += 1
        if not self.alive:
            self.done.release()
            return
        self._to(self._pick(None))

    def _switch(self):
        me = self.cur
        t = self._pick(me)
        if t is None:
            return False
        SIM.fire('preemption')
        self._to(t)
        self.sems[me].acquire()
        SIM.task = me
        return True

    def block(self):
        self.step += 1
        return self._switch()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(_REPO_PREFIX):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = True
        self._point()
        return self._local

    def _local(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self._point()
        return self._local

    def _point(self):
        self.step += 1
        if self.step > self.max_steps:
            self.over = True
            raise SimBudget()
        if self.plan is not None:
            t = self.plan.get(self.step)
            if t is not None and t != self.cur and t in self.alive:
                self._switch()
            return
        if self.step >= self.next_at:
            self._switch()
            self._draw_next()


class LineInterrupter:
    """Counts line events in code under test; raises an exception at a chosen one."""

    def __init__(self, at=None, exc=None, collect=False):
        self.at = at
        self.exc = exc
        self.n = 0
        self.where = [] if collect else None

    def _t(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(_REPO_PREFIX):
            return None
        return self._l

    def _l(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.where is not None:
                self.where.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            if self.n == self.at:
                SIM.interrupted = True
                SIM.fire('interrupt')
                raise self.exc
        return self._l

    def run(self, f):
        sys.settrace(self._t)
        try:
            return f()
        finally:
            sys.settrace(None)


# ------------------------------------------------------------------------------------------------ plots
def _install_plots():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes

    def show(*a, **k):
        SIM.shows += 1
        if SIM.on_show is not None:
            SIM.on_show()
    plt.show = show
    import matplotlib.figure
    matplotlib.figure.Figure.show = show

    def wrap(name):
        real = getattr(Axes, name)

        def f(self, *a, **k):
            if SIM.record_plots:
                SIM.plots.append((name, a, k))
            if SIM.interrupted:
                SIM.plots_after_interrupt += 1
            if SIM.stub_plots and name == 'fill':
                return []
            return real(self, *a, **k)
        f.__name__ = name
        f.__doc__ = real.__doc__
        setattr(Axes, name, f)
    for n in ('contourf', 'contour', 'semilogy', 'fill', 'imshow', 'pcolormesh', 'loglog', 'plot'):
        wrap(n)


# ------------------------------------------------------------------------------------------------ install
class ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.name, record.getMessage()))


_installed = False


def install(plots=False):
    """Install all seams and import the code under test from the repository's working tree."""
    global _installed
    if _installed:
        return
    _installed = True
    os.environ['TZ'] = 'UTC'
    _time.tzset()
    import warnings
    warnings.simplefilter('ignore')
    import scipy.ndimage    # noqa  (third-party imports happen before the seams)
    import scipy.integrate  # noqa
    import scipy.stats      # noqa
    import gzip, lzma, tempfile, pickle, shutil   # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt  # noqa
    _install_random()
    _install_clock()
    _install_fs()
    _install_alloc()
    _install_locks()
    _install_plots()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import oneka.oneka  # noqa
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.lastResort = None
