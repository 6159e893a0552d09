"""C25: whatever way a run ends, the process that called it goes on as it was."""
import decimal
import errno
import gc
import locale
import logging
import logging.handlers
import os
import signal
import sys
import threading
import warnings

import numpy as np

from ..core import SIM, Violation, LineInterrupter, REPO
from ..project import shorten, odd_name, gen_project, oneka_args
from ..sub import disk, in_child
from .c15 import Tap, module

PROP = 'C25'
RUNS = {'quick': 260, 'thorough': 10000}
RULE = ('each run is a host process with seeded settings of its own (floating-point error handling, print options, warning filters, plot parameters, logging level and handlers, '
        'working directory, environment) that makes 2-5 runs, directly or through the driver, each completing, rejected, failing in its fit, failing inside traces, interrupted at an evaluation, at a '
        'line or while results are displayed, out of memory, unable to plot, unable to archive (full disk, arguments that cannot be archived), or with a failing log device, or loads a damaged archive; after each the process is compared with '
        'what it was: open files, settings, handlers and what the handlers of the host write; non-trivial: at least one run got as far as evaluating flow')
REAL = ['oneka.* (whole runs)', 'runme.main', 'logging', 'bz2, pickle']
STUBS = ['plt.show', 'Axes.fill', 'clock', 'randomness', 'disk below Python file objects', 'flow failures', 'memory']
LISTS = (('runs',), ('runs', '*', 'faults'))
MINLEN = {'runs': 1}
ENDS = ('ok', 'ok', 'interrupt', 'line', 'line', 'show_interrupt', 'fail', 'bad_args', 'plot_error', 'alloc', 'disk', 'missing', 'load_bad', 'unpicklable')
PROBES = tuple('end_' + e for e in set(ENDS)) + ('driver', 'direct', 'log_device_error', 'raised', 'returned', 'host_handler', 'host_memory_handler', 'host_on_oneka', 'dry', 'stochastic', 'deterministic')


def gen(rng, tier, i):
    runs = []
    for _ in range(rng.choice([2, 2, 3, 4, 5])):
        cfg = gen_project(rng, nreal=2, fine=False, dry=0.3)
        shorten(cfg, 8)
        cfg['npaths'] = min(cfg['npaths'], 3)
        if rng.random() < 0.4:
            cfg['nrealizations'] = 1
        if rng.random() < 0.2:
            cfg['umbra'] = cfg['spacing'] * rng.choice([20, 40])          # a large field
        end = rng.choice(ENDS)
        runs.append(dict(cfg=cfg, odd=odd_name(rng), end=end, at=rng.random(), driver=rng.random() < 0.6, tag='T%08x' % rng.getrandbits(32), exc=rng.choice(['KeyboardInterrupt', 'SystemExit']),
                         faults=[dict(at=rng.random(), what=rng.choice(['AquiferError', 'ValueError', 'nan'])) for _ in range(rng.choice([0, 0, 0, 2]))],
                         device=rng.random() < 0.1, clock=rng.choice([0, 1, 60])))
    host = dict(err={k: rng.choice(['ignore', 'warn']) for k in ('divide', 'over', 'under', 'invalid')}, precision=rng.choice([3, 8, 12]), suppress=rng.random() < 0.5,
                threshold=rng.choice([10, 1000]), font=rng.choice([8.0, 10.0, 11.5]), figsize=[rng.choice([5.0, 6.4]), 4.0], grid=rng.random() < 0.5,
                disable=rng.choice([0, 0, 5, 10]), raise_exceptions=rng.random() < 0.7, rootlevel=rng.choice([10, 20, 30]), filters=rng.choice(['default', 'ignore', 'once']),
                recursion=rng.choice([1000, 1500, 3000]), umask=rng.choice([0o22, 0o27, 0o77]), subdir=rng.random() < 0.5, prec=rng.choice([28, 50]), gc=rng.random() < 0.8,
                level=rng.choice([0, 10, 20, 30]), propagate=rng.random() < 0.7, handlers=[rng.choice(['w', 'a', 'memory', 'stream', 'oneka_w', 'oneka_list']) for _ in range(rng.choice([1, 2, 3]))])
    return dict(runs=runs, host=host, tick=rng.choice([0.0, 0.001]))


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass
    return out


def settings(driver):
    """Everything of the process a caller can have set and would miss."""
    import matplotlib
    import matplotlib.pyplot as plt
    lg = logging.getLogger('Oneka')
    s = {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': umask(), 'recursion limit': sys.getrecursionlimit(), 'trace function': sys.gettrace(),
        'profile function': sys.getprofile(), 'module search path': list(sys.path), 'standard output': id(sys.stdout), 'standard error': id(sys.stderr), 'standard input': id(sys.stdin),
        'exception hook': id(sys.excepthook), 'garbage collection': gc.isenabled(), 'threads': sorted(t.name for t in threading.enumerate()),
        'numpy error handling': np.geterr(), 'numpy error callback': np.geterrcall(), 'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'warning filters': [repr(f) for f in warnings.filters], 'warning display': id(warnings.showwarning), 'plot parameters': repr(dict(matplotlib.rcParams)),
        'plot backend': matplotlib.get_backend(), 'interactive plotting': plt.isinteractive(), 'logging threshold': logging.root.manager.disable,
        'logging of logging errors': logging.raiseExceptions, 'record class': id(logging.getLogRecordFactory()), 'root logger': (logging.root.level, [id(h) for h in logging.root.handlers]),
        'Oneka logger': ([id(h) for h in lg.handlers], lg.propagate, lg.disabled, list(lg.filters)), 'handler levels': [h.level for h in lg.handlers + logging.root.handlers],
        'host logger': (logging.getLogger('host').level, [id(h) for h in logging.getLogger('host').handlers], logging.getLogger('host').disabled),
        'decimal context': repr(decimal.getcontext()), 'locale': locale.setlocale(locale.LC_ALL), 'signal handlers': [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)],
        'timer': signal.getitimer(signal.ITIMER_REAL)}
    if not driver:
        s['Oneka logger level'] = lg.level
    return s


def umask():
    u = os.umask(0)
    os.umask(u)
    return u


class Listener(logging.Handler):
    """A handler of the host's that keeps what it is given until it is closed."""

    def __init__(self):
        super().__init__()
        self.got = []
        self.shut = False

    def emit(self, record):
        if not self.shut:
            self.got.append(record.getMessage())

    def close(self):
        self.shut = True
        super().close()


def host_setup(h):
    import matplotlib
    np.seterr(**h['err'])
    np.set_printoptions(precision=h['precision'], suppress=h['suppress'], threshold=h['threshold'])
    matplotlib.rcParams['font.size'] = h['font']
    matplotlib.rcParams['figure.figsize'] = h['figsize']
    matplotlib.rcParams['axes.grid'] = h['grid']
    warnings.simplefilter(h['filters'], DeprecationWarning)
    sys.setrecursionlimit(h['recursion'])
    os.umask(h['umask'])
    decimal.getcontext().prec = h['prec']
    os.environ['HOST_SETTING'] = str(h['precision'])
    logging.disable(h['disable'])
    logging.raiseExceptions = h['raise_exceptions']
    logging.root.setLevel(h['rootlevel'])
    lg = logging.getLogger('Oneka')
    lg.setLevel(h['level'])
    lg.propagate = h['propagate']
    if not h['gc']:
        gc.disable()
    hl = logging.getLogger('host')
    hl.setLevel(20)
    hl.propagate = False
    out = []
    for n, kind in enumerate(h['handlers']):
        name = os.path.join(SIM.scratch, 'host%d.txt' % n)
        if kind in ('w', 'a'):
            x = logging.FileHandler(name, mode=kind)
            hl.addHandler(x)
        elif kind == 'memory':
            x = logging.handlers.MemoryHandler(10**6, flushLevel=100, target=Listener())
            hl.addHandler(x)
        elif kind == 'stream':
            x = logging.StreamHandler(open(name, 'w'))
            hl.addHandler(x)
        elif kind == 'oneka_w':
            x = logging.FileHandler(name, mode='w')
            lg.addHandler(x)
        else:
            x = Listener()
            lg.addHandler(x)
        x.setLevel(n)
        out.append((kind, x, name))
    return out


def host_speaks(handlers, n, who):
    """Each handler of the host still takes and keeps what it is given."""
    text = 'message %d of the host' % n
    for kind, x, name in handlers:
        rec = logging.LogRecord('host', logging.ERROR, __file__, 1, text, (), None)
        x.handle(rec)
        if kind == 'memory':
            t = x.target
            x.flush()
            ok = x.target is not None and text in x.target.got
            SIM.probe('host_memory_handler')
        elif isinstance(x, Listener):
            ok = text in x.got
            SIM.probe('host_on_oneka')
        else:
            x.flush()
            with open(name, 'rb') as f:
                ok = text.encode() in f.read()
            SIM.probe('host_handler')
        if not ok:
            raise Violation('host-handler', 'after %s the host\'s own log handler (%s) no longer records: what the host logged is lost' % (who, kind))


def run(sc, ctx):
    import matplotlib.pyplot as plt
    import runme
    from oneka import archive
    import oneka.oneka
    SIM.tick = sc['tick']
    top = SIM.scratch
    stdout, stderr = sys.stdout, sys.stderr
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    if sc['host']['subdir']:
        os.mkdir('work')
        os.chdir('work')
    SIM.fs_active = True
    handlers = host_setup(sc['host'])
    for n, r in enumerate(sc['runs']):
        one(n, r, ctx, handlers, plt, runme, oneka.oneka, archive)
    SIM.fs_active = False
    os.chdir(top)
    sys.stdout, sys.stderr = stdout, stderr
    ctx.count('runs', len(sc['runs']))
    ctx.sample = dict(runs=[dict(end=r['end'], driver=r['driver'], device=r['device']) for r in sc['runs']], host=sc['host'])


def launch(r, args, runme, ok):
    if r['driver']:
        return runme.main('simdata')
    return ok.oneka(*args)


def one(n, r, ctx, handlers, plt, runme, ok, archive):
    cfg = r['cfg']
    end = r['end']
    SIM.task = n
    SIM.now += r['clock']
    who = 'run %d (%s, %s%s)' % (n, end, 'by the driver' if r['driver'] else 'direct', ', failing log device' if r['device'] and r['driver'] else '')
    a = module(r)                   # for the driver; also applies what makes the run fail or be rejected
    args = tuple(a.values())
    stop = None
    total = ops = lines = allocs = 0
    if end in ('interrupt', 'line', 'disk', 'alloc') or r['faults']:
        # a dry run in a child process: how much of everything the run does
        def dry():
            SIM.fs_fault = None
            k = [0]

            def c(op, path, nb):
                if path.endswith('.bz2'):
                    k[0] += 1
            SIM.fs_fault = c
            li = LineInterrupter(collect=False)
            SIM.alloc_active = True
            with Tap() as tap:
                try:
                    (li.run if end == 'line' else lambda f: f())(lambda: ok.oneka(*args))
                except Exception:       # noqa
                    pass
            return tap.n, k[0], li.n, SIM.alloc_count
        total, ops, lines, allocs = in_child(dry)
    plan = {1 + int(f['at'] * total): f['what'] for f in r['faults']} if total else {}
    SIM.shows = 0

    def interrupt():
        SIM.fire('interrupt')
        raise dict(KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit)[r['exc']]('simulated')
    li = None
    k = [0]

    def fs(op, path, nb):
        if path.endswith('.log') and r['device'] and op == 'write':
            SIM.probe('log_device_error')
            return ('err', OSError(errno.ENOSPC, 'simulated', path))
        if path.endswith('.bz2') and end == 'disk':
            k[0] += 1
            if k[0] >= 1 + int(r['at'] * max(1, ops)):
                return ('err', OSError(errno.EIO, 'simulated', path))
        return None

    before = settings(r['driver'])
    files = fds()
    if end == 'interrupt' and total:
        stop = (1 + int(r['at'] * total), interrupt)
    if end == 'show_interrupt':
        SIM.on_show = interrupt
    saved_fig = plt.figure
    if end == 'plot_error':
        def boom(*a, **k):
            SIM.fire('plot_failure')
            raise MemoryError('simulated: no memory for the figure')
        plt.figure = boom
    if end == 'alloc' and allocs:
        SIM.alloc_count = 0
        SIM.alloc_fail = (1 + int(r['at'] * allocs),)
        SIM.alloc_active = True
    SIM.fs_fault = fs
    err = val = None
    started = 0
    try:
        with Tap(plan, stop) as tap:
            if end == 'missing':
                runme.main('no_such_module_' + r['tag'])
            elif end == 'load_bad':
                name = 'bad%d.bz2' % n
                with open(name, 'wb') as f:
                    import bz2
                    import random
                    b = bz2.compress(b'\x80\x04}' + bytes(random.Random(r['tag']).randbytes(400)))
                    f.write(b[:1 + int(r['at'] * len(b))])
                try:
                    val = archive.load_oneka(name)
                finally:
                    f = None
            elif end == 'line':
                li = LineInterrupter(1 + int(r['at'] * lines), dict(KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit)[r['exc']]('simulated'))
                # only inside the package: between two statements of the driver itself nothing can be undone
                pre = os.path.join(os.path.realpath(REPO), 'oneka') + os.sep
                t = li._t
                li._t = lambda fr, ev, arg: t(fr, ev, arg) if fr.f_code.co_filename.startswith(pre) else None
                li.run(lambda: launch(r, args, runme, ok))
            else:
                val = launch(r, args, runme, ok)
        started = tap.n
    except (Exception, KeyboardInterrupt, SystemExit) as e:       # noqa
        err = e
        started = tap.n
    finally:
        plt.figure = saved_fig
        SIM.fs_fault = None
        SIM.on_show = None
        SIM.alloc_active = False
        SIM.alloc_fail = ()
        SIM.interrupted = False
    if isinstance(err, Violation):
        raise err
    SIM.probe('raised' if err is not None else 'returned')
    if err is None and end in ('fail', 'bad_args', 'show_interrupt', 'plot_error', 'unpicklable'):
        raise Violation('not-failed', '%s returned normally' % who)
    if err is not None and end in ('ok', 'missing'):
        raise err
    if tap.fired:
        SIM.probe('dry', tap.fired)
    how = 'returned' if err is None else 'ended with %s' % type(err).__name__
    if end != 'line':
        # also while the caller still holds the exception
        left(who, how, files, fds(), ' while the caller still holds the exception' if err is not None else '')
    # a figure may stay open: it is the display of the results
    plt.close('all')
    name = type(err).__name__
    err = val = li = None
    gc.collect()
    left(who, how, files, fds(), '')
    after = settings(r['driver'])
    for what in before:
        if before[what] != after[what]:
            x, y = str(before[what]), str(after[what])
            j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), 0)
            raise Violation('process-changed', '%s %s and left the %s of the process changed: ...%s -> ...%s' %
                            (who, how, what, x[max(0, j - 30):j + 90], y[max(0, j - 30):j + 90]))
    host_speaks(handlers, n, who)
    SIM.probe('end_' + end)
    if end not in ('missing', 'load_bad'):
        SIM.probe('driver' if r['driver'] else 'direct')
    if started:
        ctx.nontrivial = True
        SIM.probe('stochastic' if cfg['nrealizations'] > 1 else 'deterministic')
    SIM.simtime += abs(cfg['duration']) * (started > 0)
    ctx.log(n, end, name, started, sorted(disk()))


def left(who, how, a, b, note):
    for f, t in b.items():
        if a.get(f) != t:
            raise Violation('file-left-open', '%s %s and left a file open%s: %s' % (who, how, note, t.replace(SIM.scratch, '.')))
    for f, t in a.items():
        if f not in b:
            raise Violation('file-closed', '%s %s and closed a file of the host: %s' % (who, how, t.replace(SIM.scratch, '.')))


def simplify(sc):
    if len(sc['host']['handlers']) > 1:
        for h in sc['host']['handlers']:
            yield dict(sc, host=dict(sc['host'], handlers=[h]))
    if sc['host']['subdir']:
        yield dict(sc, host=dict(sc['host'], subdir=False))
    for i, r in enumerate(sc['runs']):
        def put(**k):
            rs = list(sc['runs'])
            rs[i] = dict(r, **k)
            return dict(sc, runs=rs)
        for k, v in (('end', 'ok'), ('device', False), ('clock', 0), ('driver', False)):
            if r[k] != v:
                yield put(**{k: v})
        for k, v in (('npaths', 1), ('smooth', 0), ('nrealizations', 1), ('listy', False)):
            if r['cfg'][k] != v:
                yield put(cfg=dict(r['cfg'], **{k: v}))
