"""C28: the times a run reports are its own, whatever is done to the clock."""
import logging
import os
import re
import sys
import time

from ..core import SIM, Violation, ListHandler, ZONES, set_zone
from ..project import shorten, gen_project
from ..sub import disk, load
from .c15 import module, lines_of, logs

PROP = 'C28'
RUNS = {'quick': 700, 'thorough': 9000}
RULE = ('each run makes 1-4 whole runs through the driver in one simulated process while time passes at the flow evaluations and displays and the wall clock is set forward or back, by seconds to months, at seeded '
        'evaluations and clock reads; the start time in log and archive, the elapsed time in the log and on the terminal, and the dates in the file names are compared with what the simulated clocks showed; '
        'non-trivial: the wall clock was set during a run that completed')
REAL = ['runme.main', 'oneka.* (whole runs)', 'logging, datetime, time formatting']
STUBS = ['wall clock and monotonic clock', 'plt.show', 'Axes.fill', 'randomness', 'disk below Python file objects']
LISTS = (('runs',), ('runs', '*', 'steps'))
MINLEN = {'runs': 1}
PROBES = ('completed', 'interrupted', 'set_back', 'set_forward', 'long', 'second_run', 'midnight', 'set_at_read', 'daylight_saving')


def gen(rng, tier, i):
    runs = []
    for _ in range(rng.choice([1, 2, 2, 4])):
        cfg = gen_project(rng, nreal=2, fine=False, dry=0.1)
        shorten(cfg, 5)
        cfg['npaths'] = min(cfg['npaths'], 2)
        if rng.random() < 0.5:
            cfg['nrealizations'] = 1
        steps = [[rng.randrange(1, 400), rng.choice([-1, 1]) * rng.choice([0.3, 1, 2.5, 59, 3600, 86400 * 31, 86400 * 400])] for _ in range(rng.choice([0, 1, 1, 2]))]
        runs.append(dict(cfg=cfg, end=rng.choice(['ok', 'ok', 'ok', 'interrupt']), tag='T%08x' % rng.getrandbits(32), steps=steps,
                         reads=[[rng.randrange(1, 9), rng.choice([-1, 1]) * rng.choice([0.4, 3, 7200])]] if rng.random() < 0.3 else [],
                         per=rng.choice([0, 1e-5, 0.001, 0.1, 30.0]), show=rng.choice([0, 0, 1.5, 600]), gap=rng.choice([0, 0.1, 1, 77, 86399]), set=rng.choice([0, 0, 0, -3600, 86400])))
    return dict(runs=runs, zone=rng.choice([None, None, ZONES[1], ZONES[4]]), tick=rng.choice([0.0, 1e-6, 0.0005]), start=rng.choice([1595635200.25, 1595635199.9, 1604188798.5, 1709164799.0, 1767225598.7, 1604213998.5, 1615708799.0, 1586008798.0]))


def run(sc, ctx):
    import matplotlib.pyplot as plt
    import runme
    from oneka.model import Model
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    SIM.now = sc['start']
    if sc.get('zone'):
        set_zone(sc['zone'])
    SIM.tick = sc['tick']
    SIM.fs_active = True
    lg = logging.getLogger('Oneka')
    stdout = sys.stdout
    for n, r in enumerate(sc['runs']):
        SIM.task = n
        SIM.elapse(r['gap'])
        SIM.now += r['set']
        who = 'run %d' % n
        a = module(dict(r, end='ok'))
        before = disk()
        count = [0]
        steps = dict(r['steps'])
        moved = [0]
        saved = {}
        for name in ('compute_velocity', 'compute_velocity_confined'):
            saved[name] = Model.__dict__[name]

            def g(s, x, y, f=saved[name]):
                count[0] += 1
                SIM.elapse(r['per'])
                j = steps.pop(count[0], None)
                if j is not None:
                    SIM.now += j
                    moved[0] += 1
                    SIM.fire('clock_jump_back' if j < 0 else 'clock_jump')
                    SIM.probe('set_back' if j < 0 else 'set_forward')
                if r['end'] == 'interrupt' and count[0] == 40:
                    SIM.fire('interrupt')
                    raise KeyboardInterrupt('simulated')
                return f(s, x, y)
            setattr(Model, name, g)
        SIM.on_show = lambda: SIM.elapse(r['show'])
        SIM.clock_reads = 0
        SIM.jumps = {k: j for k, j in r['reads']}
        # the wall clock may have been set between the reads of the start: every reading then is a true one
        wall0, mono0 = SIM.now, SIM.mono
        emitted = []

        class Last(ListHandler):
            def emit(self, rec):
                emitted.append((rec.getMessage(), SIM.mono, SIM.now))
        h = Last()
        lg.addHandler(h)
        readings = []
        real = SIM.clock
        SIM.clock = lambda: readings.append(real()) or readings[-1]
        out = open(os.path.join(SIM.scratch, 'stdout.txt'), 'w+')
        sys.stdout = out
        err = None
        try:
            runme.main('simdata')
        except KeyboardInterrupt as e:
            err = e
        finally:
            sys.stdout = stdout
            del SIM.clock
            lg.removeHandler(h)
            SIM.on_show = None
            for name, f in saved.items():
                setattr(Model, name, f)
        jumped = any(k <= SIM.clock_reads for k in SIM.jumps)
        SIM.jumps = {}
        mono1 = SIM.mono
        out.seek(0)
        said = out.read()
        out.close()
        os.unlink(os.path.join(SIM.scratch, 'stdout.txt'))
        plt.close('all')
        new = [p for p in disk() if p not in before]
        text = '\n'.join(m for m, t, w in emitted)
        # -- the start
        starts = readings[:6] + [wall0]
        stamps = {time.asctime(time.localtime(w)) for w in starts}
        m = re.search(r'^\s*(?:run time|runtime|run)[^=\n]*=\s*(.+?)\s*$', text, re.M | re.I)
        logged = m.group(1) if m else None
        if logged is None:
            found = [s for s in stamps if s in text]
            logged = found[0] if found else None
        if logged is None or logged not in stamps:
            raise Violation('start-time', '%s started at %s; its log says %r' % (who, sorted(stamps), logged))
        for p in new:
            if p.endswith('.bz2'):
                d = load(p)
                if d[0] == 'ok' and d[1].get('runtime') != logged:
                    raise Violation('start-time', '%s: the archive says it ran at %r, the log %r' % (who, d[1].get('runtime'), logged))
            s = re.search(r'(\d{8}T\d{6})', p)
            walls = {time.strftime('%Y%m%dT%H%M%S', time.localtime(w)) for r0 in readings + [wall0] for w in (r0, r0 + 1e-6)}
            if not s or s.group(1) not in walls:
                raise Violation('file-date', '%s: the file %r is dated with a time the clock did not show' % (who, p))
        # -- the elapsed time
        closing = [(m, t) for m, t, w in emitted if re.search(r'elapsed time', m, re.I)]
        if err is None:
            SIM.probe('completed')
            if n:
                SIM.probe('second_run')
            if len(closing) != 1:
                raise Violation('closing-line', '%s completed; its log has %d closing lines' % (who, len(closing)))
            true = closing[0][1] - mono0
            for what, line in (('log', closing[0][0]), ('terminal', said)):
                m = re.search(r'elapsed time\s*=?\s*(-?[\d.]+(?:e[-+]?\d+)?)', line, re.I)
                if not m:
                    raise Violation('closing-line', '%s: the %s does not state the elapsed time: %r' % (who, what, line[-200:]))
                got = float(m.group(1))
                if abs(got - true) > 0.011 + 200 * sc['tick']:
                    raise Violation('elapsed-time', '%s: the elapsed time on the %s is %r s; %r s have passed%s' %
                                    (who, what, got, round(true, 4), ', and the wall clock was set meanwhile' if moved[0] or jumped else ''))
            if moved[0] or jumped:
                ctx.nontrivial = True
            if jumped:
                SIM.probe('set_at_read')
            if true > 100:
                SIM.probe('long')
            if time.localtime(wall0).tm_mday != time.localtime(SIM.now).tm_mday:
                SIM.probe('midnight')
        else:
            SIM.probe('interrupted')
        SIM.simtime += (mono1 - mono0) / 86400
        if time.localtime(wall0).tm_isdst != time.localtime(SIM.now).tm_isdst:
            SIM.probe('daylight_saving')
        ctx.log(n, logged, [m for m, t in closing], sorted(new))
    SIM.fs_active = False
    ctx.count('runs', len(sc['runs']))
    ctx.sample = dict(runs=[dict(steps=r['steps'], reads=r['reads'], per=r['per'], end=r['end']) for r in sc['runs']])


def simplify(sc):
    for i, r in enumerate(sc['runs']):
        def put(**k):
            rs = list(sc['runs'])
            rs[i] = dict(r, **k)
            return dict(sc, runs=rs)
        for k, v in (('end', 'ok'), ('reads', []), ('set', 0), ('gap', 0), ('show', 0), ('per', 0)):
            if r[k] != v:
                yield put(**{k: v})
        for k, v in (('npaths', 1), ('smooth', 0), ('nrealizations', 1), ('listy', False)):
            if r['cfg'][k] != v:
                yield put(cfg=dict(r['cfg'], **{k: v}))
