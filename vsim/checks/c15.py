"""C15: the run log holds the whole record of its own run and no other."""
import copy
import errno
import gc
import logging
import os
import re
import sys
import types

import numpy as np

from ..core import SIM, Violation, SimCrash, ListHandler, REPO
from ..project import shorten, odd_name, gen_project, oneka_args, ARG_NAMES, ModelSpy, tup
from ..sub import in_child, disk, load
from ..flows import make_error
from ..ref import field_state

PROP = 'C15'
RUNS = {'quick': 360, 'thorough': 10000}
RULE = ('each run drives 1-4 runs through runme.main in one simulated process - completing, failing, interrupted at a flow evaluation or while results are displayed, killed at a line, with '
        'flow failures inside traces and with a log device whose writes fail - under a clock that stands still or moves; the bytes on storage are compared with what the run emitted, '
        'with its arguments, its realizations and the failures injected; non-trivial: at least one realization was logged')
REAL = ['runme.main', 'oneka.* (whole runs)', 'logging (file handlers)']
STUBS = ['clock', 'randomness', 'disk below Python file objects', 'flow failures', 'plt.show, Axes.fill']
LISTS = (('runs',), ('runs', '*', 'faults'))
PROBES = ('completed', 'failed', 'interrupted', 'killed', 'log_device_error', 'premature', 'same_second', 'own_second', 'deterministic', 'stochastic', 'bad_arguments', 'missing_module',
          'between_runs', 'silenced_before')


def gen(rng, tier, i):
    runs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        cfg = gen_project(rng, nreal=rng.choice([2, 3, 4]) if rng.random() < 0.93 else rng.choice([8, 12, 101, 118]), fine=False, dry=0.3)
        shorten(cfg, 12)
        cfg['npaths'] = min(cfg['npaths'], 3) if cfg['nrealizations'] < 50 else 1
        if cfg['nrealizations'] > 50:
            shorten(cfg, 1.0)
        if rng.random() < 0.3:
            cfg['nrealizations'] = 1
        o = rng.choice(cfg['observations'])
        if rng.random() < 0.4:
            cfg['observations'].append([o[0] + 0.3, o[1], round(o[2] + 0.1, 3), 0.5])
        end = rng.choice(['ok', 'ok', 'ok', 'interrupt', 'kill', 'fail', 'show_interrupt', 'bad_args', 'kill', 'plot_error'])
        runs.append(dict(cfg=cfg, odd=odd_name(rng), end=end, at=rng.random(), tag='T%08x' % rng.getrandbits(32), clock=rng.choice([0, 0, 1, 2, 60, -3600, 86400]),
                         faults=[dict(at=rng.random(), what=rng.choice(['AquiferError', 'ValueError', 'ZeroDivisionError', 'nan'])) for _ in range(rng.choice([0, 0, 1, 3]))],
                         device=rng.choice([None] * 5 + [[rng.choice(['ENOSPC', 'EIO']), rng.choice([1, 5, 20, 60]), rng.random() < 0.5]]),
                         between=rng.random() < 0.3, quiet=rng.choice([0, 0, 0, 0, 0, 30, 50, 10]), exc=rng.choice(['KeyboardInterrupt', 'SystemExit'])))
        if rng.random() < 0.05:
            runs.append(dict(runs[-1], end='missing', tag='T%08x' % rng.getrandbits(32)))
    return dict(runs=runs, tick=rng.choice([0.0, 0.0001, 0.001]))


class Tap:
    """Wraps the model's velocity functions: counts evaluations, injects failures, stops the run."""

    NAMES = ('compute_velocity', 'compute_velocity_confined')

    def __init__(self, plan=(), stop=None):
        self.n = 0
        self.plan = dict(plan)
        self.stop = stop
        self.fired = 0
        self.depth = 0

    def __enter__(self):
        from oneka.model import Model
        self.saved = {n: Model.__dict__[n] for n in self.NAMES}
        tap = self

        def wrap(f):
            def g(s, *a, **k):
                if tap.depth:
                    return f(s, *a, **k)
                tap.n += 1
                if tap.stop and tap.n == tap.stop[0]:
                    tap.stop[1]()
                w = tap.plan.pop(tap.n, None)
                if w:
                    tap.fired += 1
                    SIM.fire('flow_' + w)
                    if w == 'nan':
                        return (np.nan, np.nan)
                    raise make_error(w)
                tap.depth += 1
                try:
                    return f(s, *a, **k)
                finally:
                    tap.depth -= 1
            return g
        for n, f in self.saved.items():
            setattr(Model, n, wrap(f))
        return self

    def __exit__(self, *a):
        from oneka.model import Model
        for n, f in self.saved.items():
            setattr(Model, n, f)


class Opaque(str):
    """A name that cannot be archived."""

    def __reduce_ex__(self, protocol):
        SIM.fire('archiving_refused')
        raise TypeError('simulated: cannot pickle this name')


def module(r, name='simdata'):
    m = types.ModuleType(name)
    a = dict(zip(ARG_NAMES, oneka_args(r['cfg'], 'project ' + r['tag'] + r.get('odd', ''))))
    if r['end'] == 'bad_args':
        a['npaths'] = 0
    if r['end'] == 'unpicklable':
        a['projectname'] = Opaque(a['projectname'])
    if r['end'] == 'fail':
        a['base'] = max(o[2] for o in a['observations']) + 1.0        # all heads below the base: the fit fails
    for n in ('projectname', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'observations', 'buffer',
              'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep'):
        setattr(m, n.upper(), a[n])
    m.WELLS = a['stochastic_wells']
    sys.modules[name] = m
    return a


def lines_of(text):
    return [l.rstrip() for l in text.splitlines() if l.strip()]


def logs():
    return {p: b for p, b in disk().items() if not p.endswith('.bz2')}


def in_order(need, have):
    """Each line of need occurs, in order, as (part of) a line of have: -> first missing line or None; and the unmatched lines of have."""
    k = 0
    extra = []
    for h in have:
        if k < len(need) and need[k].strip() in h:
            k += 1
        else:
            extra.append(h)
    return (need[k] if k < len(need) else None), extra


NUM = r'[-+]?(?:\d+(?:,\d{3})*(?:\.\d*)?(?:[eE][-+]?\d+)?|nan|inf)'


def run(sc, ctx):
    import matplotlib.pyplot as plt
    import runme
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    lg = logging.getLogger('Oneka')
    SIM.tick = sc['tick']
    SIM.fs_active = True
    sys.stdout = open(os.devnull, 'w')
    stderr, sys.stderr = sys.stderr, open(os.devnull, 'w')
    used = {}
    try:
        for n, r in enumerate(sc['runs']):
            one(n, r, ctx, used, lg, runme, plt)
            plt.close('all')
    finally:
        sys.stderr = stderr
    SIM.fs_active = False
    ctx.count('runs', len(sc['runs']))
    ctx.sample = dict(runs=[dict(end=r['end'], faults=[f['what'] for f in r['faults']], device=r['device'], clock=r['clock']) for r in sc['runs']])


def one(n, r, ctx, used, lg, runme, plt):
    cfg = r['cfg']
    end = r['end']
    SIM.task = n
    SIM.now += r['clock']
    who = 'run %d (%s)' % (n, end)
    before = logs()
    if end == 'missing':
        # no such data module: nothing is run and nothing may be written
        runme.main('no_such_module_' + r['tag'])
        if logs() != before:
            raise Violation('spurious-log', '%s: a run that never started left a log' % who)
        SIM.probe('missing_module')
        return
    args = module(r)
    if r['between']:
        # OnekaPy used directly between two runs: not part of any run's log
        from oneka.utilities import filter_obs
        old = lg.level
        lg.setLevel(logging.INFO)
        filter_obs([(o[0] + 7.0, o[1], o[2], o[3]) for o in args['observations']], args['stochastic_wells'], 10.0)
        lg.setLevel(old)
        if logs() != before:
            raise Violation('foreign-record', 'records made before run %d, outside any run, were written to a run log' % n)
        SIM.probe('between_runs')
    if r.get('quiet'):
        # the host has silenced the logger in the meantime
        lg.setLevel(r['quiet'])
        SIM.probe('silenced_before')

    # a dry run in a child process: how many evaluations and realizations there are, and the undisturbed field
    def dry():
        SIM.fs_fault = None
        with Tap() as tap:
            try:
                runme.main('simdata')
            except Exception:       # noqa
                pass
        return tap.n
    total = in_child(dry) if end not in ('bad_args', 'fail') else 0
    plan = {}
    for f in r['faults']:
        k = 1 + int(f['at'] * total)
        if total and all(abs(k - q) > 8 for q in list(plan) + [1 + int(r['at'] * total)]):         # an undefined velocity ends the trace at the end of the step
            plan[k] = f['what']
    first_plan = dict(plan)
    stop = None
    emitted = ListHandler()
    at_stop = {}

    def note():
        at_stop['disk'] = logs()
        at_stop['n'] = len(emitted.records)

    def kill():
        note()
        SIM.dead = True
        SIM.fire('process_crash')
        raise SimCrash()

    def interrupt():
        SIM.interrupted = True
        SIM.fire('interrupt')
        raise dict(KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit)[r['exc']]('simulated')
    if end == 'kill' and total:
        stop = (1 + int(r['at'] * total), kill)
    elif end == 'interrupt' and total:
        stop = (1 + int(r['at'] * total), interrupt)
    if end == 'show_interrupt':
        SIM.on_show = interrupt
    if end == 'plot_error':
        def boom():
            raise MemoryError('simulated: no memory for the figure')
        import oneka.visualize
        saved_fig = plt.figure
        plt.figure = lambda *a, **k: boom()
    dev = r['device']
    devhit = [0]
    if dev:
        k = [0]

        def fs(op, path, nb):
            if not path.endswith('.log') or op != 'write':
                return None
            k[0] += 1
            if k[0] == dev[1] or (k[0] > dev[1] and not dev[2]):
                devhit[0] += 1
                return ('err', OSError(getattr(errno, dev[0]), 'simulated', path))
        SIM.fs_fault = fs
    # what the process emits, seen beside the log file
    lg.addHandler(emitted)
    err = None
    archives_before = disk('.bz2')
    start_now = int(SIM.now)
    try:
        with Tap(plan, stop) as tap, ModelSpy() as spy:
            runme.main('simdata')
    except (Exception, KeyboardInterrupt, SystemExit, SimCrash) as e:       # noqa
        err = e
    finally:
        lg.removeHandler(emitted)
        if dev and devhit[0]:
            # buffers this run has abandoned go down with the device, not into the next run's time
            for h in [o for o in gc.get_objects() if isinstance(o, logging.FileHandler) and o not in lg.handlers and o not in logging.getLogger().handlers]:
                if h.stream is not None:
                    try:
                        h.stream.close()
                    except (OSError, ValueError):
                        pass
        SIM.fs_fault = None
        SIM.on_show = None
        SIM.interrupted = False
        if end == 'plot_error':
            plt.figure = saved_fig
    end_now = int(SIM.now)
    if isinstance(err, Violation):
        raise err
    keys = spy.keys.get(n, [])
    completed = err is None
    expected = {'ok': (), 'interrupt': (KeyboardInterrupt, SystemExit) if total else (), 'show_interrupt': (KeyboardInterrupt, SystemExit), 'kill': (SimCrash,) if total else (),
                'fail': (Exception,), 'bad_args': (AssertionError, Exception), 'plot_error': (MemoryError,)}[end]
    if err is not None and not isinstance(err, expected):
        if dev and devhit[0]:
            raise Violation('log-stopped-run', '%s: a failing log device stopped the run: %r' % (who, err))
        raise err
    if err is None and end in ('fail', 'bad_args'):
        raise Violation('not-failed', '%s returned normally' % who)
    records = [m for lv, name, m in emitted.records]
    if isinstance(err, SimCrash):
        after = at_stop['disk']
        records = records[:at_stop['n']]
        # the process is gone: its handlers go with it
        for h in list(lg.handlers):
            lg.removeHandler(h)
        SIM.dead = False
        SIM.probe('killed')
    else:
        after = logs()
    SIM.dead = False
    # -- where did the log go
    changed = [p for p in after if after[p] != before.get(p)]
    for p in before:
        if p not in after or not after[p].startswith(before[p]):
            raise Violation('log-destroyed', '%s: the earlier log %r was altered or removed' % (who, p))
    if len(changed) > 1:
        raise Violation('log-scattered', '%s wrote to %d log files: %s' % (who, len(changed), changed))
    if not changed:
        if dev and devhit[0]:
            text = ''
        elif end == 'bad_args':
            text = ''
        else:
            raise Violation('no-log', '%s left no log' % who)
    else:
        p = changed[0]
        prior = before.get(p, b'')
        if prior:
            SIM.probe('same_second')
            # sharing a file is allowed only with runs started in the same second
            if p in used and used[p] not in range(start_now - 1, end_now + 2):
                raise Violation('shared-log', '%s wrote into the log of a run started at second %d' % (who, used[p]))
        else:
            SIM.probe('own_second')
            used[p] = start_now
        text = after[p][len(prior):].decode('utf-8', 'replace')
    have = lines_of(text)
    clean = not (dev and devhit[0])
    if not clean:
        SIM.probe('log_device_error')
        # the run itself must come out as if the device worked
        if completed:
            new = [q for q in disk('.bz2') if q not in archives_before]
            if len(new) != 1 or load(new[0])[0] != 'ok':
                raise Violation('log-stopped-run', '%s with a failing log device did not finish properly' % who)
            got = field_state(load(new[0])[1]['pfield'])

            def plain():
                # same draws, working device
                SIM.streams.clear()
                SIM.gen_count.clear()
                SIM.epoch += 1
                with Tap(first_plan):
                    runme.main('simdata')
                return field_state(load(list(disk('.bz2'))[0])[1]['pfield'])
            if in_child(plain) != got:
                raise Violation('log-changed-run', '%s: a failing log device changed the result' % who)
    # -- completeness against what was emitted
    need = [l for m in records for l in lines_of(m)]
    if clean:
        missing, extra = in_order(need, have)
        if missing is not None:
            raise Violation('record-lost', '%s: the record %r was emitted but is not in the log (%d of %d lines are)' % (who, missing[:120], len(have), len(need)))
        if extra:
            raise Violation("foreign-record", "%s: the log holds a line the run did not emit: %r (%d emitted, %d logged)" % (who, extra[0][:160], len(need), len(have)))
    for other in [s for s in re.findall(r'T[0-9a-f]{8}', text) if s != r['tag']]:
        raise Violation('foreign-record', '%s: the log names another run\'s project %s' % (who, other))
    if not clean:
        ctx.log(n, end, len(have))
        return
    # -- completeness against what the run did
    if end != 'bad_args':
        vals = {}
        for l in have:
            m = re.match(r'\s*([A-Za-z_ ]+?)\s*=\s*(.*)$', l)
            if m and m.group(1) not in vals:
                vals[m.group(1)] = m.group(2).strip()
        for name, want in (('project name', args['projectname'].strip()),):
            if vals.get(name) != want:
                raise Violation('argument-missing', '%s: the log gives %s = %r instead of %r' % (who, name, vals.get(name), want))
        for name in ('target', 'npaths', 'duration', 'nrealizations', 'base', 'buffer', 'spacing', 'umbra', 'smooth', 'tol', 'maxstep'):
            m = re.match(NUM, vals.get(name, ''))
            if not m or abs(float(m.group(0)) - args[name]) > 0.00501:
                raise Violation('argument-missing', '%s: the log gives %s = %r instead of %r' % (who, name, vals.get(name), args[name]))
        if vals.get('confined') != str(args['confined']):
            raise Violation('argument-missing', '%s: the log gives confined = %r instead of %r' % (who, vals.get('confined'), args['confined']))
        for name in ('c_dist', 'p_dist', 't_dist'):
            nums = [float(x) for x in re.findall(NUM, vals.get(name, ''))]
            d = args[name]
            want = list(d) if isinstance(d, (list, tuple)) else [d]
            if len(nums) != len(want) or any(abs(a - b) > 0.00501 for a, b in zip(nums, want)):
                raise Violation('argument-missing', '%s: the log gives %s = %r instead of %r' % (who, name, vals.get(name), d))
        for group, items in (('stochastic_wells', args['stochastic_wells']), ('observations', args['observations'])):
            k = [j for j, l in enumerate(have) if l.strip().startswith(group + ':')]
            if not k:
                raise Violation('argument-missing', '%s: the log does not list the %s' % (who, group))
            for j, it in enumerate(items):
                l = have[k[0] + 1 + j] if k[0] + 1 + j < len(have) else ''
                nums = [float(x) for x in re.findall(NUM, l)]
                flat = [v for c in it for v in (c if isinstance(c, (list, tuple)) else [c])]
                if len(nums) != len(flat) or any(abs(a - b) > 0.00501 for a, b in zip(nums, flat)):
                    raise Violation('argument-missing', '%s: %s %d is logged as %r instead of %r' % (who, group, j, l, it))
    recs = [(j, l) for j, l in enumerate(have) if re.search(r'Realization\s*#', l)]
    if args['nrealizations'] > 1 and end not in ('bad_args', 'fail'):
        nums = []
        for j, l in recs:
            m = re.search(r'Realization\s*#\s*(\d+)\s*:(.*)', l)
            nums.append((int(m.group(1)), [float(x) for x in re.findall(NUM, m.group(2))], j))
        if [x[0] for x in nums] != [x[0] + nums[0][0] for x in enumerate(nums)] if nums else False:
            raise Violation('realization-record', '%s: realizations are logged as %r' % (who, [x[0] for x in nums]))
        done = args['nrealizations'] if completed or end in ('show_interrupt', 'plot_error') else len(keys)
        if len(nums) != done and not (stop and len(nums) == done - 1):
            raise Violation('realization-record', '%s: %d realizations were %s but %d are logged' %
                            (who, done, 'made' if completed else 'started', len(nums)))
        for (k, v, j), key in zip(nums, keys):
            for val in key[:4]:
                if not any(abs(x - val) <= 0.00501 for x in v):
                    raise Violation('realization-record', '%s: the record of realization %d, %r, does not hold the value %r used' % (who, k, v, val))
            if not all(any(abs(x - c) <= 1e-3 * abs(c) + 1e-12 for x in (float(y) for y in re.findall(NUM, ' '.join(have[j:j + 4])))) for c in key[6]):
                raise Violation('realization-record', '%s: the record of realization %d does not hold the regional coefficients used' % (who, k))
        if nums:
            ctx.nontrivial = True
        SIM.probe('stochastic')
    elif end not in ('bad_args', 'fail'):
        SIM.probe('deterministic')
        ctx.nontrivial = ctx.nontrivial or len(keys) > 0
        if keys:
            s = [float(x) for l in have for x in re.findall(NUM, l)]
            for c in keys[0][6]:
                if not any(abs(x - c) <= 1e-3 * abs(c) + 1e-12 for x in s):
                    raise Violation('realization-record', '%s: the log does not hold the regional coefficients used' % who)
    warns = [l for l in have if 'terminated prematurely' in l]
    if tap.fired:
        SIM.probe('premature', tap.fired)
    if len(warns) < tap.fired:
        raise Violation('premature-lost', '%s: %d traces were ended by injected failures but %d premature ends are in the log' % (who, tap.fired, len(warns)))
    if cfg['confined'] and len(warns) > tap.fired:
        raise Violation('premature-spurious', '%s: %d premature trace ends are logged, %d happened' % (who, len(warns), tap.fired))
    closing = [j for j, l in enumerate(have) if re.search(r'[Tt]otal elapsed time', l)]
    if completed:
        if len(closing) != 1 or closing[0] != len(have) - 1:
            raise Violation('closing-line', '%s completed; its log has %d closing lines%s' % (who, len(closing), '' if not closing else ', not at its end'))
        res = [j for j, l in enumerate(have) if 'Capture Zone Area' in l or 'Pr(capture)' in l]
        if len(res) != 1 or (recs and res[0] < recs[-1][0]):
            raise Violation('results', '%s completed; its log holds its results %d times' % (who, len(res)))
        SIM.probe('completed')
    else:
        if closing:
            raise Violation('closing-line', '%s did not complete but its log is closed as if it had' % who)
        SIM.probe({'interrupt': 'interrupted', 'show_interrupt': 'interrupted', 'fail': 'failed', 'plot_error': 'failed', 'bad_args': 'bad_arguments', 'kill': 'killed'}[end])
    SIM.simtime += abs(cfg['duration']) * max(1, len(keys))
    ctx.log(n, end, have)


def simplify(sc):
    for i, r in enumerate(sc['runs']):
        def put(**k):
            rs = list(sc['runs'])
            rs[i] = dict(r, **k)
            return dict(sc, runs=rs)
        for k, v in (('end', 'ok'), ('device', None), ('between', False), ('quiet', 0), ('clock', 0)):
            if r[k] != v:
                yield put(**{k: v})
        for k, v in (('npaths', 1), ('smooth', 0), ('nrealizations', 2), ('listy', False)):
            if r['cfg'][k] != v and not (k == 'nrealizations' and r['cfg'][k] < 2):
                yield put(cfg=dict(r['cfg'], **{k: v}))
