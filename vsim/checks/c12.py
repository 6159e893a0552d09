"""C12: a finished run is archived in full before its results are displayed."""
import copy
import errno
import logging
import os

import numpy as np

from ..core import SIM, Violation, SimCrash, LineInterrupter
from ..project import shorten, odd_name, gen_project, oneka_args, ARG_NAMES
from ..ref import field_state
from ..sub import in_child, disk, load

PROP = 'C12'
RUNS = {'quick': 300, 'thorough': 10000}
RULE = ('each run performs 1-3 whole runs (stochastic or deterministic, directly or through the driver) in one simulated process; at the instant the display starts, and again whenever the run '
        'returns, is killed, interrupted, or the display fails, storage must hold exactly one new archive that loads to the run\'s arguments and to the field computed by an '
        'independent process from the same draws; non-trivial: at least one display was reached')
REAL = ['oneka.* (whole runs)', 'runme.main', 'bz2, pickle']
STUBS = ['plt.show (crash and observation point)', 'Axes.fill', 'clock', 'randomness', 'disk below Python file objects']
LISTS = (('runs',),)
PROBES = ('stochastic', 'deterministic', 'driver', 'end_return', 'end_kill', 'end_interrupt', 'end_error', 'dump_failed', 'same_second', 'killed_after_display')


def gen(rng, tier, i):
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.96 else rng.choice([5, 8])):
        cfg = gen_project(rng, nreal=rng.choice([2, 3]) if rng.random() < 0.93 else rng.choice([6, 11, 30]), fine=False, dry=0.3)
        shorten(cfg, 15)
        if rng.random() < 0.35:
            cfg['nrealizations'] = rng.choice([1, 1, 1, 0])
        if rng.random() < 0.2:
            w = cfg['wells'][0]
            cfg['observations'].append([w[0] + 20.0, w[1], cfg['observations'][0][2], 1.0])     # filtered out, but archived
        if rng.random() < 0.15:
            cfg['umbra'] = cfg['spacing'] * 20          # large archive
        runs.append(dict(cfg=cfg, name='project %d é%s' % (rng.randrange(1000), odd_name(rng)), driver=rng.random() < 0.2,
                         end=rng.choice(['return', 'return', 'kill', 'interrupt', 'error', 'kill_later']), clock=rng.choice([0, 0, 0.4, 5, -3600]),
                         disk=[rng.choice(['ENOSPC', 'EIO']), rng.random()] if rng.random() < 0.2 else None))
    return dict(runs=runs)


def same(a, b):
    return type(a) is type(b) and (a == b or a != a) if not isinstance(a, (list, tuple)) else \
        type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def launch(r, args):
    """Starts the run as its user would."""
    import oneka.oneka
    if not r['driver']:
        return oneka.oneka.oneka(*args)
    import runme
    import sys
    import types
    m = types.ModuleType('simdata')
    a = dict(zip(ARG_NAMES, args))
    for n in ('projectname', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'observations', 'buffer',
              'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep'):
        setattr(m, n.upper(), a[n])
    m.WELLS = a['stochastic_wells']
    sys.modules['simdata'] = m
    runme.main('simdata')
    return None


def direct(cfg, args, task):
    """The field of this run, computed from the same draws without the run's own orchestration."""
    def f():
        SIM.task = task
        a = dict(zip(ARG_NAMES, args))
        from oneka.utilities import filter_obs
        from oneka.stochastic import create_stochastic_capturezone
        from oneka.deterministic import create_deterministic_capturezone
        obs = filter_obs(a['observations'], a['stochastic_wells'], a['buffer'])
        rest = (a['base'], a['c_dist'], a['p_dist'], a['t_dist'], a['stochastic_wells'], obs, a['spacing'], a['umbra'], a['confined'], a['tol'], a['maxstep'])
        if a['nrealizations'] > 1:
            return field_state(create_stochastic_capturezone(a['target'], a['npaths'], a['duration'], a['nrealizations'], *rest))
        return field_state(create_deterministic_capturezone(a['target'], a['npaths'], a['duration'], *rest))
    return in_child(f)


def run(sc, ctx):
    lg = logging.getLogger('Oneka')
    lg.addHandler(logging.NullHandler())
    import matplotlib.pyplot as plt
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    SIM.fs_active = True
    for n, r in enumerate(sc['runs']):
        cfg = r['cfg']
        SIM.task = n
        SIM.now += r['clock']
        if n and abs(r['clock']) < 1:
            SIM.probe('same_second')
        args = oneka_args(cfg, r['name'], 'Sat Jul 25 12:00:%02d 2020' % n)
        orig = copy.deepcopy(args)
        want = direct(cfg, args, n)
        before = disk()
        SIM.shows = 0
        end = r['end']
        fault = r['disk']
        # a dry run in a child tells how many disk operations the run makes
        if fault:
            def count():
                k = [0]

                def c(op, path, nb):
                    if path.endswith('.bz2'):
                        k[0] += 1
                SIM.fs_fault = c
                launch(dict(r, driver=False), args)
                return k[0]
            ops = in_child(count)
            at = 1 + int(fault[1] * max(1, ops))
            k = [0]

            def fs(op, path, nb):
                if not path.endswith('.bz2'):
                    return None
                k[0] += 1
                if k[0] >= at:
                    return ('err', OSError(getattr(errno, fault[0]), 'simulated', path))
            SIM.fs_fault = fs
        seen = {}

        def check(when):
            now = disk()
            for p, b in before.items():
                if p.endswith('.bz2') and now.get(p) != b:
                    raise Violation('old-archive', '%s: the earlier archive %r is gone or altered' % (when, p))
            new = [p for p in now if p not in before and not p.endswith('.log')]
            good = []
            for p in new:
                res = load(p)
                if res[0] == 'ok':
                    good.append((p, res[1]))
            if len(good) != 1 or len(new) != 1:
                raise Violation('archive-count', '%s: %d new files, %d of them loadable archives, instead of exactly one archive (%s)' %
                                (when, len(new), len(good), [(p, load(p)[1]) for p in new if p not in [g[0] for g in good]][:1]))
            d = good[0][1]
            for name, v in zip(ARG_NAMES, orig):
                if name == 'runtime' and r['driver']:
                    continue
                if name not in d or not same(d[name], v):
                    raise Violation('archived-argument', '%s: the archive holds %s = %r, the run was given %r' % (when, name, d.get(name, 'nothing'), v))
            if field_state(d['pfield']) != want:
                raise Violation('archived-field', '%s: the archived field is not the field computed from the run\'s draws' % when)
            seen[when] = good[0][0]

        def show():
            if SIM.shows > 1:
                return
            check('when the display starts')
            if end == 'kill':
                SIM.dead = True
                SIM.fire('process_crash')
                raise SimCrash()
            if end == 'interrupt':
                SIM.fire('interrupt')
                raise KeyboardInterrupt('simulated')
            if end == 'error':
                SIM.fire('display_error')
                raise RuntimeError('simulated: no display')
        SIM.on_show = show
        err = val = None
        try:
            if end == 'kill_later':
                # killed at some line after the display began
                import sys
                cnt = [0]

                def tr(fr, ev, arg):
                    if not fr.f_code.co_filename.startswith(os.path.realpath(os.environ.get('VSIM_REPO', '/repo'))):
                        return None

                    def loc(fr, ev, arg):
                        if SIM.shows and ev == 'line':
                            cnt[0] += 1
                            if cnt[0] == 2:
                                SIM.dead = True
                                SIM.fire('process_crash')
                                SIM.probe('killed_after_display')
                                raise SimCrash()
                        return loc
                    return loc
                sys.settrace(tr)
            try:
                val = launch(r, args)
            finally:
                import sys
                sys.settrace(None)
        except Violation:
            raise
        except BaseException as e:      # noqa
            err = e
        SIM.on_show = None
        SIM.fs_fault = None
        SIM.dead = False
        shown = SIM.shows
        if fault and not shown:
            # the archive could not be written: the run must say so
            SIM.probe('dump_failed')
            if err is None:
                raise Violation('silent', 'the archive could not be written (%s at operation %d), nothing was displayed, and the run returned normally' % (fault[0], at))
            if not isinstance(err, Exception):
                raise err
            for p in disk():
                if p not in before and not p.endswith('.log'):
                    x = load(p)
                    if x[0] == 'ok':
                        if field_state(x[1]['pfield']) != want:
                            raise Violation('wrong-archive', 'after a write failure an archive loads that is not the run')
                    os.unlink(os.path.join(SIM.scratch, p))
        else:
            if not shown and err is not None:
                raise err
            check('after the run (%s)' % end)
            SIM.probe('end_' + end.split('_')[0])
            if end == 'return':
                if err is not None:
                    raise err
                if not r['driver']:
                    if val is None or not hasattr(val, 'pgrid'):
                        raise Violation('returned', 'the run returned %r instead of the probability field' % (val,))
                    if field_state(val) != want:
                        raise Violation('returned', 'the returned field is not the field computed from the run\'s draws')
                if not shown:
                    raise Violation('not-displayed', 'the run returned without displaying its results')
            ctx.nontrivial = True
            SIM.probe('stochastic' if cfg['nrealizations'] > 1 else 'deterministic')
            if r['driver']:
                SIM.probe('driver')
        plt.close('all')
        SIM.simtime += abs(cfg['duration'])
        ctx.log(n, end, want, type(err).__name__)
    SIM.fs_active = False
    ctx.count('runs', len(sc['runs']))
    ctx.sample = dict(runs=[dict(end=r['end'], driver=r['driver'], nreal=r['cfg']['nrealizations'], disk=r['disk']) for r in sc['runs']])


def simplify(sc):
    for i, r in enumerate(sc['runs']):
        c = r['cfg']
        for k, v in (('npaths', 1), ('smooth', 0), ('listy', False)):
            if c[k] != v:
                rs = list(sc['runs'])
                rs[i] = dict(r, cfg=dict(c, **{k: v}))
                yield dict(sc, runs=rs)
        for k, v in (('driver', False), ('disk', None), ('end', 'return'), ('clock', 0)):
            if r[k] != v:
                rs = list(sc['runs'])
                rs[i] = dict(r, **{k: v})
                yield dict(sc, runs=rs)
