"""C26: what is displayed is this run, on figures of its own."""
import logging
import math
import os

import numpy as np

from ..core import SIM, Violation, LineInterrupter, REPO
from ..project import shorten, gen_project, oneka_args, ARG_NAMES
from ..sub import in_child
from .c15 import Tap
from .c24 import retained

PROP = 'C26'
RUNS = {'quick': 160, 'thorough': 6000}
RULE = ('each run is a host session of 2-4 whole runs of different projects in one simulated process, with figures of the host open and current, some runs failing at a seeded drawing call, interrupted at a '
        'line or in the display, or out of memory, their half-drawn figures left open; at the moment of display the new figures must show the wells, the target and exactly the retained observations of '
        'this run at their places, and every older figure, of the host or of an earlier run, must be as it was; non-trivial: at least one display after an unfinished run or with a foreign figure open')
REAL = ['oneka.* (whole runs)', 'matplotlib figures, axes and artists (except Axes.fill and plt.show)']
STUBS = ['plt.show', 'Axes.fill', 'clock', 'randomness', 'disk', 'failures of drawing calls']
LISTS = (('runs',), ('figures',))
MINLEN = {'runs': 1}
PROBES = ('stochastic', 'deterministic', 'host_figure', 'leftover_figure', 'draw_failed', 'interrupted', 'starved', 'display_interrupted', 'removed_observation', 'other_target', 'host_between', 'closed_between', 'drawn_again')
DRAW = ('figure', 'axis', 'contourf', 'contour', 'colorbar', 'xlabel', 'ylabel', 'grid', 'plot', 'fill', 'semilogy', 'xticks', 'xlim', 'title', 'subplots', 'scatter')


def gen(rng, tier, i):
    runs = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        cfg = gen_project(rng, nreal=2, fine=False, dry=0.3)
        shorten(cfg, 8)
        cfg['npaths'] = min(cfg['npaths'], 2)
        if rng.random() < 0.45:
            cfg['nrealizations'] = 1
        if rng.random() < 0.5:
            # a further well within the field of the target
            w, d, th = cfg['wells'][cfg['target']], rng.uniform(6, 30), rng.uniform(0, 6.2831)
            k = rng.randrange(len(cfg['wells']) + 1)
            cfg['wells'].insert(k, [round(w[0] + d * math.cos(th), 2), round(w[1] + d * math.sin(th), 2), 0.25, round(rng.uniform(5, 100), 2)])
            cfg['target'] += k <= cfg['target']
            far = [o for o in cfg['observations'] if all(math.hypot(o[0] - q[0], o[1] - q[1]) > cfg['buffer'] + 1 for q in cfg['wells'])]
            if len(far) < 7:
                cfg['buffer'] = 10.0
        for _ in range(rng.choice([0, 1, 2])):
            w = rng.choice(cfg['wells'])            # too near a well: must not be shown as retained
            cfg['observations'].insert(rng.randrange(len(cfg['observations'])), [w[0] + round(rng.uniform(-0.6, 0.6) * cfg['buffer'], 2) + 0.01, w[1] + 0.01, cfg['observations'][0][2], 0.5])
        end = rng.choice(['ok', 'ok', 'ok', 'draw', 'draw', 'line', 'show', 'alloc'])
        runs.append(dict(cfg=cfg, end=end, at=rng.random(), exc=rng.choice(['MemoryError', 'RuntimeError', 'KeyboardInterrupt']),
                         before=rng.choice(['', '', '', 'draw', 'close', 'figure']), again=rng.choice(['', '', 'map', 'impact', 'impact'])))
    if runs[-1]['end'] != 'ok' and rng.random() < 0.8:
        runs.append(dict(runs[-1], end='ok', before=''))
    if rng.random() < 0.3 and len(runs) > 1:
        runs[-1] = dict(runs[-1], cfg=dict(runs[0]['cfg'], target=(runs[0]['cfg']['target'] + 1) % len(runs[0]['cfg']['wells'])))
        w = runs[-1]['cfg']['wells'][runs[-1]['cfg']['target']][3]
        if (w[0] if isinstance(w, list) else w) < 0:
            runs[-1]['cfg'] = runs[0]['cfg']
    return dict(runs=runs, figures=[rng.choice(['lines', 'image', 'map', 'empty', 'numbered', 'log', 'panels']) for _ in range(rng.choice([0, 1, 1, 2]))])


def host_figure(plt, kind, n):
    if kind == 'numbered':
        plt.figure(1 if not plt.fignum_exists(1) else 40 + n)
        plt.plot([0, 1, 2], [n, 1, 0], 'o')
    else:
        plt.figure()
    if kind == 'lines':
        plt.plot([0, 1, 2], [3, 1, 2], '-')
        plt.xlim(-1, 4)
        plt.title('host %d' % n)
    elif kind == 'image':
        plt.imshow(np.eye(3))
    elif kind == 'log':
        plt.loglog([1, 10, 100], [5, 2, 1], 'o-')
    elif kind == 'panels':
        plt.subplot(1, 2, 1)
        plt.plot([0, 1], [0, 1], 's')
        plt.subplot(1, 2, 2)
    elif kind == 'map':
        plt.contourf([0, 1, 2], [0, 1], [[0.1, 0.5, 0.7], [0.2, 0.4, 0.9]])


def content(plt):
    """What every open figure holds."""
    out = {}
    from matplotlib._pylab_helpers import Gcf
    for m in Gcf.get_all_fig_managers():
        f = m.canvas.figure
        d = [id(f), tuple(f.get_size_inches()), [t.get_text() for t in f.texts]]
        for ax in f.axes:
            d.append((id(ax), ax.get_xlim(), ax.get_ylim(), ax.get_xscale(), ax.get_yscale(), ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), str(ax.get_aspect()),
                      [(id(c), type(c).__name__) for c in ax.lines], [(id(c), type(c).__name__) for c in ax.collections], [(id(c), type(c).__name__) for c in ax.patches],
                      [c.get_text() for c in ax.texts], len(ax.images), [np.asarray(c.get_xdata(), float).tolist() for c in ax.lines]))
        out[m.num] = d
    return out


def markers(figs):
    """(x, y, style) of every marker in these figures, except on diagrams with a logarithmic axis."""
    pts = []
    for f in figs:
        for ax in f.axes:
            if ax.get_yscale() == 'log' or ax.get_xscale() == 'log':
                continue
            for l in ax.lines:
                if l.get_marker() in (None, '', ' ', 'None', 'none'):
                    continue
                for x, y in zip(np.atleast_1d(np.asarray(l.get_xdata(), float)), np.atleast_1d(np.asarray(l.get_ydata(), float))):
                    pts.append((float(x), float(y), '%s/%.3g' % (l.get_marker(), l.get_markersize()), ax))
            for c in ax.collections:
                if type(c).__name__ == 'PathCollection' and np.size(c.get_sizes()):
                    for x, y in np.asarray(c.get_offsets(), float):
                        pts.append((float(x), float(y), 'scatter%d' % id(c), ax))
    return pts


def check_display(plt, new, cfg, who, only_figure=False):
    figs = [plt.figure(n) for n in new]
    if not figs:
        raise Violation('nothing-displayed', '%s: the display starts without any figure of this run' % who)
    if only_figure:
        return
    pts = markers(figs)
    res = retained(cfg['observations'], cfg['wells'], cfg['buffer'])
    if res is None:
        return
    want, dropped = res
    if dropped:
        SIM.probe('removed_observation')

    def at(x, y):
        return [p for p in pts if abs(p[0] - x) < 1e-6 * max(1, abs(x)) and abs(p[1] - y) < 1e-6 * max(1, abs(y))]
    tx, ty = cfg['wells'][cfg['target']][:2]
    other = set()
    for k, w in enumerate(cfg['wells']):
        p = at(w[0], w[1])
        if not p:
            raise Violation('well-not-shown', '%s: well %d at (%r, %r) is not on the map; markers are at %r' % (who, k, w[0], w[1], [q[:3] for q in pts][:8]))
        if k != cfg['target']:
            other |= {q[2] for q in p}
    if not {q[2] for q in at(tx, ty)} - other:
        raise Violation('target-not-shown', '%s: the target well at (%r, %r) is not marked differently from the other wells' % (who, tx, ty))
    for q in at(tx, ty):
        # the mark of the target stands at the target only
        if q[2] not in other and any(p[2] == q[2] and p not in at(tx, ty) for p in pts):
            p = [p for p in pts if p[2] == q[2] and p not in at(tx, ty)][0]
            if not any(abs(p[0] - x) + abs(p[1] - y) < 1e-3 for g in want for x, y in g['at']):
                raise Violation('target-not-shown', '%s: the mark of the target also stands at (%r, %r)' % (who, p[0], p[1]))
    for g in want:
        if not any(at(x, y) for x, y in g['at']):
            raise Violation('observation-not-shown', '%s: the retained observation at %r is not on the map' % (who, g['at'][0]))
    ok = [(w[0], w[1]) for w in cfg['wells']] + [q for g in want for q in g['at']]
    for p in pts:
        if not any(abs(p[0] - x) < 1.0 and abs(p[1] - y) < 1.0 for x, y in ok):
            raise Violation('foreign-marker', '%s: a marker stands at (%r, %r), where this run has neither a well nor a retained observation' % (who, p[0], p[1]))
    if len({id(p[3]) for p in pts}) == 1:
        ax = pts[0][3]
        if cfg['nrealizations'] > 1 and not ax.collections:
            raise Violation('markers-off-map', '%s: the wells are not drawn on the map of the probabilities' % who)
        # the wells are within the limits of the map
        ax.autoscale_view()
        (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        if not (x0 <= tx <= x1 and y0 <= ty <= y1):
            raise Violation('target-not-shown', '%s: the target lies outside the limits of the map' % who)


def run(sc, ctx):
    import matplotlib.pyplot as plt
    import oneka.oneka
    logging.getLogger('Oneka').addHandler(logging.NullHandler())
    plt.close('all')
    for n, kind in enumerate(sc['figures']):
        host_figure(plt, kind, n)
    SIM.fs_active = True
    unfinished = False
    for n, r in enumerate(sc['runs']):
        cfg, end = r['cfg'], r['end']
        SIM.task = n
        SIM.now += 2
        who = 'run %d (%s, %s)' % (n, 'stochastic' if cfg['nrealizations'] > 1 else 'deterministic', end)
        if r['before'] == 'draw' and plt.get_fignums():
            plt.plot([5.0, 6.0], [1.0, 2.0], '-')
            SIM.probe('host_between')
        elif r['before'] == 'close':
            plt.close('all')
            SIM.probe('closed_between')
        elif r['before'] == 'figure':
            host_figure(plt, 'lines', n)
        before = content(plt)
        if sc['figures']:
            SIM.probe('host_figure', len(before) > 0)
        args = oneka_args(cfg, 'project %d%s' % (n, r.get('odd', '')))
        saved = {k: getattr(plt, k) for k in DRAW}
        k = [0, 0]

        def count(at=0):
            for name, f in saved.items():
                def g(*a, _f=f, **kw):
                    if k[1]:
                        return _f(*a, **kw)
                    k[0] += 1
                    if k[0] == at:
                        SIM.fire('draw_failure')
                        raise dict(MemoryError=MemoryError, RuntimeError=RuntimeError, KeyboardInterrupt=KeyboardInterrupt)[r['exc']]('simulated')
                    k[1] += 1           # drawing calls within drawing calls are one
                    try:
                        return _f(*a, **kw)
                    finally:
                        k[1] -= 1
                setattr(plt, name, g)
        total = lines = allocs = 0
        vis = os.path.join(os.path.realpath(REPO), 'oneka', 'visualize.py')

        def tracer(at=None, exc=None):
            li = LineInterrupter(at, exc)
            t = li._t
            li._t = lambda fr, ev, arg: t(fr, ev, arg) if os.path.realpath(fr.f_code.co_filename) == vis else None
            return li
        if end in ('draw', 'line', 'alloc'):
            def dry():
                count()
                li = tracer()
                SIM.alloc_active = True
                try:
                    li.run(lambda: oneka.oneka.oneka(*args))
                except Exception:       # noqa
                    pass
                return k[0], li.n, SIM.alloc_count
            total, lines, allocs = in_child(dry)
        seen = []

        def show():
            if seen:
                return
            now = content(plt)
            seen.append(1)
            check_old(before, now, who + ', when the display starts')
            cur = plt.gcf().number if plt.get_fignums() else None
            check_display(plt, [f for f in now if f not in before], cfg, who)
            if cur is not None:
                saved['figure'](cur)
            if end == 'show':
                SIM.fire('interrupt')
                raise KeyboardInterrupt('simulated')
        SIM.on_show = show
        SIM.shows = 0
        err = res = None
        try:
            if end == 'draw' and total:
                count(1 + int(r['at'] * total))
            if end == 'alloc' and allocs:
                SIM.alloc_count = 0
                SIM.alloc_fail = (1 + int((0.7 + 0.3 * r['at']) * allocs * 0.999),)
                SIM.alloc_active = True
            if end == 'line' and lines:
                tracer(1 + int(r['at'] * lines), KeyboardInterrupt('simulated')).run(lambda: oneka.oneka.oneka(*args))
            else:
                res = oneka.oneka.oneka(*args)
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:     # noqa
            err = e
        finally:
            for name, f in saved.items():
                setattr(plt, name, f)
            SIM.alloc_active = False
            SIM.alloc_fail = ()
            SIM.on_show = None
            SIM.interrupted = False
        if err is not None and end == 'ok':
            raise err
        now = content(plt)
        check_old(before, now, who + ', after it ' + ('returned' if err is None else 'ended with %s' % type(err).__name__))
        if seen:
            SIM.probe('stochastic' if cfg['nrealizations'] > 1 else 'deterministic')
            if before:
                ctx.nontrivial = True
            if unfinished and before:
                SIM.probe('leftover_figure')
            if n and cfg['wells'] == sc['runs'][0]['cfg']['wells'] and cfg['target'] != sc['runs'][0]['cfg']['target']:
                SIM.probe('other_target')
        elif err is None:
            raise Violation('nothing-displayed', '%s returned without a display' % who)
        if err is not None:
            unfinished = True
            SIM.probe({'draw': 'draw_failed', 'line': 'interrupted', 'alloc': 'starved', 'show': 'display_interrupted'}[end])
        if r['again'] and res is not None:
            replot(plt, r, res, who, n, sc['figures'])
        SIM.simtime += abs(cfg['duration'])
        ctx.log(n, end, type(err).__name__, len(before), len(now), [p[:2] for p in markers([saved['figure'](f) for f in now if f not in before])])
    SIM.fs_active = False
    plt.close('all')
    ctx.count('runs', len(sc['runs']))
    ctx.sample = dict(runs=[dict(end=r['end'], before=r['before'], nreal=r['cfg']['nrealizations']) for r in sc['runs']], figures=sc['figures'])


def replot(plt, r, pf, who, n, kinds):
    """The host draws the results of the run once more, with its own figures or earlier ones current."""
    import oneka.visualize as vz
    cfg = r['cfg']
    if kinds and n % 2:
        host_figure(plt, kinds[n % len(kinds)], n + 10)
    before = content(plt)
    a = dict(zip(ARG_NAMES, oneka_args(cfg, 'again')))
    stochastic = cfg['nrealizations'] > 1
    try:
        if r['again'] == 'impact':
            if not stochastic:
                return
            vz.create_impact_plot(cfg['spacing'], pf)
        else:
            (vz.create_probability_plot if stochastic else vz.create_deterministic_plot)(cfg['target'], a['stochastic_wells'], filter_obs(a), pf, *([cfg['smooth']] if stochastic else []))
    except Exception:               # noqa  (the same field was drawn a moment ago)
        raise Violation('cannot-draw-again', '%s: drawing its results again failed' % who)
    SIM.probe('drawn_again')
    now = content(plt)
    check_old(before, now, who + ', drawn again')
    check_display(plt, [f for f in now if f not in before], cfg, who + ', drawn again', only_figure=r['again'] == 'impact')


def filter_obs(a):
    from oneka.utilities import filter_obs
    return filter_obs(a['observations'], a['stochastic_wells'], a['buffer'])


def check_old(before, now, who):
    for f, d in before.items():
        if f not in now:
            raise Violation('figure-closed', '%s: figure %d, which is not of this run, is closed' % (who, f))
        if now[f] != d:
            raise Violation('figure-changed', '%s: figure %d, which is not of this run, was drawn on' % (who, f))


def simplify(sc):
    for i, r in enumerate(sc['runs']):
        def put(**k):
            rs = list(sc['runs'])
            rs[i] = dict(r, **k)
            return dict(sc, runs=rs)
        for k, v in (('end', 'ok'), ('before', ''), ('again', '')):
            if r[k] != v:
                yield put(**{k: v})
        for k, v in (('npaths', 1), ('smooth', 0), ('nrealizations', 1), ('listy', False)):
            if r['cfg'][k] != v:
                yield put(cfg=dict(r['cfg'], **{k: v}))
