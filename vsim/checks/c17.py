"""C17: reported areas and plots agree with the computed probability field."""
import logging
import os
import re

import numpy as np

from ..core import SIM, Violation, ListHandler
from ..project import shorten, gen_project, oneka_args, well_list, obs_list

PROP = 'C17'
RUNS = {'quick': 900, 'thorough': 12000}
RULE = ('each run is either a whole simulated run (stochastic or deterministic, with dry traces, any grid history) whose log, plots and returned field are compared, or 1-6 reports made of a '
        'field built by a seeded history of tracks, weights, growth and abandoned realizations, possibly empty; areas are recounted node by node; non-trivial: the field has at least two '
        'different values')
REAL = ['oneka.visualize', 'oneka.oneka (reporting)', 'oneka.probabilityfield', 'matplotlib (except Axes.fill and plt.show)']
STUBS = ['plt.show, Axes.fill', 'randomness', 'clock', 'disk']
LISTS = (('history',), ('reports',))
PROBES = ('run_stochastic', 'run_deterministic', 'probability_plot', 'impact_plot', 'deterministic_plot', 'empty', 'smoothed', 'ties', 'fractional_weights', 'offset', 'dry_traces', 'oblong_cells')

ACRE = 4046.86


def gen(rng, tier, i):
    if rng.random() < 0.45:
        cfg = gen_project(rng, nreal=rng.choice([2, 3, 5, 9]) if rng.random() < 0.93 else rng.choice([4, 7, 20, 41]), fine=False, dry=0.5)
        cfg['npaths'] = min(cfg['npaths'], 3)
        shorten(cfg, 20)
        if rng.random() < 0.45:
            cfg['nrealizations'] = 1
        if rng.random() < 0.12:
            # zones of hectares and more
            cfg['spacing'] = rng.choice([25, 60.0, 150])
            cfg['umbra'] = cfg['spacing'] * rng.choice([1.0, 2, 3.3])
        return dict(kind='run', cfg=cfg, flaws=rng.choice([0, 0, 1, 5]))
    x0, y0 = rng.choice([(0.0, 0.0), (round(rng.uniform(-900, 900), 2), round(rng.uniform(-900, 900), 2)), (483231.7, 4985412.3)])
    s = rng.choice([1.0, 2.5, 10, 7])
    hist = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        k = rng.choice(['real', 'real', 'real', 'expand', 'abandon'])
        if k == 'expand':
            hist.append([k] + [round(rng.uniform(0, 12) * s, 2) for _ in range(4)])
        else:
            hist.append([k, rng.choice([1.0, 1.0, 2.0, 0.25, 1 / 3]), [[round(rng.gauss(0, 6) * s, 2), round(rng.gauss(0, 6) * s, 2)] for _ in range(rng.choice([1, 2, 4]))],
                         s * rng.choice([0.5, 1, 2, 3.3])])
    if rng.random() < 0.12:
        hist = [h for h in hist if h[0] == 'expand' or h[0] == 'abandon']
    sy = rng.choice([s, s, 0.6 * s, 1.7 * s])
    return dict(kind='field', x0=x0, y0=y0, s=s, sy=sy, history=hist, smooth=rng.choice([0, 0, 0.5, 1, 2]),
                reports=[rng.choice(['probability', 'impact' if s == sy else 'probability', 'deterministic']) for _ in range(rng.choice([1, 2, 4]))])


def values(pf):
    return np.asarray(pf.pgrid, float) / pf.total_weight


def pair(spacing):
    return spacing if isinstance(spacing, tuple) else (float(spacing), float(spacing))


def coords(pf, spacing):
    sx, sy = pair(spacing)
    return pf.xmin + sx * np.arange(pf.ncols), pf.ymin + sy * np.arange(pf.nrows)


def check_contour(plots, pf, spacing, smooth, who):
    cf = [a for n, a, k in plots if n == 'contourf']
    if len(cf) != 1:
        raise Violation('not-plotted', '%s: the probability contours were drawn %d times' % (who, len(cf)))
    a = cf[0]
    x, y, z = (np.asarray(v, float) for v in a[:3])
    z = np.ma.filled(np.ma.asarray(a[2], dtype=float), np.nan)
    if x.ndim == 2:
        x, y = x[0], y[:, 0]
    cx, cy = coords(pf, spacing)
    if x.shape != cx.shape or y.shape != cy.shape or z.shape != (len(cy), len(cx)):
        raise Violation('plot-shape', '%s: plotted with shapes %r %r %r for a field of %r nodes' % (who, x.shape, y.shape, z.shape, np.shape(pf.pgrid)))
    sx, sy = pair(spacing)
    if np.abs(x - cx).max() > 1e-4 * sx or np.abs(y - cy).max() > 1e-4 * sy:
        raise Violation('plot-position', '%s: nodes are plotted off their own coordinates (x from %r to %r instead of %r to %r)' % (who, x[0], x[-1], cx[0], cx[-1]))
    Z = values(pf)
    if smooth > 0:
        import scipy.ndimage
        SIM.probe('smoothed')
        want = scipy.ndimage.gaussian_filter(Z, smooth, mode='constant', cval=0.0)
        m = int(4 * smooth + 2)
        inner = np.zeros(Z.shape, bool)
        inner[m:-m, m:-m] = True
        bad = inner & ~(np.abs(z - want) < 1e-3)
        bad |= ~((z > -1e-9) & (z < 1 + 1e-9))
    else:
        want = Z
        bad = ~(np.abs(z - Z) <= 1e-9)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Violation('plot-value', '%s: node (%r, %r) is plotted as %r, its probability is %r (%d nodes wrong)' % (who, cx[j], cy[i], z[i, j], want[i, j], int(bad.sum())))
    SIM.probe('probability_plot')


def check_impact(pr, area, pf, spacing, who):
    Z = np.sort(values(pf).ravel())
    pr, area = np.asarray(pr, float), np.asarray(area, float)
    if pr.shape != area.shape or pr.ndim != 1:
        raise Violation('impact-shape', '%s: %r probabilities and %r areas' % (who, pr.shape, area.shape))
    cell = float(spacing) ** 2
    reach = len(Z) - np.searchsorted(Z, pr - 1e-9, 'left')          # cells with probability >= level
    above = len(Z) - np.searchsorted(Z, pr + 1e-9, 'right')         # cells with probability > level
    n = area / cell
    bad = (n < above - 1 - 1e-6) | (n > reach + 1 + 1e-6) | ~np.isfinite(n)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation('impact-area', '%s: level %r is reported with an area of %r cells; %d cells reach it, %d exceed it' % (who, pr[k], n[k], reach[k], above[k]))
    o = np.argsort(-pr, kind='stable')
    if (np.diff(area[o][np.concatenate([[True], np.diff(pr[o]) != 0])]) < -1e-6).any():
        raise Violation('impact-order', '%s: the reported area grows with the probability level' % who)
    lev = np.unique(pr)
    near = np.abs(Z[np.clip(np.searchsorted(Z, lev), 0, len(Z) - 1)] - lev)
    near = np.minimum(near, np.abs(Z[np.clip(np.searchsorted(Z, lev) - 1, 0, len(Z) - 1)] - lev))
    if (near > 1e-9).any():
        raise Violation('impact-level', '%s: the level %r is no probability of the field' % (who, lev[np.argmax(near)]))
    for v in np.unique(Z):
        if v > 0 and np.abs(lev - v).min() > 1e-9:
            raise Violation('impact-level', '%s: no area is reported for the level %r' % (who, v))
    if len(np.unique(Z[Z > 0])) < (Z > 0).sum():
        SIM.probe('ties')
    SIM.probe('impact_plot')


def check_semilogy(plots, pf, spacing, who):
    Z = np.sort(values(pf).ravel())
    for n, a, k in plots:
        if n != 'semilogy' or len(a) < 2:
            continue
        x, y = np.atleast_1d(np.asarray(a[0], float)), np.atleast_1d(np.asarray(a[1], float))
        cell = float(spacing) ** 2 / ACRE
        reach = len(Z) - np.searchsorted(Z, x - 1e-9, 'left')
        above = len(Z) - np.searchsorted(Z, x + 1e-9, 'right')
        bad = (y > (reach + 1) * cell + 1e-6) | (y < (above - 1) * cell - 1 - 1e-6)         # whole acres
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation('impact-plot', '%s: level %r is plotted with %r acres; %.3f acres reach it, %.3f exceed it' % (who, x[j], y[j], reach[j] * cell, above[j] * cell))


def check_fill(plots, pf, spacing, who):
    f = [a for n, a, k in plots if n == 'fill']
    if not f:
        return
    Z = values(pf)
    cx, cy = coords(pf, spacing)
    sx, sy = pair(spacing)
    got = np.zeros(Z.shape, int)
    for a in f:
        x, y = np.asarray(a[0], float), np.asarray(a[1], float)
        mx, my = (x.min() + x.max()) / 2, (y.min() + y.max()) / 2
        j, i = int(round((mx - cx[0]) / sx)), int(round((my - cy[0]) / sy))
        if not (0 <= i < len(cy) and 0 <= j < len(cx)) or abs(mx - cx[j]) > 1e-3 * sx or abs(my - cy[i]) > 1e-3 * sy:
            raise Violation('plot-position', '%s: a cell is drawn around (%r, %r), which is no node' % (who, mx, my))
        if abs(x.max() - x.min() - sx) > 1e-3 * sx or abs(y.max() - y.min() - sy) > 1e-3 * sy:
            raise Violation('plot-position', '%s: a cell of %r x %r is drawn' % (who, x.max() - x.min(), y.max() - y.min()))
        got[i, j] += 1
    bad = (got > 0) != (Z > 0)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Violation('plot-value', '%s: node (%r, %r) with probability %r is %s' % (who, cx[j], cy[i], Z[i, j], 'drawn' if got[i, j] else 'not drawn'))


def check_area(area, pf, spacing, who, slack=0.0):
    n = int((values(pf) > 0).sum())
    cell = pair(spacing)[0] * pair(spacing)[1]
    want = n * cell
    if not abs(area - want) <= slack + 1e-6 * max(want, 1e-9):
        raise Violation('area', '%s: the capture zone area is reported as %r; %d captured nodes of %r m2 make %r' % (who, area, n, cell, want))
    SIM.probe('deterministic_plot')


def number(s):
    return float(s.replace(',', ''))


def whole_run(sc, ctx):
    import oneka.oneka
    from oneka.model import Model
    from ..flows import make_error
    cfg = sc['cfg']
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    lg = logging.getLogger('Oneka')
    lg.setLevel(logging.INFO)
    h = ListHandler()
    lg.addHandler(h)
    SIM.fs_active = True
    SIM.record_plots = True
    cnt = [0]
    saved = {}
    for name in ('compute_velocity', 'compute_velocity_confined'):
        saved[name] = Model.__dict__[name]

        def g(s, x, y, f=saved[name]):
            cnt[0] += 1
            if sc['flaws'] and cnt[0] % (400 // sc['flaws']) == 37:
                SIM.fire('flow_AquiferError')
                SIM.probe('dry_traces')
                raise make_error('AquiferError')
            return f(s, x, y)
        setattr(Model, name, g)
    try:
        pf = oneka.oneka.oneka(*oneka_args(cfg))
    finally:
        for name, f in saved.items():
            setattr(Model, name, f)
    SIM.fs_active = False
    text = '\n'.join(m for lv, n, m in h.records)
    who = '%s run' % ('stochastic' if cfg['nrealizations'] > 1 else 'deterministic')
    sp = cfg['spacing']
    if cfg['nrealizations'] > 1:
        check_contour(SIM.plots, pf, sp, cfg['smooth'], who)
        check_semilogy(SIM.plots, pf, sp, who)
        rows = [[number(v) for v in m] for m in re.findall(r'^\s*([01]\.\d+)\s+([\d,]+(?:\.\d+)?)\s+([\d,]+\.\d+)\s*$', text, re.M)]
        if not rows:
            raise Violation('no-report', 'the log of a stochastic run holds no areas')
        Z = np.sort(values(pf).ravel())
        cell = float(sp) ** 2
        for k, (p, a, ac) in enumerate(rows):
            lo = len(Z) - np.searchsorted(Z, p + 0.00051, 'right')
            hi = len(Z) - np.searchsorted(Z, p - 0.00051, 'left')
            n = a / cell
            if n < lo - 1 - 0.51 / cell or n > hi + 1 + 0.51 / cell:
                raise Violation('reported-area', '%s: the area reported for level %.3f is %r m2 = %.3f cells; %d cells reach that level, %d exceed it' % (who, p, a, n, hi, lo))
            if abs(ac - a / ACRE) > 0.0051 + 0.51 / ACRE:
                raise Violation('reported-acres', '%s: %r m2 are reported as %r acres' % (who, a, ac))
        if len(rows) == 19:
            for (p, a, ac), q in zip(rows, np.linspace(0.05, 0.95, 19)):
                b = Z[(Z > p + 0.00051) & (Z < q - 1e-6)]
                if p > q + 0.00051 or len(b):
                    raise Violation('reported-level', '%s: level %.3f is reported where the largest probability not above %.2f is %.4f' % (who, p, q, b.max() if len(b) else Z[Z <= q].max()))
        s = sorted(rows)
        if any(x[0] < y[0] and x[1] < y[1] - 0.6 for x, y in zip(s, s[1:])):
            raise Violation('reported-order', '%s: a larger area is reported for a higher level: %r' % (who, s))
        SIM.probe('run_stochastic')
    else:
        m = re.search(r'Capture Zone Area[^\d-]*\s*([\d,.]+)\s*\[m\^2\]\s*([\d,.]+)\s*\[acres\]', text)
        if not m:
            raise Violation('no-report', 'the log of a deterministic run holds no area')
        check_area(number(m.group(1)), pf, sp, who, 0.51)
        if abs(number(m.group(2)) - number(m.group(1)) / ACRE) > 0.0051 + 0.51 / ACRE:
            raise Violation('reported-acres', '%s: %r m2 are reported as %r acres' % (who, m.group(1), m.group(2)))
        check_fill(SIM.plots, pf, sp, who)
        SIM.probe('run_deterministic')
    SIM.simtime += abs(cfg['duration']) * max(1, cfg['nrealizations'])
    ctx.nontrivial = len(np.unique(pf.pgrid)) > 1
    ctx.log_array(np.asarray(pf.pgrid))
    ctx.log(text)
    ctx.sample = dict(kind='run', nreal=cfg['nrealizations'], spacing=sp, confined=cfg['confined'])


def run(sc, ctx):
    import matplotlib.pyplot as plt
    if sc['kind'] == 'run':
        return whole_run(sc, ctx)
    import oneka.visualize as vz
    from oneka.probabilityfield import ProbabilityField
    s, x0, y0 = sc['s'], sc['x0'], sc['y0']
    sp = (s, sc['sy'])
    pf = ProbabilityField(s, sc['sy'], x0, y0)
    if s != sc['sy']:
        SIM.probe('oblong_cells')
    registered = 0
    for h in sc['history']:
        if h[0] == 'expand':
            pf.expand(x0 - h[1], x0 + h[2], y0 - h[3], y0 + h[4])
            continue
        x, y = [x0 + p[0] for p in h[2]], [y0 + p[1] for p in h[2]]
        pf.rasterize(x, y, h[3])
        if h[0] == 'real':
            pf.register(h[1])
            registered += 1
            if h[1] != 1:
                SIM.probe('fractional_weights')
        else:
            pf.reset() if hasattr(pf, 'reset') else None
    if x0 or y0:
        SIM.probe('offset')
    logging.getLogger('Oneka').addHandler(ListHandler())
    SIM.record_plots = True
    wells = [(x0, y0, 0.25, 100.0), (x0 + 3 * s, y0 - s, 0.25, 50.0)]
    obs = [(x0 + k, y0 + k, 10.0, 1.0) for k in range(3)]
    from ..ref import field_state
    for n, rep in enumerate(sc['reports']):
        SIM.plots.clear()
        before = field_state(pf) if registered else None
        who = 'report %d (%s)' % (n, rep)
        err = None
        try:
            if rep == 'probability':
                vz.create_probability_plot(0, wells, obs, pf, sc['smooth'])
            elif rep == 'impact':
                res = vz.create_impact_plot(s, pf)
            else:
                res = vz.create_deterministic_plot(0, wells, obs, pf)
        except Exception as e:      # noqa
            err = e
        plt.close('all')
        if not registered:
            SIM.probe('empty')
            if err is None:
                raise Violation('empty-accepted', '%s of a field without any realization reported no error' % who)
            if any(p[0] in ('contourf', 'fill', 'semilogy') for p in SIM.plots):
                raise Violation('empty-plotted', '%s of a field without any realization was drawn' % who)
            if not isinstance(err, vz.CaptureZoneError) and (sc['history'] and hasattr(pf, 'pgrid')):
                raise Violation('empty-crash', '%s of a field without any realization failed with %r' % (who, err))
            ctx.log('empty', rep)
            ctx.nontrivial = True
            continue
        if err is not None:
            raise err
        if rep == 'probability':
            check_contour(SIM.plots, pf, sp, sc['smooth'], who)
        elif rep == 'impact':
            check_impact(res[0], res[1], pf, s, who)
            check_semilogy(SIM.plots, pf, s, who)
        else:
            check_area(res, pf, sp, who)
            check_fill(SIM.plots, pf, sp, who)
        if field_state(pf) != before:
            raise Violation('field-changed', '%s changed the field' % who)
        ctx.log(rep)
        ctx.nontrivial = ctx.nontrivial or len(np.unique(pf.pgrid)) > 1
    if registered:
        ctx.log_array(np.asarray(pf.pgrid))
    ctx.sample = dict(kind='field', history=[h[0] for h in sc['history']], reports=sc['reports'])


def simplify(sc):
    if sc['kind'] == 'run':
        c = sc['cfg']
        for k, v in (('npaths', 1), ('smooth', 0), ('listy', False), ('nrealizations', 2)):
            if c[k] != v and not (k == 'nrealizations' and c[k] < 2):
                yield dict(sc, cfg=dict(c, **{k: v}))
        if sc['flaws']:
            yield dict(sc, flaws=0)
    else:
        if sc['x0'] or sc['y0']:
            yield dict(sc, x0=0.0, y0=0.0)
        if sc['smooth']:
            yield dict(sc, smooth=0)
        if sc['sy'] != sc['s']:
            yield dict(sc, sy=sc['s'])
