"""C08: random inputs follow their declared distributions and are independent."""
import logging
import math

import numpy as np
from scipy import stats

from ..core import SIM, Violation
from .. import project
from ..project import gen_project, gen_dist, run_stochastic, run_deterministic, ModelSpy, support, coef_check, tup
from .c07 import declared, inputs

PROP = 'C08'
RUNS = {'quick': 300, 'thorough': 4000}
RULE = ('each run draws either thousands of single variates of random distributions or a few hundred realizations spread over several stochastic runs that all start at the same '
        'simulated instant (or with the clock stepping back between them), and applies Kolmogorov-Smirnov, chi-square, serial and cross correlation tests at a significance of 1e-10 '
        'and looks for repeated draws; non-trivial: at least one non-degenerate distribution was tested on 100 or more draws')
REAL = ['oneka.stochastic', 'oneka.model (fit)']
STUBS = ['entropy behind unseeded generators (seeded per run)', 'clock (frozen / stepping back)', 'tracing runs for an instant only']
LISTS = (('dists',), ('cfg', 'wells'))
MINLEN = {'dists': 1, ('cfg', 'wells'): 3}
PROBES = ('variates', 'runs', 'frozen_clock', 'clock_back', 'triangular', 'uniform', 'constant', 'list_distribution', 'interleaved_runs', 'stretched') + tuple('between_' + b for b in ('deterministic', 'oneka', 'plots', 'archive', 'filter', 'field', 'failing'))
ALPHA = 1e-10
BETWEEN = ('deterministic', 'oneka', 'plots', 'archive', 'filter', 'field', 'failing')


def gen(rng, tier, i):
    if rng.random() < 0.4:
        ds = []
        for _ in range(rng.choice([1, 2, 4])):
            lo = rng.choice([0, rng.uniform(-1e3, 1e3)])
            ds.append(gen_dist(rng, lo, lo + 10 ** rng.uniform(-3, 4), degenerate=0.1, nd=6))
            if rng.random() < 0.25:
                # whole numbers are numbers too
                a = rng.randrange(-50, 400)
                ds.append(rng.choice([a, [a, a + rng.choice([1, 2, 50])], [a, a + rng.choice([0, 1, 7]), a + 9], [a, a + 0.5, a + 1], [a, a + 3.0]]))
        if rng.random() < 0.4:
            ds.append(ds[0])
        return dict(kind='variates', dists=ds, n=rng.choice([500, 3000, 6000]), listy=rng.random() < 0.4)
    cfg = gen_project(rng, kinds=('const', 'uniform', 'tri', 'tri', 'uniform'), spread=rng.choice([0.3, 1.0, 2.0]), dry=0.1)
    cfg['npaths'] = 1
    cfg['duration'] = 1e-3
    cfg['confined'] = True
    return dict(kind='runs', cfg=cfg, runs=rng.choice([2, 3, 6, rng.choice([9, 15])]), total=rng.choice([150, 400]), clock=rng.choice(['frozen', 'back', 'normal']),
                threads=rng.random() < 0.25, stretch=rng.random() < 0.25,
                between=[rng.choice(BETWEEN) for _ in range(rng.choice([0, 1, 1, 2]))])


def cdf(d, v):
    v = np.asarray(v, float)
    if len(d) == 2:
        return (v - d[0]) / (d[1] - d[0])
    a, m, b = d
    with np.errstate(all='ignore'):
        left = (v - a) ** 2 / ((b - a) * (m - a)) if m > a else np.zeros_like(v)
        right = 1 - (b - v) ** 2 / ((b - a) * (b - m)) if b > m else np.ones_like(v)
    return np.where(v < m, left, right)


def pit(name, d, v, ctx):
    """Check support and distribution of the draws v; return probability-transformed draws (None for constants)."""
    lo, hi = support(d)
    v = np.asarray(v, float)
    if not ((v >= lo) & (v <= hi)).all():
        k = int(np.argmin((v >= lo) & (v <= hi)))
        raise Violation('outside-support', '%s: draw %r is outside [%r, %r]' % (name, v[k], lo, hi))
    if lo == hi:
        SIM.probe('constant')
        return None
    SIM.probe('uniform' if len(d) == 2 else 'triangular')
    u = cdf(d, v)
    p = stats.kstest(u, 'uniform').pvalue
    ctx.peak('neg_log10_p', -math.log10(max(p, 1e-300)))
    if p < ALPHA:
        raise Violation('distribution', '%s: %d draws do not follow %r (Kolmogorov-Smirnov p = %.3g; sample mean %.6g, quartiles %r)' %
                        (name, len(v), d, p, v.mean(), np.percentile(v, [25, 50, 75]).tolist()))
    serial(name, u, ctx)
    return u


def zlimit():
    return stats.norm.isf(ALPHA / 2)


def serial(name, u, ctx):
    n = len(u)
    if n < 60:
        return
    z = stats.norm.ppf(np.clip(u, 1e-9, 1 - 1e-9))
    for lag in (1, 2, 3):
        r = np.corrcoef(z[:-lag], z[lag:])[0, 1] * math.sqrt(n - lag)
        if abs(r) > zlimit():
            raise Violation('serial-dependence', '%s: successive draws (lag %d) are correlated (%.2f standard errors over %d draws)' % (name, lag, r, n))
    if len(np.unique(u)) < n - max(1, n * n * 1e-9):
        raise Violation('repeated-draws', '%s: only %d of %d draws are distinct' % (name, len(np.unique(u)), n))


def close_pairs(name, u, ctx):
    """Draws that all but repeat each other, more often than chance has it."""
    d = np.diff(np.sort(u))
    n = len(u)
    for eps in (1e-5, 1e-6, 1e-7, 1e-8, 1e-9):
        k = int((d < eps).sum())
        p = stats.poisson.sf(k - 1, n * n * eps) if k else 1.0
        ctx.peak('neg_log10_p', -math.log10(max(p, 1e-300)))
        if p < ALPHA:
            raise Violation('repeated-draws', '%s: %d of %d draws lie within %g of another, %.2g would by chance' % (name, k, n, eps, n * n * eps))


def run(sc, ctx):
    SIM.probe(sc['kind'])
    logging.getLogger('Oneka').setLevel(logging.CRITICAL)
    if sc.get('listy') or sc.get('cfg', {}).get('listy'):
        SIM.probe('list_distribution')
    if sc['kind'] == 'variates':
        variates(sc, ctx)
    else:
        runs(sc, ctx)


def variates(sc, ctx):
    from oneka.stochastic import generate_random_variate
    cols = []
    ds = [tup(d, sc['listy']) for d in sc['dists']]
    V = [[generate_random_variate(d) for d in ds] for _ in range(sc['n'])]
    V = np.array(V, float)
    for j, d in enumerate(sc['dists']):
        d = d if isinstance(d, list) else [d, d]
        u = pit('variate of %r' % (sc['dists'][j],), d, V[:, j], ctx)
        if u is not None:
            cols.append(u)
    cross(cols, ['variate %d' % j for j in range(len(cols))], ctx)
    ctx.log_array(V)
    ctx.nontrivial = bool(cols)
    ctx.count('draws', V.size)
    ctx.sample = dict(dists=sc['dists'], n=sc['n'])


def cross(cols, names, ctx):
    if len(cols) < 2:
        return
    Z = stats.norm.ppf(np.clip(np.array(cols), 1e-9, 1 - 1e-9))
    n = Z.shape[1]
    C = np.corrcoef(Z) * math.sqrt(n)
    for a in range(len(cols)):
        for b in range(a):
            ctx.count('pairs_tested')
            if abs(C[a, b]) > zlimit():
                raise Violation('dependence', '%s and %s are correlated (%.2f standard errors over %d realizations)' % (names[b], names[a], C[a, b], n))


def runs(sc, ctx):
    cfg = dict(sc['cfg'])
    per = max(2, sc['total'] // sc['runs'])
    cfg['nrealizations'] = per
    SIM.record_mvn = False
    SIM.stretch_p = 0.4 if sc['stretch'] else 0.0
    SIM.fired.pop('stretched_draw', 0)
    if sc['clock'] == 'frozen':
        SIM.tick = 0.0
        SIM.probe('frozen_clock')
    t0 = SIM.now
    all_keys = []
    with ModelSpy() as spy:
        if sc['threads']:
            from ..core import Scheduler
            SIM.probe('interleaved_runs')
            # threads of one process share its entropy: the streams below are those of the tasks
            s = Scheduler(dict(seed=SIM.seed, p=1e-4), max_steps=10**9)
            res = s.run([lambda: run_stochastic(cfg) for _ in range(sc['runs'])])
            for r in res:
                if r[0] == 'exc':
                    raise r[1]
            all_keys = [spy.keys[t] for t in sorted(spy.keys)]
        else:
            for r in range(sc['runs']):
                if r and sc['between']:
                    other(sc['between'][r % len(sc['between'])], cfg)
                n0 = len(spy.keys.get(0, []))
                spy.last.pop(0, None)
                run_stochastic(cfg)
                all_keys.append(spy.keys[0][n0:])
                if sc['clock'] == 'back':
                    SIM.now = t0
                    SIM.fire('clock_jump_back')
                    SIM.probe('clock_back')
    SIM.simtime += abs(cfg['duration']) * per * sc['runs']
    if not spy.calls:
        ctx.count('models_not_seen')
        return
    dist = declared(cfg)
    # runs must not repeat each other
    seqs = {}
    for r, keys in enumerate(all_keys):
        for i, k in enumerate(keys):
            if k[6] in seqs:
                raise Violation('repeated-draws', 'realization %d of run %d has the regional flow coefficients of realization %d of run %d' % ((i, r) + seqs[k[6]][::-1]))
            seqs[k[6]] = (r, i)
    keys = [k for ks in all_keys for k in ks]
    cols, names = [], []
    for name, d in dist.items():
        v = [inputs(k)[name] for k in keys]
        u = pit(name, d if isinstance(d, list) else [d, d], v, ctx)
        if u is not None:
            cols.append(u)
            names.append(name)
    Z = np.array([coef_check(k, cfg, cfg['observations'], None, 'realization %d' % i, 1000 if sc['stretch'] else 110) for i, k in enumerate(keys)])
    r2 = (Z * Z).sum(1)
    if sc['stretch']:
        stretched(r2, ctx)
    for c in range(6 if not sc['stretch'] else 0):
        u = stats.norm.cdf(Z[:, c])
        p = stats.kstest(u, 'uniform').pvalue
        ctx.peak('neg_log10_p', -math.log10(max(p, 1e-300)))
        if p < ALPHA:
            raise Violation('coef-distribution', 'regional flow coefficients do not follow the normal distribution of the fit (whitened component %d: mean %.3f, '
                            'standard deviation %.3f over %d realizations, p = %.3g)' % (c, Z[:, c].mean(), Z[:, c].std(), len(Z), p))
        serial('whitened coefficient %d' % c, u, ctx)
        cols.append(u)
        names.append('whitened coefficient %d' % c)
    q = r2.sum()
    lo, hi = stats.chi2.ppf([ALPHA, 1 - ALPHA], Z.size)
    if not sc['stretch'] and not lo < q < hi:
        raise Violation('coef-spread', 'regional flow coefficients scatter %.3f times as much as the covariance of the fit says' % math.sqrt(q / Z.size))
    # the length of the whitened vector does not depend on how a generator turns normal variates into coefficients
    if not sc['stretch']:
        close_pairs('regional flow coefficients', stats.chi2.cdf(r2, 6), ctx)
    cross(cols, names, ctx)
    # between runs: the i-th realization of one run against the i-th of another
    if per >= 50:
        for a in range(sc['runs']):
            for b in range(a):
                for nm, u in zip(names, cols):
                    u = np.asarray(u).reshape(sc['runs'], per)
                    z = stats.norm.ppf(np.clip(u, 1e-9, 1 - 1e-9))
                    r = np.corrcoef(z[a], z[b])[0, 1] * math.sqrt(per)
                    if abs(r) > zlimit():
                        raise Violation('run-dependence', '%s: runs %d and %d are correlated (%.2f standard errors)' % (nm, b, a, r))
    ctx.nontrivial = len(keys) >= 100
    ctx.log(keys[0], keys[-1])
    ctx.count('realizations', len(keys))
    ctx.sample = dict(runs=sc['runs'], per_run=per, clock=sc['clock'], inputs={k: v for k, v in list(dist.items())[:3]})


def stretched(r2, ctx):
    """The distances of the coefficients from the fit, when a share of the vectors drawn was moved to three times its distance."""
    p = SIM.stretch_p
    if not SIM.fired.get('stretched_draw'):
        return          # the coefficients are drawn some other way
    SIM.probe('stretched')
    for t in (12.0, 25.0, 40.0, 60.0):
        k = int((r2 > t).sum())
        want = p * stats.chi2.sf(t / 9, 6) + (1 - p) * stats.chi2.sf(t, 6)
        pv = min(stats.binom.cdf(k, len(r2), want), stats.binom.sf(k - 1, len(r2), want))
        ctx.peak('neg_log10_p', -math.log10(max(pv, 1e-300)))
        if pv < ALPHA:
            raise Violation('coef-selected', '%d of %d realizations have coefficients more than %.3g standard deviations from the fit; of the vectors drawn for them %.3g are' %
                            (k, len(r2), math.sqrt(t), want * len(r2)))


def other(kind, cfg):
    """Something else the process does between two stochastic runs."""
    import os
    import matplotlib.pyplot as plt
    import oneka.visualize as vz
    import oneka.oneka as ok
    import oneka.utilities as ut
    import oneka.archive as ar
    SIM.probe('between_' + kind)
    small = dict(cfg, nrealizations=2, buffer=cfg['buffer'])
    obs, wells = project.obs_list(cfg), project.well_list(cfg)
    if kind == 'deterministic':
        run_deterministic(cfg)
    elif kind == 'oneka':
        ok.oneka(*project.oneka_args(small))
    elif kind == 'plots':
        pf = run_stochastic(small)
        for f in (lambda: vz.create_impact_plot(cfg['spacing'], pf), lambda: vz.create_probability_plot(cfg['target'], wells, obs, pf, 0)):
            try:
                f()
            except Exception:       # noqa  (an empty zone cannot be drawn)
                SIM.probe('plot_refused')
    elif kind == 'archive':
        pf = run_stochastic(small)
        a = list(project.oneka_args(small))
        ar.dump_oneka(*a, pf)
        for n in os.listdir('.'):
            if n.endswith('.pbz2') or 'oneka' in n:
                try:
                    ar.load_oneka(n)
                except Exception:   # noqa
                    pass
    elif kind == 'filter':
        ut.filter_obs(obs, wells, cfg['buffer'])
        ut.summary_statistics(obs, ['E', 'N', 'H', 'S'], ['12.2f'] * 4, 'T')
    elif kind == 'field':
        from oneka.probabilityfield import ProbabilityField
        pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
        pf.rasterize([0, 5], [0, 5], 1.0)
        pf.register(1.0)
    else:
        try:
            run_stochastic(dict(cfg, observations=[[o[0], o[1], cfg['base'] - 5, o[3]] for o in cfg['observations']]))
        except Exception:           # noqa
            SIM.fire('failed_run')
    plt.close('all')


def simplify(sc):
    if sc['kind'] == 'variates':
        for j, d in enumerate(sc['dists']):
            for c in ([0.0, 1.0], [0.0, 0.3, 1.0]):
                if isinstance(d, list) and len(d) == len(c) and d != c:
                    yield dict(sc, dists=[c if k == j else x for k, x in enumerate(sc['dists'])])
        return
    for k, v in (('threads', False), ('stretch', False), ('clock', 'normal'), ('runs', 2)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    c = sc['cfg']
    for k, v in (('c_dist', 10.0), ('p_dist', 0.2), ('t_dist', 15.0)):
        if c[k] != v:
            yield dict(sc, cfg=dict(c, **{k: v}))
    if len(c['wells']) > 1:
        yield dict(sc, cfg=dict(c, wells=[c['wells'][c['target']]], target=0))
