"""C07: a stochastic run averages exactly the requested realizations, each freshly drawn."""
import logging

import math
import numpy as np

from ..core import SIM, Violation
from .. import project
from ..project import gen_project, run_stochastic, ModelSpy, model_of, zone_band, lattice, support, coef_check
from ..ref import check_geometry

PROP = 'C07'
RUNS = {'quick': 260, 'thorough': 6000}
RULE = ('each run performs one stochastic run of a random small project under a seeded random source (with draws forced to the ends of their ranges in some runs); '
        'every model used for tracing is observed and checked against the declared distributions and an independent fit, and every node probability against '
        'high-accuracy reference paths of those models; non-trivial: at least two realizations and some nodes captured by some but not all of them')
REAL = ['oneka.stochastic', 'oneka.model', 'oneka.capturezone', 'oneka.probabilityfield']
STUBS = ['randomness (seeded streams, extreme draws)', 'clock']
LISTS = (('cfg', 'observations'), ('cfg', 'wells'))
MINLEN = {('cfg', 'observations'): 8, ('cfg', 'wells'): 3}
PROBES = ('confined', 'unconfined', 'dry', 'extreme_draw', 'partial_probability', 'list_distribution')


def gen(rng, tier, i):
    cfg = gen_project(rng, nreal=rng.choice([1, 2, 2, 3, 4, 6]) if rng.random() < 0.85 else rng.choice([5, 7, 8, 9, 11, 16]))
    if rng.random() < 0.03:
        # many realizations
        cfg.update(nrealizations=rng.choice([33, 128, 260, 530]), npaths=1, duration=math.copysign(round(rng.uniform(0.3, 2), 2), cfg['duration']))
    if rng.random() < 0.2:
        # a thin aquifer pumped hard: parts of it run dry
        cfg['confined'] = False
        f = rng.uniform(0.08, 0.35)
        for o in cfg['observations']:
            o[2] = round(cfg['base'] + max((o[2] - cfg['base']) * f, 0.5), 3)
            o[3] = min(o[3], 0.1)
        for w in cfg['wells']:
            w[3] = [1.5 * q for q in w[3]] if isinstance(w[3], list) else 1.5 * w[3]
    if rng.random() < 0.12:
        # forward tracing, ending before the particles reach the well
        w = cfg['wells'][cfg['target']]
        cfg['duration'] = -0.1 * (w[2] + 1) ** 2 * 3.14 * support(cfg['p_dist'])[0] * support(cfg['t_dist'])[0] / abs(support(w[3])[1])
    return dict(cfg=cfg, extreme=rng.choice([0, 0, 0, 0.3, 1.0]))


def varying(d):
    lo, hi = support(d)
    return lo != hi


def inputs(key):
    base, k, n, T, xo, yo, coef, wells = key
    return dict([('conductivity', k), ('porosity', n), ('thickness', T)] + [('discharge of well %d' % i, w[3]) for i, w in enumerate(wells)])


def declared(cfg):
    return dict([('conductivity', cfg['c_dist']), ('porosity', cfg['p_dist']), ('thickness', cfg['t_dist'])] +
                [('discharge of well %d' % i, w[3]) for i, w in enumerate(cfg['wells'])])


def check_keys(keys, cfg, extreme, mvn):
    N = cfg['nrealizations']
    dist = declared(cfg)
    for r, key in enumerate(keys):
        if key[0] != cfg['base'] or len(key[7]) != len(cfg['wells']):
            raise Violation('wrong-inputs', 'realization %d uses base %r and %d wells' % (r, key[0], len(key[7])))
        for w, d in zip(key[7], cfg['wells']):
            if tuple(w[:3]) != tuple(float(v) for v in d[:3]):
                raise Violation('wrong-inputs', 'realization %d places a well at %r instead of %r' % (r, w[:3], d[:3]))
        for name, v in inputs(key).items():
            lo, hi = support(dist[name])
            if not lo <= v <= hi:
                raise Violation('outside-support', 'realization %d: %s = %r is outside [%r, %r]' % (r, name, v, lo, hi))
        m = mvn[r] if mvn is not None and len(mvn) == N == len(keys) else None
        coef_check(key, cfg, cfg['observations'], m, 'realization %d' % r)
    if not extreme:
        for a in range(len(keys)):
            for b in range(a):
                for name, v in inputs(keys[a]).items():
                    if varying(dist[name]) and v == inputs(keys[b])[name]:
                        raise Violation('stale-draw', 'realizations %d and %d share the same %s = %r' % (b, a, name, v))
    for a in range(len(keys)):
        for b in range(a):
            if keys[a][6] == keys[b][6]:
                raise Violation('stale-draw', 'realizations %d and %d share the same regional flow coefficients' % (b, a))


def run(sc, ctx):
    cfg = sc['cfg']
    SIM.extreme_p = sc['extreme']
    SIM.record_mvn = True
    logging.getLogger('Oneka').setLevel(logging.CRITICAL)
    with ModelSpy() as spy:
        pf = run_stochastic(cfg)
    SIM.simtime += abs(cfg['duration']) * cfg['nrealizations']
    N = cfg['nrealizations']
    keys = spy.keys.get(0, [])
    if not spy.calls:
        ctx.count('models_not_seen')
        return
    if len(keys) != N:
        raise Violation('realization-count', '%d realizations were requested, %d models were traced' % (N, len(keys)))
    check_keys(keys, cfg, sc['extreme'], [m[1:] for m in SIM.mvn] or None)
    check_geometry(pf, Violation, 'returned field')
    P = lattice(cfg, pf)
    lo = np.zeros(len(P))
    hi = np.zeros(len(P))
    dried = 0
    for key in keys:
        s, m, d = zone_band(model_of(key), cfg, P)
        lo += s
        hi += m
        dried += d
        ctx.log(key)
    if abs(pf.total_weight - N) > 1e-9:
        raise Violation('total-weight', 'total weight is %r after %d realizations' % (pf.total_weight, N))
    p = np.asarray(pf.pgrid, float).ravel()
    bad = (p < lo - 1e-9) | (p > hi + 1e-9) | ~np.isfinite(p)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation('probability', 'node (%r, %r): captured in %r of %d realizations; the reference paths of their models give between %r and %r (%d nodes wrong of %d)' %
                        (P[k, 0], P[k, 1], p[k], N, lo[k], hi[k], int(bad.sum()), len(P)))
    # nothing captured may lie outside the grid: the border must be clear of sure captures just beyond it
    ring = ring_points(cfg, pf)
    for key in keys:
        s, m, d = zone_band(model_of(key), cfg, ring)
        if s.any():
            k = int(np.argmax(s))
            raise Violation('node-missing', 'captured node (%r, %r) lies outside the returned grid' % tuple(ring[k]))
    SIM.probe('confined' if cfg['confined'] else 'unconfined')
    if dried:
        SIM.probe('dry')
    if cfg.get('listy'):
        SIM.probe('list_distribution')
    partial = bool(((p > 0) & (p < N)).any())
    if partial:
        SIM.probe('partial_probability')
    ctx.nontrivial = N >= 2 and partial
    ctx.count('nodes', len(P))
    ctx.count('nodes_decided', int((lo == hi).sum()))
    ctx.count('nodes_in_zone', int((p > 0).sum()))
    ctx.count('nodes_undecided', int((lo != hi).sum()))
    ctx.count('realizations', N)
    ctx.log_array(p)
    ctx.sample = dict(nrealizations=N, duration=cfg['duration'], confined=cfg['confined'], nodes=len(P), undecided=int((lo != hi).sum()))


def ring_points(cfg, pf):
    s = cfg['spacing']
    x = pf.xmin + s * np.arange(-1, pf.ncols + 1)
    y = pf.ymin + s * np.arange(-1, pf.nrows + 1)
    return np.concatenate([np.stack([x, np.full(len(x), y[0])], 1), np.stack([x, np.full(len(x), y[-1])], 1),
                           np.stack([np.full(len(y), x[0]), y], 1), np.stack([np.full(len(y), x[-1]), y], 1)])


def simplify(sc):
    cfg = sc['cfg']
    for k, v in (('npaths', 1), ('nrealizations', 2), ('listy', False), ('confined', True), ('duration', math.copysign(10.0, cfg['duration']))):
        if cfg[k] != v:
            yield dict(sc, cfg=dict(cfg, **{k: v}))
    if len(cfg['wells']) > 1:
        t = cfg['wells'][cfg['target']]
        yield dict(sc, cfg=dict(cfg, wells=[t], target=0))
    if sc['extreme']:
        yield dict(sc, extreme=0)
