"""C04: a realization is the union of its traces, and a failing trace harms only itself."""
import logging
import math

import numpy as np

from ..core import SIM, Violation, ListHandler, SimBudget
from ..ref import RefField, raster
from ..flows import gen_flow, real_feval, FlowSeam, ERRORS
from . import c01

PROP = 'C04'
RUNS = {'quick': 600, 'thorough': 15000}
RULE = ('each run computes one to four capture zones (different weights, targets, path counts) on one field through a flow that fails in small regions placed on '
        'chosen traces; the field must equal the reference rasterisation of each particle traced alone through the same flow, each realization counted once; '
        'non-trivial: at least one trace was cut short and at least one other was not')
REAL = ['oneka.capturezone', 'oneka.probabilityfield', 'oneka.model (some flows)']
STUBS = ['flow evaluation behind a fault-injecting seam']
LISTS = (('zones',), ('zones', '*', 'cuts'), ('flow', 'wells'))
MINLEN = {('flow', 'wells'): 1, 'zones': 1}
PROBES = ('long_track', 'all_cut', 'some_cut', 'none_cut', 'cut_at_start', 'second_zone', 'single_path')
SPAN = 90


def gen(rng, tier, i):
    flow = gen_flow(rng)
    zones = []
    maxstep = rng.choice([0.5, 1.0, 2.0, 5.0])
    for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 6):
        zones.append(dict(npaths=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12]) if rng.random() < 0.96 else rng.choice([10, 17, 24, 33]), w=rng.choice([1.0, 1.0, 0.5, 2.25, 3]), r=rng.choice([0.25, 0.5, 1.0]),
                          umbra=rng.choice([1.0, 2.0, 3.0, rng.choice([0.2, 0.45, 0.8, 5.5])]),
                          cuts=[dict(path=rng.randrange(12), u=rng.choice([0.0, rng.random(), rng.random()]), r=rng.choice([0.0517, 0.5173, 1.9717]),
                                     what=rng.choice(ERRORS + ('nan', 'inf1'))) for _ in range(rng.choice([0, 1, 1, 2, 4]))]))
    if rng.random() < 0.01:
        zones[0].update(npaths=rng.choice([50, 75, 110, 130]), cuts=zones[0]['cuts'][:1])
        return dict(flow=flow, zones=zones[:1], maxstep=maxstep, tol=1e-3, reach=rng.choice([3, 6]), spacing=1.0, start=[1.25, 0.0], sign=1)
    return dict(flow=flow, zones=zones, maxstep=maxstep, tol=10 ** rng.uniform(-5, -2), reach=rng.choice([3, 10, 25, 100, 200]), spacing=rng.choice([0.5, 1.0, 2.0]),
                start=[1.25, 0.0], sign=1)


def solo(sc, st, duration, regions):
    from oneka.capturezone import compute_backtrace
    seam = FlowSeam(real_feval(sc['flow']), (), regions, 60000)
    v = compute_backtrace(st[0], st[1], duration, sc['tol'], sc['maxstep'], seam)
    return np.array([[float(p[0]), float(p[1])] for p in v]).reshape(-1, 2), seam


def cut(v0, f, v, s):
    """A trace on which the flow fails ends with the last vertex completed before the failure."""
    if not s.hits or s.what[0] not in ERRORS or not np.isfinite(v0).all():
        return      # (a non-finite value may reach a stage without reaching the step)
    first, last = {}, {}
    for n, p in enumerate(f.points):
        first.setdefault(p, n)
        last[p] = n
    if any(tuple(p) not in first for p in v0.tolist()):
        return
    most = max(1, sum(first[tuple(p)] < s.hits[0] - 1 for p in v0.tolist()))
    least = max(1, sum(last[tuple(p)] < s.hits[0] - 1 for p in v0.tolist()))
    k = len(v)
    if not least <= k <= most or not np.array_equal(v, v0[:k]):
        raise Violation('wrong-cut', 'the flow failed (evaluation %d) when %d vertices were complete: the %d vertices left are not these' % (s.hits[0] - 1, most, k))


def run(sc, ctx):
    from oneka.capturezone import compute_capturezone
    from oneka.probabilityfield import ProbabilityField
    logging.getLogger('Oneka').addHandler(ListHandler())
    # far enough to matter, near enough for the reference universe
    s2 = dict(sc, reach=min(sc['reach'], 0.8 * SPAN * sc['spacing'] / sc['maxstep']))
    duration = abs(c01.duration_for(s2))
    d = sc['spacing']
    pf = ProbabilityField(d, d, 0.0, 0.0)
    ref = RefField(0.0, 0.0, d, d, SPAN)
    cut_total = whole_total = 0
    for zi, z in enumerate(sc['zones']):
        if zi:
            SIM.probe('second_zone')
        if z['npaths'] == 1:
            SIM.probe('single_path')
        th = 2 * math.pi * np.arange(z['npaths']) / z['npaths']
        starts = np.stack([(z['r'] + 1) * np.cos(th), (z['r'] + 1) * np.sin(th)], 1)
        try:
            full = [solo(sc, st, duration, []) for st in starts]
            paths = [v for v, _ in full]
            regions = []
            for c in z['cuts']:
                p = paths[c['path'] % z['npaths']]
                q = p[min(int(c['u'] * len(p)), len(p) - 1)]
                regions.append(dict(x=float(q[0]), y=float(q[1]), r=c['r'], what=c['what']))
            solos = [solo(sc, st, duration, regions) for st in starts]
        except SimBudget:
            ctx.count('over_budget')
            return
        for (v0, f), (v, s) in zip(full, solos):
            cut(v0, f, v, s)
        for v, _ in solos:
            if not np.isfinite(v).all():
                ctx.count('not_finite')     # C02's business
                return
            if np.abs(v).max() > (SPAN - 6) * d - z['umbra']:
                ctx.count('out_of_universe')
                return
        seam = FlowSeam(real_feval(sc['flow']), (), regions, 600000)
        before = float(pf.total_weight)
        try:
            compute_capturezone(0.0, 0.0, z['r'], z['npaths'], duration, pf, z['umbra'], z['w'], sc['tol'], sc['maxstep'], seam)
        except Exception as e:      # noqa
            if seam.hits and not isinstance(e, (Violation, SimBudget)):
                raise Violation('trace-lost-zone', 'zone %d: the flow failed at evaluation %d and took the whole realization with it: %r' % (zi, seam.hits[-1] - 1, e))
            raise
        if seam.over:
            raise Violation('no-progress', 'capture zone used %d flow evaluations' % seam.n)
        cuts = sum(len(s.hits) > 0 for _, s in solos)
        cut_total += cuts
        whole_total += z['npaths'] - cuts
        SIM.probe('none_cut' if not cuts else 'all_cut' if cuts == z['npaths'] else 'some_cut')
        # every start evaluated (the flow at the start is what a trace begins with)
        E = np.array(seam.points)
        for st in starts:
            if len(E) == 0 or np.hypot(*(E - st).T).min() > 1e-6:
                raise Violation('missing-trace', 'zone %d: no particle started at (%r, %r)' % (zi, st[0], st[1]))
        for v, s in solos:
            su, ma = raster(ref.P, v, z['umbra'], 1e-5)
            ref.marks(su, ma)
            if len(v) > 60:
                SIM.probe('long_track')
            if len(v) == 1:
                SIM.probe('cut_at_start')
        ref.register(z['w'])
        if abs(pf.total_weight - before - z['w']) > 1e-9:
            raise Violation('total-weight', 'zone %d (weight %r): total weight went from %r to %r' % (zi, z['w'], before, pf.total_weight))
        ref.compare(pf, Violation, 'after zone %d' % zi)
        ctx.log(zi, cuts, seam.n)
        ctx.log_array(pf.pgrid)
        SIM.simtime += duration * z['npaths']
    ctx.nontrivial = cut_total > 0 and whole_total > 0
    ctx.count('traces_cut', cut_total)
    ctx.count('traces_whole', whole_total)
    ctx.sample = dict(flow=sc['flow']['kind'], zones=sc['zones'][:2], duration=duration)


def simplify(sc):
    for k, v in (('flow', dict(kind='uniform', a=1.0, b=0.0)), ('flow', dict(kind='wells', a=0.1, b=0.0, wells=[[0.0, 0.0, 10.0]])), ('tol', 1e-3),
                 ('maxstep', 2.0), ('reach', 3), ('spacing', 1.0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for i, z in enumerate(sc['zones']):
        for k, v in (('npaths', 1), ('npaths', 2), ('w', 1.0), ('umbra', 1.0), ('r', 0.25)):
            if z[k] != v and not (k == 'npaths' and z[k] < v):
                yield dict(sc, zones=[dict(y, **{k: v}) if j == i else y for j, y in enumerate(sc['zones'])])
