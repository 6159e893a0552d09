"""C02: every trace ends, also when the flow becomes undefined."""
import logging
import math

import numpy as np

from ..core import SIM, Violation, ListHandler, SimBudget
from ..flows import gen_flow, vector_field, real_feval, FlowSeam, ERRORS
from . import c01

PROP = 'C02'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('each run traces one particle (or one small capture zone) through a flow that stagnates, converges on a sink, slides along a jump, is singular at the start, '
        'or turns NaN / infinite / zero / failing from a chosen evaluation on, for a few evaluations, or inside a region; flow evaluations are counted '
        'against a budget and every returned vertex must be finite; after the onset of a persistent failure at most 2000 further evaluations are allowed and the vertices '
        'must be the leading part of the undisturbed trace; non-trivial: something was injected or the flow is pathological by itself')
REAL = ['oneka.capturezone.compute_backtrace', 'oneka.capturezone.compute_capturezone', 'oneka.model.Model velocity (in some flows)',
        'oneka.probabilityfield.ProbabilityField']
STUBS = ['flow evaluation behind a fault-injecting seam']
LISTS = (('faults',), ('regions',), ('flow', 'wells'))
MINLEN = {('flow', 'wells'): 1}
PROBES = ('flow_nan', 'flow_inf', 'flow_zero', 'singular_start', 'sink', 'sliding', 'stagnation', 'persistent', 'transient', 'region', 'zone')
BUDGET = 300000
AFTER = 2000
UNDEF = ('nan', 'nan', 'nan1', 'inf', 'inf1')


def gen(rng, tier, i):
    kind = rng.choice(['fault', 'fault', 'fault', 'region', 'sink', 'sliding', 'stagnation', 'singular', 'zone'])
    sc = dict(kind=kind, maxstep=rng.choice([0.7, 2.0, 10.0, 50.0]), tol=10 ** rng.uniform(-5, -1), faults=[], regions=[],
              sign=rng.choice([1, 1, -1]))
    th = rng.uniform(0, 2 * math.pi)
    if kind in ('fault', 'region', 'zone'):
        sc['flow'] = gen_flow(rng)
        well = sc['flow']['kind'] in ('wells', 'model')
        sc['sign'] = 1 if well else sc['sign']
        sc['start'] = [1.25 * math.cos(th), 1.25 * math.sin(th)]
        sc['reach'] = rng.choice([2, 10, 40])
        if kind == 'fault':
            sc['faults'] = [dict(u=rng.random() if rng.random() < 0.85 else 0.0, what=rng.choice(UNDEF + ('zero', rng.choice(ERRORS))),
                                 last=rng.choice([None, None, None, 1, 2, 7]))]
            if rng.random() < 0.2:
                sc['faults'].append(dict(u=rng.random(), what=rng.choice(('huge', 'nan', 'zero')), last=rng.choice([1, 3])))
        else:
            for _ in range(rng.choice([1, 1, 2])):
                ph = rng.uniform(0, 2 * math.pi)
                d = rng.choice([3, 10, 30]) * rng.uniform(0.4, 1.5)
                sc['regions'].append(dict(x=d * math.cos(ph), y=d * math.sin(ph), r=d * rng.uniform(0.2, 0.9), what=rng.choice(UNDEF + (rng.choice(ERRORS),))))
            if kind == 'zone':
                sc['npaths'] = rng.choice([1, 3, 7])
                if rng.random() < 0.4:
                    sc['regions'][0].update(x=0.0, y=0.0)
                sc['reach'] = min(sc['reach'], 10)
                sc['sign'] = 1
    elif kind == 'sink':
        # straight or spiralling into a well, and on for a while after reaching it
        q = rng.uniform(2, 40)
        r = rng.uniform(2, 10)
        sc.update(flow=dict(kind='wells', a=rng.choice([0.0, rng.uniform(-0.2, 0.2)]), b=0.0, wells=[[0.0, 0.0, q]]), start=[r * math.cos(th), r * math.sin(th)],
                  sign=-1, tol=10 ** rng.uniform(-3, 0))
        if rng.random() < 0.3:
            sc['start'] = [r, 0.0]
            sc['flow']['a'] = 0.0
        sc['duration'] = -(0.5 * r * r / q * rng.choice([1.0, 1.0 + 1e-9, 1.05, 1.3]) + rng.choice([0, 300 * sc['tol'] ** 2 / q]))
    elif kind == 'sliding':
        sc.update(flow=dict(kind='jump', angle=rng.uniform(0, math.pi), at=rng.uniform(0, 5), a=rng.uniform(0.2, 2), b=rng.uniform(0.2, 2),
                            c=rng.uniform(-1, 1)), start=[0.0, 0.0], tol=10 ** rng.uniform(-2, -0.5), sign=1)
        sc['duration'] = rng.uniform(2, 15)
    elif kind == 'stagnation':
        f = rng.choice([dict(kind='uniform', a=0.0, b=0.0), dict(kind='saddle', a=0.1, cx=0.0, cy=0.0), dict(kind='rotation', w=0.05, cx=0.0, cy=0.0),
                        dict(kind='uniform', a=1e-300, b=1e-12)])
        sc.update(flow=f, start=rng.choice([[0.0, 0.0], [0.0, 0.0], [0.0, 5.0], [1e-9, 2.0]]))
        sc['duration'] = sc['sign'] * rng.choice([1.0, 30.0, 50.0])
    else:
        # another well stands exactly where the trace starts
        f = dict(kind='model', confined=rng.random() < 0.5, k=10.0, n=0.2, T=20.0, coef=[0, 0, 0, -0.5, 0.2, 0.0], depth=1.5,
                 wells=[[0.0, 0.0, 0.25, 500.0], [1.25, 0.0, 0.25, 300.0]])
        sc.update(flow=f, start=[1.25, 0.0], duration=sc['sign'] * rng.choice([1.0, 365.25, 3652.5]))
    return sc


def fields(sc):
    f = sc['flow']
    if f['kind'] == 'jump':
        c, s = math.cos(f['angle']), math.sin(f['angle'])

        def fe(xy):
            d = xy[0] * c + xy[1] * s - f['at']
            n = f['a'] if d < 0 else -f['b']
            t = f['c']
            return np.array([n * c - t * s, n * s + t * c])
        return fe
    return real_feval(f)


def trace(sc, duration, faults=(), budget=BUDGET):
    from oneka.capturezone import compute_backtrace
    seam = FlowSeam(fields(sc), faults, sc['regions'], budget)
    try:
        v = compute_backtrace(sc['start'][0], sc['start'][1], duration, sc['tol'], sc['maxstep'], seam)
    except SimBudget:
        pass
    if seam.over:
        raise Violation('no-progress', 'the trace used %d flow evaluations without ending (%d after the first injected failure)' %
                        (seam.n, seam.after_first))
    pts = np.array([[float(p[0]), float(p[1])] for p in v]).reshape(-1, 2)
    if len(pts) == 0 or pts[0].tolist() != sc['start']:
        raise Violation('no-start', 'the returned trace does not begin at its start')
    if not np.isfinite(pts).all():
        k = int(np.argwhere(~np.isfinite(pts).all(1))[0][0])
        raise Violation('not-finite', 'vertex %d of %d is %r' % (k, len(pts), pts[k].tolist()))
    return pts, seam


def run(sc, ctx):
    kind = sc['kind']
    SIM.probe({'fault': 'faulted', 'singular': 'singular_start'}.get(kind, kind))
    duration = sc['duration'] if 'duration' in sc else c01.duration_for(sc)
    SIM.simtime += abs(duration)
    lg = logging.getLogger('Oneka')
    lg.addHandler(ListHandler())
    if kind == 'zone':
        from oneka.capturezone import compute_capturezone
        from oneka.probabilityfield import ProbabilityField
        pf = ProbabilityField(1.0, 1.0, 0.0, 0.0)
        seam = FlowSeam(fields(sc), (), sc['regions'], BUDGET)
        duration = abs(duration)
        try:
            compute_capturezone(0.0, 0.0, 0.25, sc['npaths'], duration, pf, 1.0, 1.0, sc['tol'], sc['maxstep'], seam)
        except SimBudget:
            pass
        if seam.over:
            raise Violation('no-progress', 'the capture zone used %d flow evaluations without ending' % seam.n)
        if not np.isfinite(pf.pgrid).all() or pf.total_weight != 1.0:
            raise Violation('zone-wrong', 'the capture zone was not registered once')
        ctx.log_array(pf.pgrid)
        ctx.nontrivial = bool(seam.hits)
        ctx.peak('evaluations', seam.n)
        return
    faults = []
    V0 = None
    if sc['faults']:
        base = dict(sc, regions=[])
        V0, s0 = trace(base, duration)
        for f in sc['faults']:
            faults.append(dict(at=min(int(f['u'] * s0.n), s0.n - 1), what=f['what'], last=f['last']))
            SIM.probe('persistent' if f['last'] is None else 'transient')
    # a persistent failure must end the trace promptly
    persistent = len(faults) == 1 and faults[0]['last'] is None and faults[0]['what'] != 'zero'
    budget = faults[0]['at'] + AFTER if persistent else BUDGET
    V, seam = trace(sc, duration, faults, budget)
    if persistent:
        k = len(V)
        if k > len(V0) or not np.array_equal(V, V0[:k]):
            raise Violation('not-a-prefix', 'flow persistently %s from evaluation %d on: the %d vertices returned are not the part of the trace completed before' %
                            (faults[0]['what'], faults[0]['at'], k))
    ctx.log(seam.n)
    ctx.log_array(V)
    ctx.peak('evaluations', seam.n)
    ctx.peak('evaluations_after_failure', seam.after_first)
    ctx.nontrivial = bool(seam.hits) or kind in ('sink', 'sliding', 'stagnation', 'singular')
    ctx.sample = dict(kind=kind, flow=sc['flow'], duration=duration, tol=sc['tol'], faults=faults, regions=sc['regions'], evaluations=seam.n, vertices=len(V))


def simplify(sc):
    for k, v in (('tol', 1e-3), ('maxstep', 10.0), ('sign', 1)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    if sc['kind'] in ('fault', 'region', 'zone'):
        f = dict(kind='uniform', a=1.0, b=0.0)
        if sc['flow'] != f:
            yield dict(sc, flow=f)
        if sc.get('reach') != 2:
            yield dict(sc, reach=2)
    for i, f in enumerate(sc['faults']):
        for k, v in (('last', None), ('u', 0.5)):
            if f[k] != v:
                c = dict(sc, faults=[dict(x) for x in sc['faults']])
                c['faults'][i][k] = v
                yield c
