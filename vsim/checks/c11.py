"""C11: one model can serve many concurrent readers."""
import pickle

import numpy as np

from ..core import SIM, Violation, Scheduler
from ..flows import gen_flow, model_coef

PROP = 'C11'
RUNS = {'quick': 480, 'thorough': 15000}
RULE = ('each run gives 2-5 simulated threads (or one, in sequence) 1-12 queries each - potential, wells-only potential, head, discharge, both velocities, fit construction, '
        'traces, capture zones, maps - on one shared model with wet, dry and unconfined regions, pre-empted by a seeded scheduler at line or opcode granularity; every result '
        'must be bit-identical to the same query on a fresh copy of the model, and the model must compare equal before and after; non-trivial: at least 4 queries, one pre-emption or failure')
REAL = ['oneka.model', 'oneka.capturezone', 'oneka.probabilityfield', 'oneka.visualize (maps)']
STUBS = ['thread scheduling (baton)', 'plot drawing']
LISTS = (('threads',), ('threads', '*'))
MINLEN = {}
PROBES = ('opcodes', 'lines', 'sequential', 'dry_query', 'at_well', 'trace', 'unconfined', 'confined', 'map', 'zone', 'fit', 'several_origins', 'refitted')

POINT = ('potential', 'wells_only', 'head', 'discharge', 'velocity', 'velocity_confined')


def gen(rng, tier, i):
    f = gen_flow(rng, ('model',))
    f['xo'], f['yo'] = rng.choice([(0, 0), (round(rng.uniform(-200, 200), 1), round(rng.uniform(-200, 200), 1))])
    if rng.random() < 0.5:
        f['coef'] = [c * rng.choice([1, 3, 10]) for c in f['coef']]
    ths = []
    hot = [[round(rng.uniform(-400, 400), 2), round(rng.uniform(-400, 400), 2)] for _ in range(3)]
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        qs = []
        for _ in range(rng.choice([1, 3, 6, 12])):
            r = rng.random()
            if r < 0.72:
                u = rng.random()
                if u < 0.35:
                    p = list(rng.choice(hot))
                    v = rng.random()                    # near-equal points: what a careless cache would confuse
                    if v < 0.2:
                        p[0] += rng.choice([1e-7, 1e-4, 1e-2, 0.4])
                    elif v < 0.3:
                        p.reverse()
                    elif v < 0.4:
                        p[1] = -p[1]
                    elif v < 0.5:
                        p = [float(round(p[0])), float(round(p[1]))]
                elif u < 0.45:
                    w = rng.choice(f['wells'])
                    p = [w[0], w[1]]                    # at a well: singular
                elif u < 0.6:
                    w = rng.choice(f['wells'])
                    p = [w[0] + rng.choice([0.01, 0.5, 3]), w[1]]
                else:
                    s = rng.choice([100, 1000, 5000])
                    p = [round(rng.uniform(-s, s), 2), round(rng.uniform(-s, s), 2)]
                qs.append([rng.choice(POINT)] + p)
            elif r < 0.90:
                w = rng.choice(f['wells'])
                qs.append(['trace', w[0] + rng.choice([1.25, 5, 60]), w[1] + rng.choice([0, 7]), round(rng.uniform(1, 15), 2), rng.choice([0.5, 0.05]), rng.random() < 0.5])
            elif r < 0.94:
                qs.append(['zone', rng.choice([1, 2, 3]), round(rng.uniform(1, 8), 2), rng.random() < 0.5])
            elif r < 0.97:
                qs.append(['fit', rng.getrandbits(16), rng.choice(hot)])
            else:
                qs.append(['map', rng.choice(['head', 'potential']), rng.choice([100, 1500]), rng.choice([2, 4])])
        ths.append(qs)
    return dict(flow=f, threads=ths, seq=rng.random() < 0.2, refit=rng.choice([0, 0, 0.5, 1.7]), npwells=rng.random() < 0.2,
                sched=dict(seed=rng.getrandbits(32), p=rng.choice([0.02, 0.1, 0.4]), opcodes=rng.random() < 0.5))


def coef_of(sc, i):
    """The coefficients in force for the i-th batch of queries (run in sequence, they may be refitted in between)."""
    c = np.array(model_coef(sc['flow']))
    if sc['seq'] and i and sc['refit']:
        c[:5] *= sc['refit'] ** i
    return c


def build(sc, i=0):
    from oneka.model import Model
    f = sc['flow']
    wells = [tuple(w) for w in f['wells']]
    return Model(0.0, f['k'], f['n'], f['T'], wells, f['xo'], f['yo'], coef_of(sc, i))


def ask(mo, q, V):
    """-> comparable outcome of one query"""
    k = q[0]
    try:
        if k == 'potential':
            r = mo.compute_potential(q[1], q[2])
        elif k == 'wells_only':
            r = mo.compute_potential_wells_only(q[1], q[2])
        elif k == 'head':
            r = mo.compute_head(q[1], q[2])
        elif k == 'discharge':
            r = list(mo.compute_discharge(q[1], q[2]))
        elif k == 'velocity':
            r = list(mo.compute_velocity(q[1], q[2]))
        elif k == 'velocity_confined':
            r = list(mo.compute_velocity_confined(q[1], q[2]))
        elif k == 'fit':
            rng = V['RS'](q[1])
            obs = [(float(x), float(y), float(z), 0.3) for x, y, z in zip(rng.uniform(-900, 900, 9), rng.uniform(-900, 900, 9), rng.uniform(6, 60, 9))]
            WA, Wb = mo.construct_fit(obs, q[2][0], q[2][1])
            ev, cov = mo.compute_fit(WA, Wb)
            r = [np.asarray(a).tolist() for a in (WA, Wb, ev, cov)]
        elif k == 'map':
            r = V['map'](mo, q)
        else:
            import oneka.capturezone as cz
            confined = q[-1]
            g = mo.compute_velocity_confined if confined else mo.compute_velocity

            def fe(xy):
                vx, vy = g(xy[0], xy[1])
                return np.array([-vx, -vy])
            if k == 'trace':
                v = cz.compute_backtrace(q[1], q[2], q[3], q[4], 5.0, fe)
                r = [(float(p[0]), float(p[1])) for p in v]
            else:
                from oneka.probabilityfield import ProbabilityField
                from ..ref import field_state
                w = mo.wells[0]
                pf = ProbabilityField(5.0, 5.0, w[0], w[1])
                cz.compute_capturezone(w[0], w[1], w[2], q[1], q[2], pf, 5.0, 1.0, 0.5, 5.0, fe)
                r = field_state(pf)
    except Exception as e:      # noqa
        return 'raised %s' % type(e).__name__
    return repr(r)


def state(mo):
    """Everything a caller can see of the model (private caches are not the model's state)."""
    return pickle.dumps([(n, v.tolist() if isinstance(v, np.ndarray) else v) for n, v in
                         ((n, getattr(mo, n)) for n in ('base', 'conductivity', 'porosity', 'thickness', 'wells', 'xo', 'yo', 'coef'))])


def run(sc, ctx):
    import matplotlib.pyplot as plt
    rstate = np.random.RandomState.__mro__[1]
    import oneka.visualize as vz
    SIM.record_plots = True
    lastmap = {}
    # a drawn map is whatever reaches contourf; one slot per simulated thread

    def contourf(x, y, z, *a, **k):
        lastmap[SIM.task] = (np.asarray(x).tolist(), np.asarray(y).tolist(), np.ma.filled(np.ma.masked_invalid(z), -1e99).tolist())
    plt.contourf = contourf
    plt.colorbar = lambda *a, **k: None

    def draw(mo, q):
        h = q[2]
        f = vz.contour_head if q[1] == 'head' else vz.contour_potential
        lastmap.pop(SIM.task, None)
        f(mo, -h, h, -h, h, q[3], q[3] + 1)
        return lastmap.get(SIM.task)
    V = dict(RS=rstate, map=draw)
    # alone: each query on a model of its own
    want = [[ask(build(sc, i), q, V) for q in qs] for i, qs in enumerate(sc['threads'])]
    again = [[ask(build(sc, i), q, V) for q in qs] for i, qs in enumerate(sc['threads'])]
    if want != again:
        raise Violation('not-repeatable', 'the same queries, each on a fresh copy of the model, gave different answers the second time')
    mo = build(sc)
    before = state(mo)
    got = [[None] * len(qs) for qs in sc['threads']]

    def thread(i):
        nonlocal before
        if sc['seq'] and i and sc['refit']:
            mo.coef = coef_of(sc, i)
            before = state(mo)
            SIM.probe('refitted')
        for j, q in enumerate(sc['threads'][i]):
            got[i][j] = ask(mo, q, V)
            if sc['seq'] and state(mo) != before:
                raise Violation('model-changed', 'query %r changed the model' % (q,))
    if sc['seq'] or len(sc['threads']) == 1:
        for i in range(len(sc['threads'])):
            thread(i)
        SIM.probe('sequential')
        nsw = 0
    else:
        s = Scheduler(sc['sched'], max_steps=10**9)
        res = s.run([lambda i=i: thread(i) for i in range(len(sc['threads']))])
        SIM.last_switches = s.switches
        for r in res:
            if r[0] == 'exc':
                raise r[1]
        SIM.probe('opcodes' if s.opcodes else 'lines')
        nsw = len(s.switches)
        ctx.log(s.switches)
        ctx.count('switches', nsw)
    nq = 0
    for i, qs in enumerate(sc['threads']):
        for j, q in enumerate(qs):
            nq += 1
            if got[i][j] != want[i][j]:
                raise Violation('wrong-answer', 'thread %d query %d %r returned %s beside %d other threads, %s alone' %
                                (i, j, q, got[i][j][:200], len(sc['threads']) - 1, want[i][j][:200]))
            if q[0] in POINT:
                if want[i][j].startswith('raised'):
                    SIM.probe('dry_query')
                if any(q[1] == w[0] and q[2] == w[1] for w in sc['flow']['wells']):
                    SIM.probe('at_well')
            else:
                SIM.probe(q[0])
    if state(mo) != before:
        raise Violation('model-changed', 'the model differs after %d queries' % nq)
    SIM.probe('confined' if sc['flow']['depth'] > 1 else 'unconfined')
    if sc['flow']['xo']:
        SIM.probe('several_origins')
    ctx.log(repr(want)[:100000])
    ctx.count('queries', nq)
    ctx.nontrivial = nq >= 4 and (nsw > len(sc['threads']) or any('raised' in w for ws in want for w in ws))
    ctx.sample = dict(threads=[[q[0] for q in qs] for qs in sc['threads']][:3], switches=nsw)


def simplify(sc):
    f = sc['flow']
    if len(f['wells']) > 1:
        yield dict(sc, flow=dict(f, wells=f['wells'][:1]))
    if f['xo']:
        yield dict(sc, flow=dict(f, xo=0, yo=0))
    if sc['sched'].get('opcodes') and 'switches' not in sc['sched']:
        yield dict(sc, sched=dict(sc['sched'], opcodes=False))
