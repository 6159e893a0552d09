"""C16: head and potential maps show every computable node and leave gaps elsewhere."""
import numpy as np

from ..core import SIM, Violation
from ..flows import gen_flow, model_coef
from ..ref import RefModel

PROP = 'C16'
RUNS = {'quick': 2500, 'thorough': 30000}
RULE = ('each run draws 1-4 head or potential maps of one model whose evaluation fails (AquiferError) at a seeded subset of nodes - by number of the evaluation, by region, everywhere, nowhere - '
        'on top of the nodes that are dry by themselves, and compares the drawn grid node by node with an independent model at independently computed node positions; non-trivial: a map '
        'with both blank and shown nodes was drawn')
REAL = ['oneka.visualize.contour_head', 'oneka.visualize.contour_potential', 'oneka.model']
STUBS = ['matplotlib drawing (the arrays handed to it are captured)', 'evaluation failures']
LISTS = (('maps',), ('maps', '*', 'faults'))
PROBES = ('head', 'potential', 'some_dry', 'all_dry', 'none_dry', 'naturally_dry', 'injected', 'node_at_well')


def gen(rng, tier, i):
    f = gen_flow(rng, ('model',))
    f['xo'], f['yo'] = rng.choice([(0, 0), (round(rng.uniform(-200, 200), 1), round(rng.uniform(-200, 200), 1)), (480000.0, 5000000.0)])
    f['base'] = rng.choice([0.0, 0.0, 12.5])
    if rng.random() < 0.5:
        f['coef'] = [c * rng.choice([1, 10, 60]) for c in f['coef']]
    f['wells'] = [[w[0] + f['xo'], w[1] + f['yo']] + w[2:] for w in f['wells']]
    maps = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        s = rng.choice([50, 400, 2000])
        x0, y0 = round(f['xo'] + rng.uniform(-s, s / 2), 2), round(f['yo'] + rng.uniform(-s, s / 2), 2)
        if f['wells'] and rng.random() < 0.12:
            x0, y0 = rng.choice(f['wells'])[:2]         # a node exactly at a well
        nr, nc = rng.choice([(2, 2), (2, 7), (6, 3), (5, 5), (11, 8), (15, 4)]) if rng.random() < 0.9 else rng.choice([(12, 11), (21, 17), (9, 40), (33, 30)])
        faults = []
        r = rng.random()
        if r < 0.35:
            faults = [dict(kind='node', n=rng.randrange(nr * nc)) for _ in range(rng.choice([1, 2, 5, nr * nc // 2]))]
        elif r < 0.55:
            faults = [dict(kind='disk', x=x0 + rng.random() * s, y=y0 + rng.random() * s, r=rng.uniform(0.1, 0.8) * s)]
        elif r < 0.62:
            faults = [dict(kind='all')]
        maps.append(dict(what=rng.choice(['head', 'potential']), x0=x0, x1=round(x0 + s * rng.uniform(0.3, 2), 2), y0=y0, y1=round(y0 + s * rng.uniform(0.3, 2), 2),
                         nr=nr, nc=nc, faults=faults))
    return dict(flow=f, maps=maps)


def run(sc, ctx):
    import matplotlib.pyplot as plt
    from oneka.model import Model, AquiferError
    import oneka.visualize as vz
    f = sc['flow']
    c = model_coef(dict(f, wells=[[w[0] - f['xo'], w[1] - f['yo'], w[2], w[3]] for w in f['wells']]))
    mo = Model(f['base'], f['k'], f['n'], f['T'], [tuple(w) for w in f['wells']], f['xo'], f['yo'], np.array(c))
    ref = RefModel(f['base'], f['k'], f['n'], f['T'], f['wells'], f['xo'], f['yo'], c)
    drawn = []

    def contourf(*a, **k):
        drawn.append(a)
    plt.contourf = contourf
    plt.contour = lambda *a, **k: None
    plt.colorbar = lambda *a, **k: None
    from matplotlib.axes import Axes
    Axes.contourf = lambda self, *a, **k: drawn.append(a)
    Axes.pcolormesh = Axes.contourf
    from matplotlib.figure import Figure
    Figure.colorbar = lambda *a, **k: None
    for n, m in enumerate(sc['maps']):
        xs = [m['x0'] + (m['x1'] - m['x0']) * j / (m['nc'] - 1) for j in range(m['nc'])]
        ys = [m['y0'] + (m['y1'] - m['y0']) * i / (m['nr'] - 1) for i in range(m['nr'])]
        X, Y = np.meshgrid(xs, ys)
        P = np.stack([X.ravel(), Y.ravel()], 1)
        dry = np.zeros(len(P), bool)
        for ft in m['faults']:
            if ft['kind'] == 'node':
                if ft['n'] < len(P):
                    dry[ft['n']] = True
            elif ft['kind'] == 'disk':
                dry |= np.hypot(P[:, 0] - ft['x'], P[:, 1] - ft['y']) < ft['r']
            else:
                dry[:] = True
        # the failure belongs to the place, whichever function evaluates it and in whichever order
        seen = {}

        def place(x, y):
            d = np.hypot(P[:, 0] - x, P[:, 1] - y)
            k = int(np.argmin(d))
            if d[k] > 1e-6 * (1 + abs(x) + abs(y)):
                raise Violation('wrong-position', 'the model was evaluated at (%r, %r), which is not a node of the map' % (x, y))
            return k
        name = 'compute_head' if m['what'] == 'head' else 'compute_potential'
        orig = Model.__dict__[name]

        def g(self, x, y, orig=orig):
            if np.ndim(x) or np.ndim(y):
                dry[:] = False          # evaluated for many nodes at once: a failure of single nodes cannot be simulated
            elif dry.any() and dry[place(x, y)]:
                SIM.fire('dry_node')
                raise AquiferError('simulated: dry')
            return orig(self, x, y)
        setattr(Model, name, g)
        drawn.clear()
        try:
            (vz.contour_head if m['what'] == 'head' else vz.contour_potential)(mo, m['x0'], m['x1'], m['y0'], m['y1'], m['nr'], m['nc'])
        finally:
            setattr(Model, name, orig)
        who = '%s map %d (%d x %d nodes, %d made dry)' % (m['what'], n, m['nr'], m['nc'], dry.sum())
        if len(drawn) != 1 or len(drawn[0]) < 3:
            raise Violation('not-drawn', '%s: drawn %d times' % (who, len(drawn)))
        gx, gy, gz = drawn[0][:3]
        gx, gy = np.asarray(gx, float), np.asarray(gy, float)
        gz = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(gz, dtype=float)), np.nan)
        if gx.ndim == 2:
            gx, gy = gx[0], gy[:, 0]
        if gx.shape != (m['nc'],) or gy.shape != (m['nr'],) or gz.shape != (m['nr'], m['nc']):
            raise Violation('shape', '%s: drawn with arrays of shapes %r %r %r' % (who, gx.shape, gy.shape, gz.shape))
        sx, sy = abs(m['x1'] - m['x0']) / (m['nc'] - 1), abs(m['y1'] - m['y0']) / (m['nr'] - 1)
        if np.abs(gx - xs).max() > 1e-6 * sx or np.abs(gy - ys).max() > 1e-6 * sy:
            raise Violation('wrong-position', '%s: nodes are drawn at x=%r y=%r' % (who, gx.tolist(), gy.tolist()))
        pot = ref.potential(P[:, 0], P[:, 1])
        scale = np.abs(ref.potential(P[:, 0], P[:, 1])) + np.abs(c[5]) + 1.0
        if m['what'] == 'potential':
            want = pot
            slack = 1e-9 * scale
        else:
            # head above the base is what the model reports
            want = ref.head(P[:, 0], P[:, 1])
            slack = 1e-7 * (1 + np.abs(np.nan_to_num(want)))
            amb = np.abs(pot) < 1e-8 * scale
            dryn = ~np.isfinite(want)
            if (dryn & ~dry).any():
                SIM.probe('naturally_dry')
            want = np.where(amb, np.nan, want)
        got = gz.ravel()
        for k in range(len(P)):
            v = got[k]
            if dry[k]:
                if np.isfinite(v):
                    raise Violation('dry-shown', '%s: the dry node (%r, %r) is shown as %r' % (who, P[k, 0], P[k, 1], v))
            elif m['what'] == 'head' and not np.isfinite(want[k]):
                if np.isfinite(v) and not amb[k]:
                    raise Violation('dry-shown', '%s: node (%r, %r) has potential %r but is shown as %r' % (who, P[k, 0], P[k, 1], pot[k], v))
            elif not np.isfinite(want[k]):
                if np.isfinite(v):
                    raise Violation('dry-shown', '%s: the node (%r, %r) is exactly at a well and is shown as %r' % (who, P[k, 0], P[k, 1], v))
                SIM.probe('node_at_well')
                continue
            elif not np.isfinite(v):
                raise Violation('blank', '%s: node (%r, %r) is computable (%r) but left blank' % (who, P[k, 0], P[k, 1], want[k]))
            elif abs(v - want[k]) > slack[k]:
                raise Violation('wrong-value', '%s: node (%r, %r) shows %r, should be %r' % (who, P[k, 0], P[k, 1], v, want[k]))
        shown = np.isfinite(got).sum()
        SIM.probe(m['what'])
        SIM.probe('all_dry' if shown == 0 else 'none_dry' if shown == len(P) else 'some_dry')
        if dry.any():
            SIM.probe('injected')
        if 0 < shown < len(P):
            ctx.nontrivial = True
        ctx.log_array(np.nan_to_num(got, nan=-1e99))
        ctx.count('nodes', len(P))
    ctx.sample = dict(maps=[(m['what'], m['nr'], m['nc'], [x['kind'] for x in m['faults']]) for m in sc['maps']])


def simplify(sc):
    f = sc['flow']
    if len(f['wells']) > 1:
        yield dict(sc, flow=dict(f, wells=f['wells'][:1]))
    for i, m in enumerate(sc['maps']):
        if m['nr'] * m['nc'] > 4:
            ms = list(sc['maps'])
            ms[i] = dict(m, nr=2, nc=2)
            yield dict(sc, maps=ms)
