"""Random well-field projects, ways of running them, and the reference for what they must compute."""
import math
import resource

import numpy as np

from .core import SIM, Violation
from .ref import RefModel, ref_fit, Bundle, raster_band


# ------------------------------------------------------------------------------------------ generation
def gen_dist(rng, lo, hi, kinds=('const', 'uniform', 'tri', 'tri'), degenerate=0.05, nd=4):
    k = rng.choice(kinds)
    a, b = sorted([rng.uniform(lo, hi), rng.uniform(lo, hi)])
    m = rng.uniform(a, b)
    r = rng.random()
    if r < degenerate:
        b = m = a
    elif r < 2 * degenerate:
        m = rng.choice([a, b])
    a, m, b = round(a, nd), round(m, nd), round(b, nd)
    m = min(max(a, m), b)
    return {'const': a, 'uniform': [a, b], 'tri': [a, m, b]}[k]


ODD = ['', '', '', '100% of %s', 'wells 3/4', '{0} and {x}', 'C:\\data\\2020', '../above', 'Forêt №7', 'a:b*c?', "O'Neill \"north\"", 'x' * 180, ' spaced  ', 'tab\there', '%(name)s', 'None', '.log.bz2', '~/home', '$HOME']


def odd_name(rng):
    """What users call their projects."""
    return rng.choice(ODD)


def whole(d):
    """The same distribution between whole numbers of the same sign, where there are such."""
    v = [round(x) for x in (d if isinstance(d, list) else [d])]
    if any((a > 0) != (b > 0) or (a < 0) != (b < 0) for a, b in zip(v, d if isinstance(d, list) else [d])):
        return d
    return v if isinstance(d, list) else v[0]


def gen_project(rng, nreal=None, confined=None, spread=1.0, big=False, dry=0.25, fine=True, kinds=('const', 'uniform', 'tri', 'tri'), nobs=None, forward=0.12):
    """A small project: quick to trace, with everything a real one has."""
    x0, y0 = rng.choice([(0.0, 0.0), (round(rng.uniform(-5e3, 5e3), 2), round(rng.uniform(-5e3, 5e3), 2)),
                         (round(rng.uniform(2e5, 7e5), 1), round(rng.uniform(4.8e6, 5.4e6), 1))])
    nw = rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else rng.choice([4, 6, 9])
    target = rng.randrange(nw)
    T = rng.uniform(8, 30)
    k = rng.uniform(5, 60)
    n = rng.uniform(0.15, 0.3)
    brief = 1.0
    if rng.random() < 0.15:
        # less usual aquifers
        for what in rng.sample('knTf', rng.choice([1, 1, 2])):
            if what == 'k':
                k = rng.choice([10 ** rng.uniform(-0.7, 0.5), rng.uniform(100, 350)])
            elif what == 'n':
                n = rng.uniform(0.35, 0.9)
            elif what == 'T':
                T = rng.choice([rng.uniform(3, 7), rng.uniform(40, 110)])
            else:
                n = rng.uniform(0.02, 0.08)
        brief = min(1.0, n / 0.15)
    kd = gen_dist(rng, k * (1 - 0.3 * spread), k * (1 + 0.3 * spread), kinds)
    pd = gen_dist(rng, n * (1 - 0.3 * spread), min(0.98 if n > 0.35 else 0.6, n * (1 + 0.3 * spread)), kinds)
    td = gen_dist(rng, T * (1 - 0.3 * spread), T * (1 + 0.3 * spread), kinds)
    base = round(rng.uniform(-20, 250), 2)
    if confined is None:
        confined = rng.random() < 0.5
    wells = []
    for i in range(nw):
        # an injection well stays far away: a particle traced back into one circles its singularity for ever smaller steps
        inject = i != target and rng.random() < 0.15
        idle = i != target and rng.random() < 0.08
        while True:
            d, th = (0.0, 0.0) if i == target else (rng.uniform(450 if inject or idle else rng.choice([65, 80, 80]), rng.choice([100, 600, 600, 600]) if not (inject or idle) and i < 3 else 600), rng.uniform(0, 2 * math.pi))
            xw, yw = round(x0 + d * math.cos(th), 2), round(y0 + d * math.sin(th), 2)
            if all(math.hypot(xw - w[0], yw - w[1]) > 60 for w in wells):
                break
        q = rng.uniform(150, 900)
        qd = gen_dist(rng, q * (1 - 0.3 * spread), q * (1 + 0.3 * spread), kinds)
        if inject:
            qd = round(-q, 2)                       # an injection well
        if idle:
            qd = rng.choice([0, 0.0, 0.4, -0.7, [0.2, 0.5, 0.9], round(q / 1000, 4), [0.0, round(q, 2)], [0.0, 0.0, round(q, 2)], [round(-q / 2, 2), round(q / 2, 2)], [round(-q / 2, 2), 0.0, round(q / 2, 2)]])
        wells.append([xw, yw, rng.choice([0.25, 0.5, 1.0]), qd])
    if rng.random() < 0.3:
        # inputs that share one declaration must still be drawn one by one
        for w in wells[1:]:
            if rng.random() < 0.7 and not (isinstance(w[3], (int, float)) and w[3] <= 0) and isinstance(wells[0][3], list) and wells[0][3][0] > 0:
                w[3] = list(wells[0][3])
        if rng.random() < 0.5 and isinstance(td, list):
            kd = list(td)
    if rng.random() < 0.12:
        # whole numbers
        kd, td = whole(kd), whole(td)
        for w in wells:
            w[3] = whole(w[3])
    # heads from a plausible regional flow: confined or not at the observations
    gx, gy = rng.uniform(-4e-3, 4e-3), rng.uniform(-4e-3, 4e-3)
    curv = rng.uniform(-3e-7, 3e-7)
    level = rng.uniform(1.1, 2.0) * T if rng.random() > dry else rng.uniform(0.35, 0.8) * T
    obs = []
    no = nobs or (rng.choice([8, 10, 14]) if rng.random() < 0.92 else rng.choice([9, 23, 40, 75, 120]))
    for j in range(no):
        th = 2 * math.pi * (j + rng.uniform(-0.3, 0.3)) / no
        d = rng.uniform(250, 1500)
        dx, dy = d * math.cos(th), d * math.sin(th)
        h = base + level + gx * dx + gy * dy + curv * (dx * dx - 0.5 * dy * dy) + rng.gauss(0, 0.05)
        h = max(h, base + 0.2 * T)
        obs.append([round(x0 + dx, 2), round(y0 + dy, 2), round(h, 3), round(10 ** rng.uniform(-2, 0), 4)])
    spacing = rng.choice([2, 3.0, 4, 5.0]) if not big else 10
    buffer = rng.choice([50, 100.0]) if rng.random() < 0.9 else rng.choice([15.5, 30])
    # enough observations must be left once those near a well are set aside
    def clear(o):
        return all(math.hypot(o[0] - w[0], o[1] - w[1]) > buffer + 1 for w in wells)
    while sum(map(clear, obs)) < 8:
        o = next(o for o in obs if not clear(o))
        th, d = rng.uniform(0, 2 * math.pi), rng.uniform(600, 1600)
        o[:2] = round(x0 + d * math.cos(th), 2), round(y0 + d * math.sin(th), 2)
    if rng.random() < forward:
        # traced forward in time from an injection well: every well pumps the other way
        sign = -1
        for w in wells:
            w[3] = [-q for q in w[3][::-1]] if isinstance(w[3], list) else -w[3]
    else:
        sign = 1
    npaths, duration = rng.choice([1, 2, 3, 4, 6]) if rng.random() < 0.94 else rng.choice([5, 8, 9, 16]), round(rng.uniform(5, 60) * brief, 2)
    if fine and rng.random() < 0.05:
        duration = round(rng.uniform(100, 400) * brief, 1)
    elif rng.random() < 0.01:
        npaths, duration = rng.choice([40, 70, 130]), round(rng.uniform(1, 3) * brief, 2)
    return dict(target=target, npaths=npaths, duration=sign * duration,
                nrealizations=nreal or rng.choice([2, 3, 5]), base=base, c_dist=kd, p_dist=pd, t_dist=td, wells=wells, observations=obs,
                buffer=buffer, spacing=spacing, umbra=spacing * (rng.choice([1, 1.0, 1.5, 2]) if rng.random() < 0.92 else rng.choice([0.3, 0.6, 3.1])), smooth=rng.choice([0, 0, 1, 0.7]) if rng.random() < 0.93 else rng.choice([0.2, 2.5, 5]),
                confined=confined, tol=(10 ** rng.uniform(-5, -4) if fine else rng.choice([0.01, 0.1, 1])),
                maxstep=rng.choice([2.0, 4, 5.0]) if fine else rng.choice([5, 10]), listy=rng.random() < 0.3)


def shorten(cfg, d):
    cfg['duration'] = math.copysign(min(abs(cfg['duration']), d), cfg['duration'])


def gen_variant(rng, cfg):
    """The same project but for one or two arguments."""
    import copy
    v = copy.deepcopy(cfg)
    def scale(d, f):
        return [x * f for x in d] if isinstance(d, list) else d * f
    for what in rng.sample(['c_dist', 'p_dist', 't_dist', 'base', 'target', 'npaths', 'duration', 'confined', 'tol', 'maxstep', 'spacing', 'umbra', 'well', 'head', 'std', 'radius'],
                           rng.choice([1, 1, 2])):
        if what in ('c_dist', 't_dist', 'duration', 'tol', 'maxstep'):
            v[what] = scale(v[what], rng.choice([0.7, 1.3]))
        elif what == 'p_dist':
            v[what] = scale(v[what], 0.8)
        elif what == 'base':
            v['base'] -= 0.7
        elif what == 'target':
            v['target'] = (v['target'] + 1) % len(v['wells'])
            w = v['wells'][v['target']][3]
            if ((w[0] if isinstance(w, list) else w) < 0) != (cfg['duration'] < 0):
                v['target'] = cfg['target']
        elif what == 'npaths':
            v['npaths'] += 1
        elif what == 'confined':
            v['confined'] = not v['confined']
        elif what in ('spacing', 'umbra'):
            v[what] = v[what] * 1.5
        elif what == 'well':
            w = rng.choice(v['wells'])
            w[3] = scale(w[3], 1.2)
        elif what == 'radius':
            rng.choice(v['wells'])[2] += 0.5
        elif what == 'head':
            rng.choice(v['observations'])[2] += 0.3
        elif what == 'std':
            rng.choice(v['observations'])[3] *= 3
    return v


def tup(d, listy=False):
    return (list(d) if listy else tuple(d)) if isinstance(d, list) else d


def well_list(cfg):
    li = cfg.get('listy')
    return [(list if li else tuple)((w[0], w[1], w[2], tup(w[3], li))) for w in cfg['wells']]


def obs_list(cfg):
    return [list(o) if cfg.get('listy') else tuple(o) for o in cfg['observations']]


def stochastic_args(cfg):
    li = cfg.get('listy')
    return (cfg['target'], cfg['npaths'], cfg['duration'], cfg['nrealizations'], cfg['base'], tup(cfg['c_dist'], li), tup(cfg['p_dist'], li),
            tup(cfg['t_dist'], li), well_list(cfg), obs_list(cfg), cfg['spacing'], cfg['umbra'], cfg['confined'], cfg['tol'], cfg['maxstep'])


def deterministic_args(cfg):
    a = stochastic_args(cfg)
    return a[:3] + a[4:]


def oneka_args(cfg, name='simulated', runtime='Sat Jul 25 12:00:00 2020'):
    li = cfg.get('listy')
    return (name, runtime, cfg['target'], cfg['npaths'], cfg['duration'], cfg['nrealizations'], cfg['base'], tup(cfg['c_dist'], li),
            tup(cfg['p_dist'], li), tup(cfg['t_dist'], li), well_list(cfg), obs_list(cfg), cfg['buffer'], cfg['spacing'], cfg['umbra'],
            cfg['smooth'], cfg['confined'], cfg['tol'], cfg['maxstep'])


ARG_NAMES = ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist',
             'stochastic_wells', 'observations', 'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')


def run_stochastic(cfg):
    from oneka.stochastic import create_stochastic_capturezone
    return create_stochastic_capturezone(*stochastic_args(cfg))


def run_deterministic(cfg):
    from oneka.deterministic import create_deterministic_capturezone
    return create_deterministic_capturezone(*deterministic_args(cfg))


def mean_of(d):
    return sum(d) / len(d) if isinstance(d, (list, tuple)) else d


def support(d):
    return (d[0], d[-1]) if isinstance(d, (list, tuple)) else (d, d)


# ------------------------------------------------------------------------------------------ observing models
class ModelSpy:
    """Notes the parameters of every model whose flow is evaluated, in order of first use (per task)."""

    NAMES = ('compute_velocity', 'compute_velocity_confined', 'compute_discharge')

    def __init__(self, on_new=None):
        self.keys = {}          # task -> list of keys in order
        self.last = {}
        self.calls = 0
        self.on_new = on_new

    def note(self, mo):
        key = (float(mo.base), float(mo.conductivity), float(mo.porosity), float(mo.thickness), float(mo.xo), float(mo.yo),
               tuple(float(c) for c in mo.coef), tuple(tuple(float(v) for v in w[:4]) for w in mo.wells))
        t = SIM.task
        self.calls += 1
        if self.last.get(t) != key:
            self.last[t] = key
            self.keys.setdefault(t, []).append(key)
            if self.on_new:
                self.on_new(len(self.keys[t]) - 1, key)

    def __enter__(self):
        from oneka.model import Model
        self.saved = {n: Model.__dict__.get(n) for n in self.NAMES}
        spy = self

        def wrap(f):
            def g(self, *a, **k):
                spy.note(self)
                return f(self, *a, **k)
            return g
        for n, f in self.saved.items():
            if f is not None:
                setattr(Model, n, wrap(f))
        return self

    def __exit__(self, *a):
        from oneka.model import Model
        for n, f in self.saved.items():
            if f is not None:
                setattr(Model, n, f)


def model_of(key):
    base, k, n, T, xo, yo, coef, wells = key
    return RefModel(base, k, n, T, wells, xo, yo, coef)


# ------------------------------------------------------------------------------------------ reference zone
def lattice(cfg, pf):
    """Node coordinates of the returned field, taken from the project's own lattice (anchored at the target)."""
    xt, yt = cfg['wells'][cfg['target']][:2]
    s = cfg['spacing']
    cx, cy = (pf.xmin - xt) / s, (pf.ymin - yt) / s
    if abs(cx - round(cx)) > 1e-4 or abs(cy - round(cy)) > 1e-4:
        raise Violation('lattice-moved', 'grid origin (%r, %r) is off the lattice through the target well' % (pf.xmin, pf.ymin))
    X, Y = np.meshgrid(xt + s * (round(cx) + np.arange(pf.ncols)), yt + s * (round(cy) + np.arange(pf.nrows)))
    return np.stack([X.ravel(), Y.ravel()], 1)


def starts_of(cfg):
    x, y, r = cfg['wells'][cfg['target']][:3]
    th = 2 * math.pi * np.arange(cfg['npaths']) / cfg['npaths']
    return np.stack([x + (r + 1) * np.cos(th), y + (r + 1) * np.sin(th)], 1)


def own_time(seconds=90):
    """The reference may take long; the limit on processor time is meant for the code under test."""
    u = resource.getrusage(resource.RUSAGE_SELF)
    soft, hard = resource.getrlimit(resource.RLIMIT_CPU)
    t = int(u.ru_utime + u.ru_stime) + seconds
    if 0 < soft < t <= hard:
        resource.setrlimit(resource.RLIMIT_CPU, (t, hard))


def zone_band(model, cfg, P):
    """(surely, possibly) captured nodes of one realization, from high-accuracy reference paths.

    The reference works in coordinates relative to the target well to keep full precision at UTM coordinates."""
    own_time()
    xt, yt = cfg['wells'][cfg['target']][:2]
    conf = cfg['confined']

    def vel(x, y):
        vx, vy = model.velocity(x + xt, y + yt, conf)
        return -vx, -vy
    st = starts_of(cfg) - [xt, yt]
    P = P - [xt, yt]
    b = Bundle(vel, st, cfg['duration'], ds=0.25 * cfg['maxstep'])
    sure = np.zeros(len(P), bool)
    may = np.zeros(len(P), bool)
    if not b.ok:
        may[:] = True
        return sure, may, 0
    dried = 0
    for j in range(len(st)):
        xy, amp = b.xy[j], b.amp[j]
        seg = np.hypot(*np.diff(xy, axis=0).T)
        s = np.concatenate([[0], np.cumsum(seg)])
        end = len(xy)
        may_end = end
        if not conf:
            h = model.saturated(xy[:, 0] + xt, xy[:, 1] + yt)
            d = np.nonzero(~np.isfinite(h))[0]
            if len(d):
                dried += 1
                may_end = min(end, d[0] + 2)
                cut = s[d[0]] - 2.5 * cfg['maxstep'] - 0.01
                end = int(np.searchsorted(s, cut))
        # how far a chord of one step can lie off the path
        half = 0.5 * cfg['maxstep']
        lo = np.interp(s - half, s, np.arange(len(s)))
        hi = np.interp(s + half, s, np.arange(len(s)))
        li, hi_ = lo.astype(int), np.ceil(hi).astype(int)
        A, B = xy[li], xy[hi_]
        d = B - A
        L = np.hypot(*d.T)
        sag = np.abs(d[:, 0] * (xy[:, 1] - A[:, 1]) - d[:, 1] * (xy[:, 0] - A[:, 0])) / np.maximum(L, 1e-9)
        nst = s[-1] / cfg['maxstep'] + 20
        eps = 1.5 * sag.max() + amp * cfg['tol'] * (nst + 40) + 1e-6 + 0.01
        if end >= 2:
            su, _ = raster_band(P, xy[:end], eps[:end], cfg['umbra'])
            sure |= su
        if may_end >= 2:
            _, ma = raster_band(P, xy[:may_end], eps[:may_end], cfg['umbra'])
            may |= ma
        # a path that dries out at once may still mark its surroundings
        may |= np.hypot(P[:, 0] - st[j, 0], P[:, 1] - st[j, 1]) <= cfg['umbra'] + 0.1
    return sure, may, dried


def zone_reach(models, cfg):
    """Bounding box (relative bounds) all captured nodes must lie inside: for 'outside the grid' checks."""


def coef_check(key, cfg, obs, mvn=None, where='', limit=110):
    """The coefficients must be one draw around the fit to obs made with the realization's own inputs."""
    base, k, n, T, xo, yo, coef, wells = key
    xt, yt = cfg['wells'][cfg['target']][:2]
    if abs(xo - xt) > 1e-9 or abs(yo - yt) > 1e-9:
        raise Violation('wrong-origin', '%s: regional flow is expanded about (%r, %r), not the target well' % (where, xo, yo))
    rel = [(o[0] - xt, o[1] - yt, o[2], o[3]) for o in obs]
    wrel = [(w[0] - xt, w[1] - yt, w[2], w[3]) for w in wells]
    ev, cov = ref_fit(base, k, T, wrel, rel, 0.0, 0.0)
    sd = np.sqrt(np.diag(cov))
    C = cov / np.outer(sd, sd)
    Lc = np.linalg.cholesky(C)

    def white(v):
        return np.linalg.solve(Lc, (np.asarray(v) - ev) / sd)
    z = white(coef)
    if not np.isfinite(z).all() or (z * z).sum() > limit:
        raise Violation('coef-not-from-fit', '%s: regional coefficients %r lie %.1f standard deviations from the fit to the observations %r' %
                        (where, list(coef), math.sqrt((z * z).sum()), ev.tolist()))
    if mvn is not None:
        mean, mcov = mvn[:2]
        zm = white(mean)
        if (np.abs(zm) > 0.02).any():
            raise Violation('fit-mean', '%s: coefficients were drawn around %r, the fit is %r' % (where, mean.tolist(), ev.tolist()))
        # covariance in whitened coordinates must be the identity
        W = np.linalg.solve(Lc, mcov / np.outer(sd, sd))
        W = np.linalg.solve(Lc, W.T)
        if (np.abs(W - np.eye(6)) > 0.02).any():
            raise Violation('fit-covariance', '%s: coefficients were drawn with a covariance other than that of the fit' % where)
    return z
