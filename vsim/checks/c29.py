"""C29: at every point a run evaluates, the flow is that of the realization's own model."""
import logging
import math

import numpy as np

from ..core import SIM, Violation, LineInterrupter
from ..flows import make_error
from ..project import shorten, gen_project, run_stochastic, run_deterministic, model_of, support
from ..ref import ref_fit

PROP = 'C29'
RUNS = {'quick': 1100, 'thorough': 15000}
RULE = ('each run is one stochastic or deterministic run, with draws forced to the ends of their ranges in some, in an aquifer that is confined, unconfined, near the transition or nearly dry, with ordinary '
        'errors raised at seeded lines within seeded flow evaluations; every potential, head, discharge and velocity the models give - in the run, and to a host that afterwards queries, refits and queries '
        'the models again at wet, dry and transitional points - is compared with an independent model of the same parameters, within bounds that follow from rounding; non-trivial: at least 100 evaluations of '
        'at least one model compared')
REAL = ['oneka.model', 'oneka.stochastic', 'oneka.deterministic', 'oneka.capturezone', 'oneka.probabilityfield']
STUBS = ['randomness (seeded streams, extreme draws)', 'clock', 'errors at lines of a flow evaluation']
LISTS = (('cfg', 'observations'), ('cfg', 'wells'), ('faults',), ('host',))
MINLEN = {('cfg', 'observations'): 8, ('cfg', 'wells'): 3}
PROBES = ('confined', 'unconfined', 'regime_confined', 'regime_unconfined', 'both_regimes', 'dry_point', 'near_transition', 'error_within', 'after_error', 'stochastic', 'deterministic', 'extreme',
          'refitted', 'coef_set', 'host_dry', 'far_origin', 'several_wells')
QUERIES = ('compute_potential', 'compute_potential_wells_only', 'compute_discharge', 'compute_head', 'compute_velocity', 'compute_velocity_confined')


def gen(rng, tier, i):
    cfg = gen_project(rng, nreal=rng.choice([1, 2, 3]), dry=0.35, confined=rng.random() < 0.3, fine=False)
    shorten(cfg, 25)
    r = rng.random()
    if r < 0.35:
        # heads about the top of the aquifer
        t = sum(support(cfg['t_dist'])) / 2
        m = sum(o[2] for o in cfg['observations']) / len(cfg['observations'])
        for o in cfg['observations']:
            o[2] = round(cfg['base'] + max(o[2] - m + t * rng.uniform(0.97, 1.06), 0.1 * t), 3)
    elif r < 0.5:
        f = rng.uniform(0.08, 0.3)
        for o in cfg['observations']:
            o[2] = round(cfg['base'] + max((o[2] - cfg['base']) * f, 0.5), 3)
            o[3] = min(o[3], 0.1)
    return dict(cfg=cfg, det=rng.random() < 0.25, extreme=rng.choice([0, 0, 0, 0.3, 1.0]),
                faults=[dict(at=rng.random(), line=rng.randrange(1, 45), what=rng.choice(['ValueError', 'ZeroDivisionError', 'OverflowError', 'AquiferError'])) for _ in range(rng.choice([0, 1, 2, 4]))],
                host=[dict(what=rng.choice(['query', 'query', 'refit', 'coef', 'sink', 'level']), s=rng.getrandbits(32)) for _ in range(rng.choice([1, 2, 4]))])


# ------------------------------------------------------------------------------------------ the oracle
class Judge:
    """What a model of these parameters may answer at (x, y)."""

    EPS = 4e-10

    def __init__(self, key):
        self.key = key
        self.m = model_of(key)

    def bounds(self, x, y):
        m = self.m
        A, B, C, D, E, F = m.coef
        X, Y = x - m.xo, y - m.yo
        dx, dy = x - m.wells[:, 0], y - m.wells[:, 1]
        r = np.hypot(dx, dy)
        if not (r > 0).all():
            return None
        q = m.wells[:, 3] / (2 * math.pi)
        # coordinates are known to a rounding error only
        ulp = 2e-16 * max(abs(x), abs(y), 1.0)
        self.slack = 3 * ulp / r.min()
        sp = sum(abs(v) for v in (A * X * X, B * Y * Y, C * X * Y, D * X, E * Y, F)) + np.abs(q * np.log(r)).sum() + np.abs(q).sum()
        sq = abs(2 * A * X) + abs(C * Y) + abs(D) + abs(2 * B * Y) + abs(C * X) + abs(E) + np.abs(q / r).sum()
        self.dp = (self.EPS + self.slack) * sp + 1e-300
        self.dq = (self.EPS + self.slack) * sq + 1e-300
        self.p = float(m.potential(x, y))
        self.pw = float(m.wells_potential(x, y))
        self.dw = (self.EPS + self.slack) * (np.abs(q * np.log(r)).sum() + np.abs(q).sum()) + 1e-300
        self.q = [float(v) for v in m.discharge(x, y)]
        return self

    def head(self, p):
        m = self.m
        if p <= 0:
            return 0.0
        if p < 0.5 * m.k * m.T ** 2:
            return math.sqrt(2 * p / m.k)
        return p / (m.k * m.T) + 0.5 * m.T

    def check(self, name, x, y, res, who):
        if self.bounds(x, y) is None:
            return None
        m = self.m

        def wrong(want):
            got = 'raised %r' % (res[1],) if res[0] == 'raised' else 'gave %r' % (res[1],)
            raise Violation('wrong-' + name[8:], '%s: %s(%r, %r) of the model with base %r, k %r, n %r, T %r, origin (%r, %r), coef %r, wells %r %s; %s' % ((who, name, x, y) + self.key + (got, want)))
        hi, lo = self.head(self.p + self.dp), self.head(self.p - self.dp)
        wet, dry = self.p - self.dp > 0, self.p + self.dp <= 0
        if name in ('compute_head', 'compute_velocity'):
            if dry:
                if res[0] != 'raised':
                    wrong('the potential there is %r: the point is dry' % self.p)
                return 'dry'
            if res[0] == 'raised':
                if wet:
                    wrong('the potential there is %r' % self.p)
                return 'edge'
        elif res[0] == 'raised':
            wrong('an answer exists')
        v = res[1]
        if name == 'compute_potential':
            if not abs(float(v) - self.p) <= self.dp:
                wrong('the potential is %r' % self.p)
        elif name == 'compute_potential_wells_only':
            if not abs(float(v) - self.pw) <= self.dw:
                wrong('the potential of the wells is %r' % self.pw)
        elif name == 'compute_discharge':
            if not all(abs(float(a) - b) <= self.dq for a, b in zip(v, self.q)) or len(v) != 2:
                wrong('the discharge is %r' % self.q)
        elif name == 'compute_head':
            if not lo * (1 - 1e-9) <= float(v) <= hi * (1 + 1e-9):
                wrong('the head is %r' % self.head(self.p))
        else:
            h0, h1 = (m.T, m.T) if name == 'compute_velocity_confined' else (min(lo, m.T), min(hi, m.T))
            for a, q in zip(v, self.q):
                w = [f / (m.n * h) for f in (q - self.dq, q + self.dq) for h in (h0 * (1 - 1e-9), h1 * (1 + 1e-9)) if h > 0]
                if h0 > 0 and not min(w) <= float(a) <= max(w):
                    wrong('the velocity is %r' % [f / (m.n * (m.T if name == 'compute_velocity_confined' else min(self.head(self.p), m.T))) for f in self.q])
        return 'confined' if self.p >= 0.5 * m.k * m.T ** 2 else 'unconfined'


def key_of(mo):
    return (float(mo.base), float(mo.conductivity), float(mo.porosity), float(mo.thickness), float(mo.xo), float(mo.yo),
            tuple(float(c) for c in mo.coef), tuple(tuple(float(v) for v in w[:4]) for w in mo.wells))


class Watch:
    """Judges what every model answers while the run goes on; raises errors within chosen evaluations."""

    def __init__(self, ctx, faults=(), judge=True):
        self.ctx = ctx
        self.judges = {}
        self.models = []
        self.depth = 0
        self.n = 0              # outermost evaluations
        self.vel = 0            # of these, of the velocity
        self.seen = {}
        self.faults = dict(faults)
        self.errored = False
        self.judge = judge
        self.points = {}
        self.compared = 0
        self.regimes = set()

    def judge_for(self, mo):
        k = key_of(mo)
        j = self.judges.get(k)
        if j is None:
            j = self.judges[k] = Judge(k)
            if not any(m is mo for m in self.models):
                self.models.append(mo)
        return j

    def __enter__(self):
        from oneka.model import Model
        self.saved = {n: Model.__dict__[n] for n in QUERIES if n in Model.__dict__}
        w = self

        def wrap(name, f):
            def g(mo, x, y):
                if w.depth:
                    return f(mo, x, y)
                w.n += 1
                fault = None
                if name.startswith('compute_velocity'):
                    w.vel += 1
                    fault = w.faults.pop(w.vel, None)
                w.depth += 1
                try:
                    if fault:
                        w.errored = True
                        SIM.fire('error_in_evaluation')
                        SIM.probe('error_within')
                        li = LineInterrupter(fault[0], fault[1])
                        return li.run(lambda: f(mo, x, y))
                    k = w.n
                    if not w.judge:
                        return f(mo, x, y)
                    try:
                        res = 'ok', f(mo, x, y)
                    except Violation:
                        raise
                    except Exception as e:      # noqa
                        res = 'raised', e
                    j = w.judge_for(mo)
                    c = w.seen[id(mo)] = w.seen.get(id(mo), 0) + 1
                    # the first evaluations of each model, those after an error, and a share of the others
                    if c < 60 or k % 7 == 0 or res[0] == 'raised' or w.errored and k % 2:
                        kind = j.check(name, float(x), float(y), res, 'evaluation %d' % k)
                        w.compared += 1
                        if kind in ('confined', 'unconfined'):
                            w.regimes.add(kind)
                        if w.errored:
                            SIM.probe('after_error')
                        if kind == 'dry':
                            SIM.probe('dry_point')
                        if c % 40 == 1:
                            w.points.setdefault(id(mo), []).append((float(x), float(y)))
                    if res[0] == 'raised':
                        raise res[1]
                    return res[1]
                finally:
                    w.depth -= 1
                    SIM.interrupted = False
            return g
        for n, f in self.saved.items():
            setattr(Model, n, wrap(n, f))
        return self

    def __exit__(self, *a):
        from oneka.model import Model
        for n, f in self.saved.items():
            setattr(Model, n, f)


def ask(mo, name, x, y, who, judge):
    try:
        res = 'ok', getattr(mo, name)(x, y)
    except Exception as e:      # noqa
        res = 'raised', e
    return judge.check(name, x, y, res, who)


def run(sc, ctx):
    import random
    cfg = sc['cfg']
    logging.getLogger('Oneka').setLevel(logging.CRITICAL)
    go = run_deterministic if sc['det'] else run_stochastic
    SIM.extreme_p = sc['extreme']
    plan = {}
    if sc['faults']:
        # how many evaluations there are: from a run of the same draws
        from ..sub import in_child

        def trial():
            with Watch(ctx, judge=False) as w:
                go(cfg)
            return w.vel
        total = in_child(trial)
        for f in sc['faults']:
            plan[1 + int(f['at'] * total)] = (f['line'], make_error(f['what']))
    with Watch(ctx, plan) as w:
        pf = go(cfg)
    SIM.simtime += abs(cfg['duration']) * cfg['nrealizations']
    SIM.probe('deterministic' if sc['det'] else 'stochastic')
    SIM.probe('confined' if cfg['confined'] else 'unconfined')
    if sc['extreme']:
        SIM.probe('extreme')
    if abs(cfg['wells'][cfg['target']][0]) > 1e5:
        SIM.probe('far_origin')
    if len(cfg['wells']) > 1:
        SIM.probe('several_wells')
    for g in w.regimes:
        SIM.probe('regime_' + g)
    if len(w.regimes) == 2:
        SIM.probe('both_regimes')
    # a host goes on with the models
    asked = 0
    for n, h in enumerate(sc['host']):
        rng = random.Random(h['s'])
        if not w.models:
            break
        mo = rng.choice(w.models)
        who = 'step %d of the host (%s)' % (n, h['what'])
        xt, yt = cfg['wells'][cfg['target']][:2]
        if h['what'] == 'refit':
            obs = [(o[0], o[1], o[2] + rng.uniform(-0.2, 0.2), o[3]) for o in cfg['observations']]
            rng.shuffle(obs)
            at = (xt + rng.uniform(-200, 200), yt + rng.uniform(-200, 200))
            k = key_of(mo)
            ev, cov = mo.fit_regional_flow(obs, *at)
            ev = np.asarray(ev, float).reshape(-1)
            mo.coef = ev
            # the new fit is about the new origin, with the parameters as they are
            rel = [(o[0] - at[0], o[1] - at[1], o[2], o[3]) for o in obs]
            rev, rcov = ref_fit(k[0], k[1], k[3], [(v[0] - at[0], v[1] - at[1], v[2], v[3]) for v in k[7]], rel, 0.0, 0.0)
            sd = np.sqrt(np.diag(rcov))
            C = rcov / np.outer(sd, sd)
            z = np.linalg.solve(np.linalg.cholesky(C), (ev - rev) / sd)
            if not (np.abs(z) < 0.02).all():
                raise Violation('wrong-fit', '%s: fitted %r about %r, the fit is %r' % (who, ev.tolist(), at, rev.tolist()))
            if key_of(mo)[:6] != k[:4] + at or key_of(mo)[7] != k[7]:
                raise Violation('wrong-fit', '%s: fitting about %r left the model at %r, before it was %r' % (who, at, key_of(mo), k))
            SIM.probe('refitted')
        elif h['what'] in ('coef', 'sink', 'level'):
            c = np.array(mo.coef, float)
            if h['what'] == 'coef':
                c = c * [rng.uniform(0.5, 2) for _ in c]
            elif h['what'] == 'sink':
                c[5] -= abs(c[5]) * rng.uniform(0.2, 1.5)
            else:
                # the transition passes through the neighbourhood
                pts = w.points.get(id(mo)) or [(xt + 50.0, yt)]
                p = rng.choice(pts)
                c[5] += 0.5 * mo.conductivity * mo.thickness ** 2 * rng.choice([1.0, 1.0, 1 + 1e-6, 1 - 1e-6]) - float(model_of(key_of(mo)).potential(*p))
                SIM.probe('near_transition')
            mo.coef = c if rng.random() < 0.5 else c.reshape(6, 1)
            SIM.probe('coef_set')
        j = Judge(key_of(mo))
        pts = [(xt + rng.uniform(-1, 1) * s, yt + rng.uniform(-1, 1) * s) for s in (2, 30, 300, 3000, 30, 30000) for _ in range(4)]
        pts += rng.sample(w.points.get(id(mo), []), min(8, len(w.points.get(id(mo), []))))
        for x, y in pts:
            for name in rng.sample(QUERIES, 4) + ['compute_velocity']:
                if ask(mo, name, x, y, who, j) == 'dry':
                    SIM.probe('host_dry')
                asked += 1
        if key_of(mo) != j.key:
            raise Violation('model-changed', '%s: queries changed the model from %r to %r' % (who, j.key, key_of(mo)))
    ctx.nontrivial = w.compared >= 100
    ctx.count('evaluations', w.n)
    ctx.count('compared', w.compared + asked)
    ctx.count('models', len(w.models))
    ctx.log(w.n, w.compared, asked, [m.coef.tolist() for m in w.models])
    ctx.log_array(np.asarray(pf.pgrid, float).ravel())
    ctx.sample = dict(det=sc['det'], extreme=sc['extreme'], faults=[(f['what'], f['line']) for f in sc['faults']], host=[h['what'] for h in sc['host']], evaluations=w.n)


def simplify(sc):
    cfg = sc['cfg']
    for k, v in (('npaths', 1), ('nrealizations', 1), ('listy', False), ('confined', True), ('duration', math.copysign(5.0, cfg['duration']))):
        if cfg[k] != v:
            yield dict(sc, cfg=dict(cfg, **{k: v}))
    if len(cfg['wells']) > 1:
        t = cfg['wells'][cfg['target']]
        yield dict(sc, cfg=dict(cfg, wells=[t], target=0))
    if sc['extreme']:
        yield dict(sc, extreme=0)
