"""Simulated flow fields: the thing a trace evaluates, behind a seam that can fail at any evaluation."""
import math

import numpy as np

from .core import SIM, SimBudget


def gen_flow(rng, kinds=('uniform', 'shear', 'rotation', 'saddle', 'sine', 'wells', 'wells', 'model', 'model')):
    k = rng.choice(kinds)
    s = 10 ** rng.uniform(-1.5, 1.5)            # speed scale m/d
    u = lambda a, b, n=4: round(rng.uniform(a, b), n)
    if k == 'uniform':
        t = rng.uniform(0, 2 * math.pi)
        return dict(kind=k, a=s * math.cos(t), b=s * math.sin(t))
    if k == 'shear':
        return dict(kind=k, a=s, b=s * u(0.002, 0.05))
    if k == 'rotation':
        return dict(kind=k, w=s * u(0.005, 0.1) * rng.choice([-1, 1]), cx=u(-60, 60), cy=u(-60, 60))
    if k == 'saddle':
        return dict(kind=k, a=s * u(0.002, 0.02), cx=u(-40, 40), cy=u(-40, 40))
    if k == 'sine':
        return dict(kind=k, a=s, b=s * u(0.2, 2), k=u(0.01, 0.15))
    if k == 'wells':
        n = rng.choice([1, 1, 2, 3])
        return dict(kind=k, a=u(-0.3, 0.3), b=u(-0.3, 0.3),
                    wells=[[0.0, 0.0, u(2, 40)]] + [[u(-150, 150), u(-150, 150), u(2, 40)] for _ in range(n - 1)])
    return dict(kind='model', confined=rng.random() < 0.5, k=u(1, 60), n=u(0.1, 0.35), T=u(5, 40),
                wells=[[0.0, 0.0, 0.25, u(200, 1500)]] + [[u(-300, 300), u(-300, 300), 0.25, u(100, 1000)]
                                                          for _ in range(rng.choice([0, 1, 2]))],
                coef=[u(-3e-4, 3e-4, 6), u(-3e-4, 3e-4, 6), u(-2e-4, 2e-4, 6), u(-2, 2), u(-2, 2), 0.0],
                depth=u(0.3, 2.0))


def model_coef(f):
    """Coefficients with the constant term placing the head at `depth` x thickness at the origin's rim."""
    c = list(f['coef'])
    q = sum(w[3] / (2 * math.pi) * math.log(math.hypot(w[0] - 2, w[1]) or 1.0) for w in f['wells'])
    d = f['depth'] * f['T']
    phi = 0.5 * f['k'] * d * d if d < f['T'] else f['k'] * f['T'] * (d - 0.5 * f['T'])
    c[5] = phi - q + 2 * f['k']
    return c


def vector_field(f):
    """Reference velocity: vectorised function (x, y) -> (vx, vy), in the direction the trace integrates."""
    k = f['kind']
    if k == 'uniform':
        return lambda x, y: (f['a'] + 0 * x, f['b'] + 0 * y)
    if k == 'shear':
        return lambda x, y: (f['a'] + f['b'] * y, 0 * y)
    if k == 'rotation':
        return lambda x, y: (-f['w'] * (y - f['cy']), f['w'] * (x - f['cx']))
    if k == 'saddle':
        return lambda x, y: (f['a'] * (x - f['cx']), -f['a'] * (y - f['cy']))
    if k == 'sine':
        return lambda x, y: (f['a'] + 0 * x, f['b'] * np.sin(f['k'] * x))
    if k == 'wells':
        def v(x, y):
            vx, vy = f['a'] + 0 * x, f['b'] + 0 * y
            for wx, wy, q in f['wells']:
                r2 = (x - wx) ** 2 + (y - wy) ** 2
                vx = vx + q * (x - wx) / r2
                vy = vy + q * (y - wy) / r2
            return vx, vy
        return v
    if k == 'model':
        from .ref import RefModel
        m = RefModel(0.0, f['k'], f['n'], f['T'], f['wells'], 0, 0, model_coef(f))

        def vm(x, y):
            vx, vy = m.velocity(x, y, f['confined'])
            return -vx, -vy
        return vm
    raise ValueError(k)


def real_feval(f):
    """The function handed to the code under test."""
    if f['kind'] == 'model':
        from oneka.model import Model
        mo = Model(0.0, f['k'], f['n'], f['T'], [tuple(w) for w in f['wells']], 0.0, 0.0, np.array(model_coef(f)))
        g = mo.compute_velocity_confined if f['confined'] else mo.compute_velocity

        def fe(xy):
            vx, vy = g(xy[0], xy[1])
            return np.array([-vx, -vy])
        return fe
    v = vector_field(f)

    def fe(xy):
        return np.array([float(c) for c in v(np.float64(xy[0]), np.float64(xy[1]))])
    return fe


class CustomFlowError(Exception):
    pass


def make_error(name):
    from oneka.model import AquiferError
    return {'AquiferError': AquiferError('simulated: dry'), 'ZeroDivisionError': ZeroDivisionError('simulated'),
            'FloatingPointError': FloatingPointError('simulated'), 'ValueError': ValueError('simulated'),
            'OverflowError': OverflowError('simulated'), 'LinAlgError': np.linalg.LinAlgError('simulated'),
            'RuntimeError': RuntimeError('simulated'), 'IndexError': IndexError('simulated'),
            'KeyError': KeyError('simulated'), 'TypeError': TypeError('simulated'), 'CustomFlowError': CustomFlowError('simulated'),
            }[name]


ERRORS = ('AquiferError', 'AquiferError', 'AquiferError', 'ZeroDivisionError', 'FloatingPointError', 'ValueError', 'OverflowError',
          'LinAlgError', 'RuntimeError', 'IndexError', 'KeyError', 'TypeError', 'CustomFlowError')


class FlowSeam:
    """feval with a recorder and a fault plan.

    faults: list of dicts  {'at': n, 'what': 'raise'|'nan'|'inf'|..., 'last': k or None (persistent)}
    regions: list of dicts {'x','y','r','what'}: position-dependent failure
    """

    def __init__(self, feval, faults=(), regions=(), budget=400000):
        self.f = feval
        self.faults = faults
        self.regions = regions
        self.n = 0
        self.points = []
        self.hits = []              # evaluation numbers at which something was injected
        self.what = []              # what it was
        self.budget = budget
        self.over = False
        self.after_first = 0

    def inject(self, what, xy):
        self.hits.append(self.n)
        self.what.append(what)
        SIM.fire('flow_' + what)
        if what == 'nan':
            return np.array([np.nan, np.nan])
        if what == 'nan1':
            v = self.f(xy)
            v[0] = np.nan
            return v
        if what == 'inf':
            return np.array([np.inf, -np.inf])
        if what == 'inf1':
            v = self.f(xy)
            v[1] = np.inf
            return v
        if what == 'huge':
            return np.array([1e200, -1e200])
        if what == 'zero':
            return np.array([0.0, 0.0])
        raise make_error(what)

    def __call__(self, xy):
        n = self.n
        self.n += 1
        SIM.work += 1
        if self.n > self.budget:
            self.over = True
            raise SimBudget()
        self.points.append((float(xy[0]), float(xy[1])))
        if self.hits:
            self.after_first += 1
        for ft in self.faults:
            if ft['at'] <= n and (ft.get('last') is None or n < ft['at'] + ft['last']):
                return self.inject(ft['what'], xy)
        for rg in self.regions:
            if (xy[0] - rg['x']) ** 2 + (xy[1] - rg['y']) ** 2 < rg['r'] ** 2:
                return self.inject(rg['what'], xy)
        return self.f(xy)
