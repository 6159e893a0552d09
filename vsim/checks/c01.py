"""C01: a trace is the true flow path, cut only where evaluating the flow fails."""
import logging
import math

import numpy as np
from scipy.integrate import solve_ivp

from ..core import SIM, Violation, ListHandler, SimBudget
from ..flows import gen_flow, vector_field, real_feval, FlowSeam, ERRORS

PROP = 'C01'
RUNS = {'quick': 2500, 'thorough': 15000}
RULE = ('each run traces one particle through a random flow field three ways: without faults (checked against a high-accuracy reference path: '
        'start, per-step error, step length, total travel time), and with flow evaluations failing at several chosen instants (result must be the '
        'exact prefix completed before that instant, plus a warning); non-trivial: at least 5 accepted steps and a failure in mid-trace')
REAL = ['oneka.capturezone.compute_backtrace', 'oneka.model.Model velocity (in half of the model flows)']
STUBS = ['flow evaluation behind a fault-injecting seam']
LISTS = (('faults',), ('flow', 'wells'))
MINLEN = {('flow', 'wells'): 1}
PROBES = ('map_coordinates', 'long_trace', 'rejected_step', 'backward', 'forward', 'cut_at_first', 'cut_mid', 'error_limited', 'length_limited')


def gen(rng, tier, i):
    flow = gen_flow(rng)
    r = rng.choice([1.25, 1.5, 3.0])
    th = rng.uniform(0, 2 * math.pi)
    start = [r * math.cos(th), r * math.sin(th)] if flow['kind'] in ('wells', 'model') else [rng.uniform(-50, 50), rng.uniform(-50, 50)]
    maxstep = rng.choice([0.7, 2.0, 5.0, 10.0, 20.0, 50.0])
    tol = 10 ** rng.uniform(-6, -2) if rng.random() < 0.8 else rng.choice([0.02, 0.05, 0.2])
    reach = rng.choice([2, 10, 40, 120])
    sign = -1 if rng.random() < (0.2 if flow['kind'] in ('wells', 'model') else 0.4) else 1
    if sign < 0 and flow['kind'] in ('wells', 'model'):
        # these run towards a well: a loose tolerance could jump across the singularity
        tol = min(tol, 1e-3)
        while min(math.hypot(start[0] - w[0], start[1] - w[1]) for w in flow['wells']) < 8:
            start = [rng.uniform(-80, 80), rng.uniform(-80, 80)]
    # real projects have map coordinates
    off = rng.choice([[0.0, 0.0]] * 3 + [[302338.0, 5162551.0], [round(rng.uniform(2e5, 8e5), 2), round(rng.uniform(4e6, 6e6), 2)]])
    if rng.random() < 0.007:
        # thousands of steps
        flow = gen_flow(rng, ('uniform', 'rotation', 'sine'))
        n = rng.choice([1300, 2600, 5500, 10500])
        return dict(flow=flow, start=[rng.uniform(-50, 50), rng.uniform(-50, 50)], off=off, maxstep=rng.uniform(200, 400) / n, tol=1e-3, reach=n, sign=sign,
                    faults=[dict(u=rng.choice([0.3, 0.97]), what=rng.choice(ERRORS), last=None)])
    return dict(flow=flow, start=start, off=off, maxstep=maxstep, tol=tol, reach=reach,
                sign=sign,
                faults=[dict(u=rng.random(), what=rng.choice(ERRORS), last=rng.choice([None, None, 1, 2])) for _ in range(3)]
                + [dict(u=0.0, what=rng.choice(ERRORS), last=None)] * (rng.random() < 0.2))


def duration_for(sc):
    """Travel time such that the path is about `reach` maxsteps long (bounded), ending before it nears a well or stagnation."""
    vel = vector_field(sc['flow'])
    L = min(sc['reach'] * sc['maxstep'], 400.0)
    x, y = sc['start']
    t = done = 0.0
    s = sc['sign']
    ws = sc['flow']['wells'] if sc['flow']['kind'] in ('wells', 'model') else []
    first = None
    for _ in range(3000):
        vx, vy = vel(np.float64(x), np.float64(y))
        sp = math.hypot(vx, vy)
        first = first or sp
        near = min([math.hypot(x - w[0], y - w[1]) for w in ws], default=1e9)
        if not math.isfinite(sp) or sp < 1e-3 * first or sp < 1e-4 or (t > 0 and near < 3.0 and s < 0):
            break
        h = min(L / 400, 0.05 * near)
        x, y, t, done = x + s * vx / sp * h, y + s * vy / sp * h, t + h / sp, done + h
        if t > 5000 or done > L:
            break
    if s < 0 and ws:
        t *= 0.8
    return s * max(t, 1e-3)


def trace(sc, duration, faults=()):
    from oneka.capturezone import compute_backtrace
    off = np.array(sc['off'])
    fe = real_feval(sc['flow'])
    seam = FlowSeam((lambda xy: fe(xy - off)) if off.any() else fe, faults, budget=60000 + 40 * sc['reach'])
    h = ListHandler()
    lg = logging.getLogger('Oneka')
    lg.addHandler(h)
    try:
        v = compute_backtrace(sc['start'][0] + sc['off'][0], sc['start'][1] + sc['off'][1], duration, sc['tol'], sc['maxstep'], seam)
    finally:
        lg.removeHandler(h)
    pts = np.array([[float(p[0]), float(p[1])] for p in v]).reshape(-1, 2)
    return pts, seam, [r for r in h.records if r[0] >= logging.WARNING]


def local_check(sc, V, duration, vel, ctx):
    """Each step starts on a vertex and must end on that vertex's flow path, within the tolerance; the times add up."""
    tol = sc['tol']
    rnd = 4 * np.spacing(max(map(abs, sc['off'])))      # what map coordinates cost
    a, b = V[:-1], V[1:]
    ell = np.hypot(*(b - a).T)
    if ell.max(initial=0.0) > sc['maxstep'] * (1 + 1e-9) + rnd:
        raise Violation('step-too-long', 'a step of %r exceeds the step limit %r' % (float(ell.max()), sc['maxstep']))
    s = 1.0 if duration > 0 else -1.0
    sp0 = np.hypot(*vel(a[:, 0], a[:, 1]))
    keep = (ell > 1e-12) & (sp0 > 1e-9)
    if not keep.all():
        raise Violation('stalled', 'a step of zero length in a field that does not stagnate')
    tt = slack = 0.0
    for j in range(0, len(a), 400):
        got = judge(sc, a[j:j + 400], b[j:j + 400], ell[j:j + 400], sp0[j:j + 400], s, vel, rnd, j, ctx)
        if got is None:
            ctx.count('reference_failed')
            return
        tt, slack = tt + got[0], slack + got[1]
    ctx.count('reference_ok')
    slack += 1e-6 * abs(duration)
    ctx.peak('time_error_over_slack', float(abs(tt - abs(duration)) / slack))
    if abs(tt - abs(duration)) > slack:
        raise Violation('travel-time', 'the trace covers a travel time of %.9g instead of %.9g' % (tt, abs(duration)))


def judge(sc, a, b, ell, sp0, s, vel, rnd, first, ctx):
    """Judge the steps a -> b; returns the travel time they cover and how well that is known (None: no reference)."""
    tol = sc['tol']
    m = len(a)
    span = 1.2 * ell + 2 * tol

    def f(sig, u):
        x, y = u[:m], u[m:2 * m]
        vx, vy = vel(x, y)
        sp = np.hypot(vx, vy)
        return np.concatenate([s * span * vx / sp, s * span * vy / sp, span / sp])
    sol = solve(f, np.concatenate([a[:, 0], a[:, 1], np.zeros(m)]), rtol=1e-9, atol=1e-10, dense_output=True)
    if sol is None:
        return None
    sig = np.linspace(0, 1, 241)
    U = sol.sol(sig)
    X, Y, T = U[:m], U[m:2 * m], U[2 * m:]
    # closest approach of b to the sampled path (segments)
    ax, ay, bx, by = X[:, :-1], Y[:, :-1], X[:, 1:], Y[:, 1:]
    dx, dy = bx - ax, by - ay
    L2 = dx * dx + dy * dy
    t = np.clip(((b[:, :1] - ax) * dx + (b[:, 1:] - ay) * dy) / L2, 0, 1)
    d = np.hypot(ax + t * dx - b[:, :1], ay + t * dy - b[:, 1:])
    k = d.argmin(1)
    i = np.arange(m)
    err = d[i, k]
    # the time at closest approach, exact along the reference path
    sk = sig[k] + t[i, k] * (sig[1] - sig[0])
    tau = np.array([sol.sol(sk[j])[2 * m + j] for j in range(m)])
    # what a Dormand-Prince step of that length commits, and what its embedded estimate (the tolerance's yardstick) says
    sag = (span / 240) ** 2 * 0.2 / np.maximum(ell, 1e-9)
    lim = 1.05 * tol + 1e-8 + rnd + 1e-7 * ell + np.minimum(sag, 1e-3 * ell)
    sp1 = np.hypot(*vel(b[:, 0], b[:, 1]))
    slack_t = (tol + 1e-6 * ell) / np.minimum(sp0, sp1)
    # A step may also be the one the embedded pair takes, its own error estimate within the tolerance: the estimate,
    # not the true error, is what a step-size control can see.
    dt, res, est = match(vel, s, a, b, tau, ell, sp1)
    same = (res < 1e-7 * ell + 1e-9 + rnd) & (est < tol * 1.001 + 1e-12 + rnd)
    tau = np.where(same, dt, tau)
    slack_t = np.where(same, 1e-6 * dt + rnd / sp1, slack_t)
    ctx.count('steps_matched', int(same.sum()))
    ctx.count('steps_judged', m)
    ctx.peak('local_error_over_tol', float((err / tol).max()))
    bad = (err > lim) & ~same
    if bad.any():
        j = int(np.where(bad, err, 0).argmax())
        raise Violation('off-path', 'step %d from %r to %r ends %.3g off the flow path through its start (tolerance %.3g)' %
                        (first + j, tuple(a[j]), tuple(b[j]), err[j], tol))
    late = (est > 1.25 * tol) & (res < 1e-6 * ell + 1e-9)
    if late.any():
        j = int(np.where(late, est, 0).argmax())
        raise Violation('tolerance-exceeded', 'step %d from %r over %.6g days has an error estimate of %.3g, tolerance %.3g' %
                        (first + j, tuple(a[j]), dt[j], est[j], tol))
    return tau.sum(), slack_t.sum()


def solve(f, u0, cap=6000, **k):
    n = 0

    def g(t, u):
        nonlocal n
        n += 1
        if n > cap:
            raise ArithmeticError
        return f(t, u)
    try:
        sol = solve_ivp(g, (0, 1), u0, method='DOP853', **k)
    except ArithmeticError:
        return None
    return sol if sol.success and np.isfinite(sol.y).all() else None


BT = [[1/5], [3/40, 9/40], [44/45, -56/15, 32/9], [19372/6561, -25360/2187, 64448/6561, -212/729],
      [9017/3168, -355/33, 46732/5247, 49/176, -5103/18656], [35/384, 0, 500/1113, 125/192, -2187/6784, 11/84]]
BE = [71/57600, 0, -71/16695, 71/1920, -17253/339200, 22/525, -1/40]


def dp_step(vel, sign, a, dt):
    """(end point, embedded error estimate) of one Dormand-Prince step of duration dt from each point of a."""
    d = (sign * dt)[:, None]

    def f(p):
        return np.stack(vel(p[:, 0], p[:, 1]), 1)
    with np.errstate(all='ignore'):
        ks = [f(a)]
        for row in BT:
            y = a + d * sum(c * k for c, k in zip(row, ks))
            ks.append(f(y))
        est = np.abs(d * sum(c * k for c, k in zip(BE, ks))).max(1)
    return y, est


def match(vel, sign, a, b, tau, ell, sp1):
    """The duration for which a Dormand-Prince step from a comes closest to b, the distance left and the error estimate."""
    best = tau.copy()
    y, est = dp_step(vel, sign, a, best)
    res = np.hypot(*(y - b).T)

    def newton(dt):
        nonlocal best, res, est
        for _ in range(25):
            y, e = dp_step(vel, sign, a, dt)
            h = dt * 1e-6
            y2, _ = dp_step(vel, sign, a, dt + h)
            g = (y2 - y) / h[:, None]
            r = np.hypot(*(y - b).T)
            better = r < res
            best, res, est = np.where(better, dt, best), np.where(better, r, res), np.where(better, e, est)
            with np.errstate(all='ignore'):
                step = ((b - y) * g).sum(1) / (g * g).sum(1)
            step = np.clip(np.nan_to_num(step), -0.3 * dt, 0.3 * dt)
            if (np.abs(step) < 1e-13 * dt).all():
                break
            dt = dt + step
    newton(tau)
    open_ = res > 1e-8 * ell + 1e-10
    if open_.any():
        k = np.nonzero(open_)[0]
        base = ell[k] / np.minimum(np.hypot(*vel(a[k, 0], a[k, 1])), sp1[k])
        grid = np.geomspace(0.02, 4.0, 400)
        A = np.repeat(a[k], len(grid), 0)
        D = (base[:, None] * grid[None]).ravel()
        y, _ = dp_step(vel, sign, A, D)
        r = np.hypot(*(y - np.repeat(b[k], len(grid), 0)).T).reshape(len(k), -1)
        r = np.where(np.isfinite(r), r, np.inf)
        start = tau.copy()
        start[k] = base * grid[r.argmin(1)]
        newton(start)
    return best, res, est


def run(sc, ctx):
    duration = duration_for(sc)
    SIM.simtime += abs(duration)
    if any(sc['off']):
        SIM.probe('map_coordinates')
    if sc['reach'] > 1000:
        SIM.probe('long_trace')
    SIM.probe('backward' if duration > 0 else 'forward')
    try:
        V0, seam0, warn0 = trace(sc, duration)
    except SimBudget:
        ctx.count('over_budget')        # whether traces end is C02's business
        return
    ctx.log_array(V0)
    st = [sc['start'][0] + sc['off'][0], sc['start'][1] + sc['off'][1]]
    if len(V0) == 0 or abs(V0[0, 0] - st[0]) > 1e-12 or abs(V0[0, 1] - st[1]) > 1e-12:
        raise Violation('wrong-start', 'trace starts at %r instead of %r' % (V0[:1].tolist(), st))
    if not np.isfinite(V0).all():
        raise Violation('not-finite', 'trace contains non-finite points')
    vel = vector_field(sc['flow'])
    died = len(warn0) > 0
    if died and sc['flow']['kind'] != 'model':
        raise Violation('false-warning', 'a trace through a flow that never fails warned: %r' % (warn0[0],))
    if not died:
        if len(V0) < 2:
            raise Violation('no-path', 'the trace did not leave its start')
        local_check(sc, V0 - sc['off'], duration, vel, ctx)
    # first evaluation at each vertex, in order
    first, last = {}, {}
    for n, p in enumerate(seam0.points):
        first.setdefault(p, n)
        last[p] = n
    try:
        e = [first[(float(p[0]), float(p[1]))] for p in V0]
        e_last = [last[(float(p[0]), float(p[1]))] for p in V0]     # differs where two stages of a step coincide
    except KeyError:
        e = None
    steps = len(V0) - 1
    if e is not None and seam0.n > 6 * steps + 1:
        SIM.probe('rejected_step')
    ell = np.hypot(*np.diff(V0, axis=0).T) if steps else np.zeros(0)
    if steps and (ell[:-1] > 0.7 * sc['maxstep']).any():
        SIM.probe('length_limited')
    if steps > 2 and np.median(ell) < 0.5 * sc['maxstep']:
        SIM.probe('error_limited')
    mid = False
    for ft in sc['faults']:
        n = int(ft['u'] * seam0.n)
        if n >= seam0.n:
            continue
        V1, seam1, warn1 = trace(sc, duration, [dict(at=n, what=ft['what'], last=ft['last'])])
        if not seam1.hits:
            raise Violation('not-repeatable', 'the same trace evaluated the flow differently the second time')
        k = len(V1)
        if k == 0 or k > len(V0) or not np.array_equal(V1, V0[:k]):
            raise Violation('not-a-prefix', 'flow failed (%s) at evaluation %d: the %d returned vertices are not the leading part of the '
                            'fault-free trace of %d vertices' % (ft['what'], n, k, len(V0)))
        if e is not None:
            most = max(1, sum(1 for q in e if q < n))
            least = max(1, sum(1 for q in e_last if q < n))
            if not least <= k <= most:
                raise Violation('wrong-cut', 'flow failed (%s) at evaluation %d, when %d vertices were complete; %d were returned' %
                                (ft['what'], n, most, k))
        if not warn1:
            raise Violation('silent-cut', 'flow failed (%s) at evaluation %d and no warning was recorded' % (ft['what'], n))
        SIM.probe('cut_at_first' if k == 1 else 'cut_mid')
        mid |= 1 < k < len(V0)
        ctx.log(n, k)
    ctx.nontrivial = steps >= 5 and mid
    ctx.count('flow_evaluations', SIM.work)
    ctx.peak('trace_evaluations', seam0.n)
    ctx.sample = dict(flow=sc['flow'], start=sc['start'], duration=duration, tol=sc['tol'], maxstep=sc['maxstep'], steps=steps, faults=sc['faults'])


def simplify(sc):
    for k, v in (('off', [0.0, 0.0]), ('tol', 1e-3), ('maxstep', 10.0), ('reach', 2), ('sign', 1), ('flow', dict(kind='uniform', a=1.0, b=0.0)),
                 ('flow', dict(kind='wells', a=0.1, b=0.0, wells=[[0.0, 0.0, 10.0]])), ('start', [1.25, 0.0])):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for i, f in enumerate(sc['faults']):
        for k, v in (('what', 'AquiferError'), ('last', None), ('u', 0.5)):
            if f[k] != v:
                c = dict(sc, faults=[dict(x) for x in sc['faults']])
                c['faults'][i][k] = v
                yield c
