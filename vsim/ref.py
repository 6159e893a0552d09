"""Independent reference models (no code shared with /repo)."""
import math

import numpy as np
from scipy.integrate import solve_ivp


# ------------------------------------------------------------------------------------ aquifer model
class RefModel:
    def __init__(self, base, k, n, T, wells, xo, yo, coef):
        self.base, self.k, self.n, self.T = float(base), float(k), float(n), float(T)
        self.wells = np.array([[float(v) for v in w[:4]] for w in wells]).reshape(-1, 4)
        self.xo, self.yo = float(xo), float(yo)
        self.coef = np.array(coef, float).reshape(6)

    def wells_potential(self, x, y):
        x = np.asarray(x, float)[..., None]
        y = np.asarray(y, float)[..., None]
        r = np.hypot(x - self.wells[:, 0], y - self.wells[:, 1])
        return np.sum(self.wells[:, 3] / (2 * math.pi) * np.log(r), axis=-1)

    def potential(self, x, y):
        A, B, C, D, E, F = self.coef
        X = np.asarray(x, float) - self.xo
        Y = np.asarray(y, float) - self.yo
        return A * X * X + B * Y * Y + C * X * Y + D * X + E * Y + F + self.wells_potential(x, y)

    def discharge(self, x, y):
        A, B, C, D, E, F = self.coef
        X = np.asarray(x, float) - self.xo
        Y = np.asarray(y, float) - self.yo
        dx = np.asarray(x, float)[..., None] - self.wells[:, 0]
        dy = np.asarray(y, float)[..., None] - self.wells[:, 1]
        r2 = dx * dx + dy * dy
        q = self.wells[:, 3] / (2 * math.pi)
        return (-(2 * A * X + C * Y + D) - np.sum(q * dx / r2, -1),
                -(2 * B * Y + C * X + E) - np.sum(q * dy / r2, -1))

    def saturated(self, x, y):
        """Saturated thickness; NaN where dry."""
        p = self.potential(x, y)
        h = np.where(p < 0.5 * self.k * self.T ** 2, np.sqrt(np.maximum(2 * p / self.k, 0)), self.T)
        return np.where(p > 0, h, np.nan)

    def head(self, x, y):
        p = self.potential(x, y)
        h = np.where(p < 0.5 * self.k * self.T ** 2, np.sqrt(np.maximum(2 * p / self.k, 0)),
                     p / (self.k * self.T) + 0.5 * self.T)
        return np.where(p > 0, h, np.nan)

    def velocity(self, x, y, confined):
        qx, qy = self.discharge(x, y)
        h = self.T if confined else self.saturated(x, y)
        return qx / (h * self.n), qy / (h * self.n)


def ref_fit(base, k, T, wells, obs, xo, yo):
    """Expected value and covariance of the six coefficients (normal equations on scaled columns)."""
    w = RefModel(base, k, 1.0, T, wells, xo, yo, np.zeros(6))
    A, b = [], []
    for x, y, z, s in obs:
        h = z - base
        if h >= T:
            ev = k * T * h - 0.5 * k * T * T
            sd = k * T * s
        else:
            ev = 0.5 * k * (h * h + s * s)
            sd = k * h * s
        X, Y = x - xo, y - yo
        A.append(np.array([X * X, Y * Y, X * Y, X, Y, 1.0]) / sd)
        b.append((ev - float(w.wells_potential(x, y))) / sd)
    A, b = np.array(A), np.array(b)
    sc = np.sqrt((A * A).sum(0))
    Q, R = np.linalg.qr(A / sc)
    ev = np.linalg.solve(R, Q.T @ b) / sc
    Ri = np.linalg.inv(R)
    cov = (Ri @ Ri.T) / np.outer(sc, sc)
    return ev, cov


# ------------------------------------------------------------------------------------ paths
class Bundle:
    """High-accuracy reference paths of many particles, with a sensitivity estimate per point."""

    def __init__(self, vel, starts, duration, nt=400, rtol=1e-9, atol=1e-8, delta=1e-3, limit=1e5, ds=None):
        s = np.asarray(starts, float).reshape(-1, 2)
        m = len(s)
        # three copies: the path itself, and starts displaced in x and in y
        X0 = np.concatenate([s, s + [delta, 0], s + [0, delta]])

        sign = 1.0 if duration > 0 else -1.0
        duration = abs(duration)

        def f(t, u):
            X = u.reshape(-1, 2)
            vx, vy = vel(X[:, 0], X[:, 1])
            v = sign * np.stack([vx, vy], 1)
            v = np.where(np.isfinite(v), v, 0.0)
            return v.ravel()
        sol = solve_ivp(f, (0.0, duration), X0.ravel(), method='DOP853', rtol=rtol, atol=atol, dense_output=True,
                        first_step=min(abs(duration), 1e-2))
        self.ok = sol.success
        # sampling times: the solver's steps, refined until no sample moves further than ds
        t = sol.t
        for _ in range(14):
            U = sol.sol(t).reshape(3 * m, 2, -1)
            step = np.hypot(*(U[:m, :, 1:] - U[:m, :, :-1]).transpose(1, 0, 2)).max(0)
            big = step > (ds or 1.0)
            if not big.any() or len(t) > 20000:
                break
            t = np.sort(np.concatenate([t, 0.5 * (t[1:] + t[:-1])[big]]))
        U = sol.sol(t).reshape(3 * m, 2, -1)
        self.t = t
        self.xy = U[:m].transpose(0, 2, 1)                  # (m, nt, 2)
        d1 = np.hypot(*(U[m:2 * m] - U[:m]).transpose(1, 0, 2)) / delta
        d2 = np.hypot(*(U[2 * m:] - U[:m]).transpose(1, 0, 2)) / delta
        self.amp = np.maximum.accumulate(np.maximum(d1, d2), axis=1)  # (m, nt)


def seg_dist2(P, a, b):
    """Squared distances of points P (n,2) to segments a->b (m,2): (n,m)."""
    d = b - a
    L = (d * d).sum(1)
    w = P[:, None, :] - a[None]
    with np.errstate(all='ignore'):
        s = np.where(L > 0, (w * d[None]).sum(2) / np.where(L > 0, L, 1), 0.0)
    s = np.clip(s, 0, 1)
    r = w - s[..., None] * d[None]
    return (r * r).sum(2)


def raster(P, pts, umbra, rel=1e-7):
    """(surely, possibly) within umbra of the polyline pts, for lattice points P."""
    pts = np.asarray(pts, float).reshape(-1, 2)
    if len(pts) == 0:
        z = np.zeros(len(P), bool)
        return z, z
    if len(pts) == 1:
        d = np.hypot(P[:, 0] - pts[0, 0], P[:, 1] - pts[0, 1])
        # a track that never left its starting point: the node may or may not count
        return np.zeros(len(P), bool), d <= umbra * (1 + rel)
    lo = pts.min(0) - umbra * 1.001
    hi = pts.max(0) + umbra * 1.001
    near = np.nonzero((P[:, 0] >= lo[0]) & (P[:, 0] <= hi[0]) & (P[:, 1] >= lo[1]) & (P[:, 1] <= hi[1]))[0]
    sure = np.zeros(len(P), bool)
    may = np.zeros(len(P), bool)
    if len(near):
        a, b = pts[:-1], pts[1:]
        d2 = np.full(len(near), np.inf)
        for k in range(0, len(a), 512):
            d2 = np.minimum(d2, seg_dist2(P[near], a[k:k + 512], b[k:k + 512]).min(1))
        d = np.sqrt(d2)
        scale = np.abs(P).max() if len(P) else 1.0
        eps = rel * umbra + 64 * np.finfo(float).eps * scale
        sure[near] = d < umbra - eps
        may[near] = d < umbra + eps
    return sure, may


def raster_band(P, xy, eps, umbra):
    """(surely, possibly) within umbra of a reference path whose position is known to +-eps (per point)."""
    sure = np.zeros(len(P), bool)
    may = np.zeros(len(P), bool)
    if len(xy) < 2:
        return sure, may
    e = np.maximum(eps[:-1], eps[1:])
    C = 24
    for k in range(0, len(xy) - 1, C):
        q = xy[k:k + C + 1]
        ee = e[k:k + C][None]
        m = umbra + ee.max()
        lo, hi = q.min(0) - m, q.max(0) + m
        near = np.nonzero((P[:, 0] >= lo[0]) & (P[:, 0] <= hi[0]) & (P[:, 1] >= lo[1]) & (P[:, 1] <= hi[1]))[0]
        if not len(near):
            continue
        d = np.sqrt(seg_dist2(P[near], q[:-1], q[1:]))
        sure[near] |= (d + ee < umbra).any(1)
        may[near] |= (d - ee < umbra).any(1)
    return sure, may


# ------------------------------------------------------------------------------------ probability field
class RefField:
    """Tally over a fixed universe of lattice nodes; knows nothing about growth."""

    def __init__(self, x0, y0, dx, dy, span):
        self.x0, self.y0, self.dx, self.dy, self.span = float(x0), float(y0), float(dx), float(dy), span
        k = np.arange(-span, span + 1)
        self.kx = k
        X, Y = np.meshgrid(self.x0 + k * self.dx, self.y0 + k * self.dy)
        self.P = np.stack([X.ravel(), Y.ravel()], 1)        # row-major (iy, ix)
        n = len(self.P)
        self.lo = np.zeros(n)
        self.hi = np.zeros(n)
        self.cur_sure = np.zeros(n, bool)
        self.cur_may = np.zeros(n, bool)
        self.weight = 0.0

    def track(self, pts, umbra):
        s, m = raster(self.P, pts, umbra)
        self.cur_sure |= s
        self.cur_may |= m

    def marks(self, sure, may):
        self.cur_sure |= sure
        self.cur_may |= may

    def register(self, w):
        self.lo[self.cur_sure] += w
        self.hi[self.cur_may] += w
        self.weight += w
        self.reset()

    def reset(self):
        self.cur_sure[:] = False
        self.cur_may[:] = False

    def compare(self, pf, V, what=''):
        """Compare the real field pf with this reference; V is the Violation class."""
        if getattr(pf, 'nrows', 0) == 0:
            if self.cur_sure.any() or (self.lo > 0).any():
                raise V('field-lost', what + ': the field is empty but nodes should be marked')
            return
        check_geometry(pf, V, what)
        nx, ny = pf.ncols, pf.nrows
        n = 2 * self.span + 1
        ax = (pf.xmin - self.x0) / self.dx
        ay = (pf.ymin - self.y0) / self.dy
        cx, cy = round(ax), round(ay)
        if abs(ax - cx) > 1e-4 or abs(ay - cy) > 1e-4:
            raise V('lattice-moved', '%s: grid origin (%r, %r) is off the lattice through (%r, %r)' %
                    (what, pf.xmin, pf.ymin, self.x0, self.y0))
        gi = cy + np.arange(ny) + self.span
        gj = cx + np.arange(nx) + self.span
        p = np.asarray(pf.pgrid, float)
        r = np.asarray(pf.rgrid, bool)
        ki, kj = (gi >= 0) & (gi < n), (gj >= 0) & (gj < n)
        if not (ki.all() and kj.all()):
            # nodes beyond the reference universe: nothing can be there
            inside = np.outer(ki, kj)
            if (p[~inside] != 0).any() or r[~inside].any():
                raise V('field-value', '%s: nodes far outside anything requested are marked' % what)
            gi, gj, p, r = gi[ki], gj[kj], p[np.ix_(ki, kj)], r[np.ix_(ki, kj)]
        i0, j0 = int(np.argmax(ki)), int(np.argmax(kj))
        sub = np.ix_(gi, gj)
        lo, hi = self.lo.reshape(n, n), self.hi.reshape(n, n)
        cs, cm = self.cur_sure.reshape(n, n), self.cur_may.reshape(n, n)
        tol = 1e-9 * self.weight
        bad = (p < lo[sub] - tol) | (p > hi[sub] + tol) | ~np.isfinite(p)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise V('field-value', '%s: node (x=%r, y=%r) holds %r, should be %s (%d nodes wrong)' % (
                what, pf.xmin + (j + j0) * pf.deltax, pf.ymin + (i + i0) * pf.deltay, float(p[i, j]),
                'between %r and %r' % (float(lo[sub][i, j]), float(hi[sub][i, j])), int(bad.sum())))
        bad = (cs[sub] & ~r) | (r & ~cm[sub])
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise V('mark-value', '%s: current mark of node (x=%r, y=%r) is %r, should be %r (%d nodes wrong)' % (
                what, pf.xmin + (j + j0) * pf.deltax, pf.ymin + (i + i0) * pf.deltay, bool(r[i, j]), bool(cs[sub][i, j]), int(bad.sum())))
        out = np.ones((n, n), bool)
        out[sub] = False
        if (out & ((lo > 0) | cs)).any():
            i, j = np.argwhere(out & ((lo > 0) | cs))[0]
            raise V('node-missing', '%s: node (x=%r, y=%r) should be marked but lies outside the grid [%r,%r]x[%r,%r]' % (
                what, self.x0 + (j - self.span) * self.dx, self.y0 + (i - self.span) * self.dy, pf.xmin, pf.xmax, pf.ymin, pf.ymax))
        if abs(pf.total_weight - self.weight) > tol:
            raise V('total-weight', '%s: total weight %r, should be %r' % (what, pf.total_weight, self.weight))


def check_geometry(pf, V, what=''):
    if np.shape(pf.pgrid) != (pf.nrows, pf.ncols) or np.shape(pf.rgrid) != (pf.nrows, pf.ncols):
        raise V('geometry', '%s: arrays %r/%r do not have nrows x ncols = %d x %d' %
                (what, np.shape(pf.pgrid), np.shape(pf.rgrid), pf.nrows, pf.ncols))
    for lo, hi, n, d, c in ((pf.xmin, pf.xmax, pf.ncols, pf.deltax, 'x'), (pf.ymin, pf.ymax, pf.nrows, pf.deltay, 'y')):
        if not (math.isfinite(lo) and math.isfinite(hi)) or abs((hi - lo) - (n - 1) * d) > 1e-4 * d:
            raise V('geometry', '%s: %s-extent [%r, %r] does not span %d nodes of spacing %r' % (what, c, lo, hi, n, d))


def field_state(pf):
    """Complete observable state, for before/after comparison."""
    if getattr(pf, 'nrows', 0) == 0 or getattr(pf, 'ncols', 0) == 0:
        return ('empty', pf.deltax, pf.deltay)
    return (pf.nrows, pf.ncols, pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.deltax, pf.deltay, float(pf.total_weight),
            np.asarray(pf.pgrid).tobytes(), np.asarray(pf.rgrid, bool).tobytes(), np.shape(pf.pgrid), np.shape(pf.rgrid))
