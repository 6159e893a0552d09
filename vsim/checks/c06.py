"""C06: grid growth never moves or loses content, even when memory runs out."""
import copy

import numpy as np

from ..core import SIM, Violation
from ..ref import field_state
from . import c05
from .c05 import Machine, gen_geometry, gen_track

PROP = 'C06'
RUNS = {'quick': 2500, 'thorough': 20000}
RULE = ('each run is a random history of growth, track, register and reset operations on one real field in which the n-th memory allocation of '
        'chosen operations fails (and invalid requests are made); after a failed operation the complete state must be unchanged, and all later '
        'operations must match the reference in which it never happened; some histories grow a small field by hundreds to thousands of nodes at once; non-trivial: an allocation failure really fired and later operations succeeded')
REAL = ['oneka.probabilityfield.ProbabilityField']
STUBS = ['memory allocator (numpy array constructors called from oneka code) can fail on demand', 'particle tracks are generated']
LISTS = (('ops',), ('ops', '*', 'pts'), ('far',))
MINLEN = {('ops', '*', 'pts'): 1}
PROBES = ('allocation_failure', 'invalid_request', 'grown_left', 'grown_right', 'grown_down', 'grown_up', 'failed_then_grew', 'far_growth')
simplify = c05.simplify


def gen(rng, tier, i):
    sc = gen_geometry(rng)
    reach = rng.choice([6, 15, 40])
    faulty = rng.random() < 0.8          # fault-free runs are kept apart
    rate = rng.choice([0.1, 0.3, 0.6])
    ops = []
    for _ in range(rng.choice([4, 8, 14, 24])):
        r = rng.random()
        if r < 0.45:
            # growth mostly one- or two-sided, small or large, sometimes a single point
            cx, cy = rng.uniform(-reach, reach), rng.uniform(-reach, reach)
            sx, sy = rng.choice([0, 0.5, 3, 10]), rng.choice([0, 0.5, 3, 10])
            a, b, c, d = max(-42, cx - sx), min(42, cx + sx), max(-42, cy - sy), min(42, cy + sy)
            if rng.random() < 0.3:
                a, b, c, d = (float(round(v)) for v in (a, b, c, d))     # exactly on lattice lines
            if rng.random() < 0.12 and (a != b or c != d):
                a, b, c, d = b, a, d, c
            op = dict(op='grow', box=[round(v, 5) for v in (a, b, c, d)])
            if rng.random() < 0.06:
                op['wild'] = [rng.randrange(4), rng.choice(['nan', 'inf', '-inf'])]
        elif r < 0.8:
            op = dict(op='track', pts=gen_track(rng, sc, reach), umbra=rng.choice([0.4, 1.0, 1.7, 3.0]), kind=rng.choice(['list', 'array']))
        elif r < 0.93:
            op = dict(op='register', w=rng.choice([1.0, 1.0, 0.5, 2.25]))
        else:
            op = dict(op='reset')
        if faulty and op['op'] in ('grow', 'track') and rng.random() < rate:
            op['fail_alloc'] = rng.choice([1, 1, 2, 2, 3])
        ops.append(op)
    sc['ops'] = ops
    if rng.random() < 0.02:
        sc['ops'] = []
        sc['far'] = [dict(op='track', box=[round(rng.uniform(-3, 3), 3) for _ in range(4)])]
        for _ in range(rng.choice([1, 2, 3])):
            a, b = rng.choice([(300, 20), (1100, 20), (2300, 12), (5, 1500), (900, 300), (260, 260)])
            x, y = rng.choice([-1, 1]) * (a + round(rng.random(), 3)), rng.choice([-1, 1]) * (b + round(rng.random(), 3))
            sc['far'].append(dict(op='grow', box=[min(x, 0), max(x, 0), min(y, 0), max(y, 0)], fail=rng.choice([0, 0, 1, 2])))
            if rng.random() < 0.5:
                p, q = round(rng.uniform(-30, 30), 3), round(rng.uniform(-30, 30), 3)
                sc['far'].append(dict(op='track', box=[p, p + 1.5, q, q - 2.25]))
    return sc


def far(sc, ctx):
    """Growth by a thousand nodes and more at once: every node in use stays where it is."""
    from oneka.probabilityfield import ProbabilityField
    dx, dy, x0, y0 = sc['dx'], sc['dy'], sc['x0'], sc['y0']
    pf = ProbabilityField(dx, dy, x0, y0)
    held = {}
    for n, op in enumerate(sc['far']):
        before = field_state(pf) if n else None
        b = op['box']
        box = [x0 + b[0] * dx, x0 + b[1] * dx, y0 + b[2] * dy, y0 + b[3] * dy]
        if op['op'] == 'track':
            pf.rasterize([box[0], box[1]], [box[2], box[3]], 1.3 * max(dx, dy))
            pf.register(1.0)
            box = [min(box[:2]), max(box[:2]), min(box[2:]), max(box[2:])]
        else:
            SIM.alloc_count = SIM.alloc_fired = 0
            SIM.alloc_fail = (op['fail'],) if op['fail'] else ()
            SIM.alloc_active = bool(op['fail'])
            err = None
            try:
                pf.expand(*box)
            except MemoryError as e:
                err = e
            finally:
                SIM.alloc_active = False
            if err is not None:
                if before and field_state(pf) != before:
                    raise Violation('failed-op-changed-state', 'far growth %d ran out of memory and left the field changed' % n)
                continue
            if SIM.alloc_fired:
                ctx.count('failures_survived')
        sx, sy = (pf.xmin - x0) / dx, (pf.ymin - y0) / dy
        jx, jy = round(sx), round(sy)
        if abs(sx - jx) > 1e-3 or abs(sy - jy) > 1e-3:
            raise Violation('lattice-moved', 'far operation %d: the grid starts at (%r, %r), off its lattice' % (n, pf.xmin, pf.ymin))
        g = np.asarray(pf.pgrid)
        if g.shape != (pf.nrows, pf.ncols) or abs(pf.xmax - pf.xmin - (pf.ncols - 1) * dx) > 1e-3 * dx or abs(pf.ymax - pf.ymin - (pf.nrows - 1) * dy) > 1e-3 * dy:
            raise Violation('extent', 'far operation %d: %r nodes from (%r, %r) to (%r, %r)' % (n, g.shape, pf.xmin, pf.ymin, pf.xmax, pf.ymax))
        if not (pf.xmin <= box[0] and box[1] <= pf.xmax and pf.ymin <= box[2] and box[3] <= pf.ymax):
            raise Violation('not-covered', 'far operation %d: the extent (%r, %r, %r, %r) does not include the request %r' % (n, pf.xmin, pf.xmax, pf.ymin, pf.ymax, box))
        now = {(int(j) + jx, int(i) + jy): float(g[i, j]) for i, j in np.argwhere(g != 0)}
        for k in sorted(set(held) | set(now)):
            v = held.get(k, 0)
            if now.get(k, 0) != v and not (op['op'] == 'track' and now.get(k, 0) == v + 1):
                raise Violation('content-moved', 'far operation %d (%s): node %r held %r and now holds %r' % (n, op['op'], k, v, now.get(k, 0)))
        held = now
        SIM.probe('far_growth')
        ctx.log(n, pf.nrows, pf.ncols, len(now))
    ctx.nontrivial = len(held) > 0
    ctx.sample = dict(far=sc['far'])


def run(sc, ctx):
    if sc.get('far'):
        return far(sc, ctx)
    m = Machine(sc, ctx)
    failed = 0
    later_ok = 0
    for n, op in enumerate(sc['ops']):
        fail = op.get('fail_alloc')
        if not fail:
            g0 = m.geom()
            m.step(n, op)
            if failed:
                later_ok += 1
                if m.geom() != g0:
                    SIM.probe('failed_then_grew')
            continue
        before = field_state(m.pf)
        g0 = m.geom()
        SIM.alloc_count = 0
        SIM.alloc_fired = 0
        SIM.alloc_fail = (fail,)
        SIM.alloc_active = True
        err = None
        f = None
        try:
            try:
                f = m.apply(op)
            except MemoryError as e:
                err = e
        finally:
            SIM.alloc_active = False
        if SIM.alloc_fired and err is None:
            # Unreported: only acceptable if the operation nevertheless took full effect.
            try:
                if f is not None:
                    f()
                if m.ref is not None:
                    m.ref.compare(m.pf, Violation, 'operation %d' % n)
            except Violation as v:
                raise Violation('failure-not-reported', 'an allocation failed inside operation %d (%s), no error was raised and the '
                                'operation did not take effect: %s' % (n, op['op'], v))
            continue
        if err is not None:
            failed += 1
            if field_state(m.pf) != before:
                raise Violation('failed-op-changed-state', 'operation %d (%s) ran out of memory and left the field changed: extent %r -> %r' %
                                (n, op['op'], g0, m.geom()))
            if m.ref is not None:
                m.ref.compare(m.pf, Violation, 'after failed operation %d (%s)' % (n, op['op']))
            ctx.log('failed', n)
            continue
        if f is not None:
            f()
            if m.ref is not None:
                m.ref.compare(m.pf, Violation, 'after operation %d (%s)' % (n, op['op']))
    ctx.nontrivial = failed > 0 and later_ok > 0
    ctx.count('failed_operations', failed)
    ctx.count('operations', len(sc['ops']))
    ctx.sample = dict(geometry={k: sc[k] for k in ('dx', 'dy', 'x0', 'y0', 'origin')},
                      failing=[o for o in sc['ops'] if o.get('fail_alloc')][:2], n_ops=len(sc['ops']))
