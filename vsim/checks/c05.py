"""C05: the probability field equals the weighted tally of its realizations, for any history."""
import numpy as np

from ..core import SIM, Violation
from ..ref import RefField, field_state

PROP = 'C05'
RUNS = {'quick': 1600, 'thorough': 20000}
RULE = ('each run is a random history of track / register / reset / grow / invalid-grow operations on one real field, with realizations '
        'abandoned part-way, checked against the reference tally after every operation; non-trivial: at least two registered realizations '
        'and one growth after the first registration')
REAL = ['oneka.probabilityfield.ProbabilityField']
STUBS = ['particle tracks are generated, not traced']
LISTS = (('ops',), ('ops', '*', 'pts'))
MINLEN = {('ops', '*', 'pts'): 1}
PROBES = ('abandoned', 'grown_left', 'grown_right', 'grown_down', 'grown_up', 'repeated_vertex', 'single_point', 'ties', 'track_again')
SPAN = 64


def gen_geometry(rng):
    dx = rng.choice([0.5, 1.0, 2.0, 10.0, round(rng.uniform(0.2, 20), 3)])
    dy = dx if rng.random() < 0.6 else rng.choice([0.5 * dx, 2 * dx, round(rng.uniform(0.5, 2) * dx, 3)])
    x0, y0 = rng.choice([(0.0, 0.0), (rng.uniform(-500, 500), rng.uniform(-500, 500)), (302338.0, 5162551.0),
                         (round(rng.uniform(1e5, 9e5), 2), round(rng.uniform(4e6, 6e6), 2))])
    return dict(dx=dx, dy=dy, x0=x0, y0=y0, origin=rng.random() < 0.8)


def gen_track(rng, g, reach):
    """A track as lattice-unit coordinates relative to the origin (materialised when run)."""
    n = rng.choice([1, 2, 2, 3, 4, 5, 8, 12]) if rng.random() < 0.98 else rng.choice([30, 70, 130, 300])
    integer = rng.random() < 0.2
    a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
    if rng.random() < 0.3:
        a, b = rng.uniform(-reach, reach), rng.uniform(-reach, reach)
    step = rng.choice([0.2, 0.7, 1.5, 4.0])
    da, db = rng.gauss(0, step), rng.gauss(0, step)
    pts = [[a, b]]
    for _ in range(n - 1):
        if rng.random() < 0.08:
            pts.append(list(pts[-1]))
            continue
        da, db = da + rng.gauss(0, step / 3), db + rng.gauss(0, step / 3)
        a = max(-reach, min(reach, a + da))
        b = max(-reach, min(reach, b + db))
        pts.append([a, b])
    if integer:
        pts = [[round(p[0]), round(p[1])] for p in pts]
    return [[round(p[0], 6), round(p[1], 6)] for p in pts]


def gen(rng, tier, i):
    sc = gen_geometry(rng)
    reach = rng.choice([4, 12, 40])
    ops = []
    umbra = rng.choice([0.3, 0.6, 1.0, 1.5, 2.0, 3.3])
    many = rng.random() < 0.02          # a node may be counted hundreds of times
    for _ in range(rng.choice([3, 6, 10, 16]) if not many else rng.choice([140, 270])):
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if not many else 1):
            ops.append(dict(op='track', pts=gen_track(rng, sc, reach), umbra=umbra if rng.random() < 0.8 else round(rng.uniform(0.2, 4), 3),
                            kind=rng.choice(['list', 'array', 'tuple'])))
            old = [o for o in ops[:-1] if o['op'] == 'track']
            if old and rng.random() < 0.2:
                # the same track once more, in this realization or a later one
                ops[-1] = dict(rng.choice([old[-1], old[-1], rng.choice(old)]))
                if rng.random() < 0.3:
                    ops[-1]['umbra'] = umbra
                if rng.random() < 0.2:
                    ops[-1]['pts'] = ops[-1]['pts'][::-1]
                if rng.random() < 0.2:
                    ops[-1]['pts'] = ops[-1]['pts'] + gen_track(rng, sc, reach)[:1]
            if rng.random() < 0.15:
                a, b = sorted([rng.uniform(-reach, reach), rng.uniform(-reach, reach)])
                c, d = sorted([rng.uniform(-reach, reach), rng.uniform(-reach, reach)])
                if rng.random() < 0.25:
                    if rng.random() < 0.5:
                        a, b = b, a
                    else:
                        c, d = d, c
                ops.append(dict(op='grow', box=[round(v, 4) for v in (a, b, c, d)]))
                if rng.random() < 0.08:
                    ops[-1]['wild'] = [rng.randrange(4), rng.choice(['nan', 'inf', '-inf'])]
        if rng.random() < 0.2:
            ops.append(dict(op='reset'))
        else:
            ops.append(dict(op='register', w=rng.choice([1.0, 1.0, 1.0, 0.25, 0, 2, round(rng.uniform(0.01, 5), 4), rng.choice([1 / 3, 1e-7, 1e6, 0.1, 1e-12 / 7])])))
    sc['ops'] = ops
    return sc


def xy_of(sc, p):
    return sc['x0'] + p[0] * sc['dx'], sc['y0'] + p[1] * sc['dy']


class Machine:
    """Applies operations to a real field and to the reference."""

    def __init__(self, sc, ctx):
        from oneka.probabilityfield import ProbabilityField
        self.sc = sc
        self.ctx = ctx
        if sc['origin']:
            self.pf = ProbabilityField(sc['dx'], sc['dy'], sc['x0'], sc['y0'])
            self.ref = RefField(sc['x0'], sc['y0'], sc['dx'], sc['dy'], SPAN)
        else:
            self.pf = ProbabilityField(sc['dx'], sc['dy'])
            self.ref = None
        self.registered = 0
        self.grown_after = False
        self.pending = False

    def empty(self):
        return self.ref is None

    def anchor(self):
        """A field created without an origin chooses its own lattice at its first growth."""
        if self.ref is None and getattr(self.pf, 'nrows', 0):
            sc = self.sc
            kx = round((sc['x0'] - self.pf.xmin) / sc['dx'])
            ky = round((sc['y0'] - self.pf.ymin) / sc['dy'])
            self.ref = RefField(self.pf.xmin + kx * sc['dx'], self.pf.ymin + ky * sc['dy'], sc['dx'], sc['dy'], SPAN)

    def geom(self):
        p = self.pf
        return (p.xmin, p.xmax, p.ymin, p.ymax) if getattr(p, 'nrows', 0) else None

    def contains(self, a, b, c, d, what):
        p = self.pf
        ex, ey = 1e-6 * p.deltax, 1e-6 * p.deltay
        if not (p.xmin <= a + ex and p.xmax >= b - ex and p.ymin <= c + ey and p.ymax >= d - ey):
            raise Violation('extent', '%s: requested [%r,%r]x[%r,%r] is not inside the grid [%r,%r]x[%r,%r]' % (
                what, a, b, c, d, p.xmin, p.xmax, p.ymin, p.ymax))

    def apply(self, op):
        """Perform op on the real field; returns a callable that applies it to the reference."""
        sc, pf = self.sc, self.pf
        k = op['op']
        if k == 'track':
            pts = [xy_of(sc, p) for p in op['pts']]
            xs, ys = [p[0] for p in pts], [p[1] for p in pts]
            u = op['umbra'] * sc['dx']
            if op['kind'] == 'array':
                xs, ys = np.array(xs), np.array(ys)
            elif op['kind'] == 'tuple':
                xs, ys = tuple(xs), tuple(ys)
            pf.rasterize(xs, ys, u)
            self.contains(min(xs), max(xs), min(ys), max(ys), 'track')

            def after():
                self.anchor()
                self.ref.track(pts, u)
                self.pending = True
            return after
        if k == 'grow':
            box = list(op['box'])
            if op.get('wild'):
                box[op['wild'][0]] = float(op['wild'][1])
            a, b, c, d = box
            a, b = sc['x0'] + a * sc['dx'], sc['x0'] + b * sc['dx']
            c, d = sc['y0'] + c * sc['dy'], sc['y0'] + d * sc['dy']
            if not (a <= b and c <= d) or op.get('wild'):
                before = field_state(pf)
                try:
                    pf.expand(a, b, c, d)
                except MemoryError:
                    raise
                except Exception:
                    SIM.fire('invalid_request')
                else:
                    raise Violation('invalid-accepted', 'growing to the impossible extent [%r,%r]x[%r,%r] raised no error' % (a, b, c, d))
                if field_state(pf) != before:
                    raise Violation('failed-op-changed-state', 'an invalid growth request changed the field')
                return lambda: None
            pf.expand(a, b, c, d)
            self.contains(a, b, c, d, 'grow')
            return self.anchor
        if self.empty():
            return None
        if k == 'register':
            pf.register(op['w'])

            def after():
                self.ref.register(op['w'])
                self.registered += 1
                self.pending = False
            return after
        pf.reset()

        def after():
            if self.pending:
                SIM.probe('abandoned')
                SIM.fire('abandoned_realization')
            self.pending = False
            self.ref.reset()
        return after

    def step(self, n, op):
        g0 = self.geom()
        f = self.apply(op)
        if f is None:
            return
        f()
        if self.ref is not None:
            self.ref.compare(self.pf, Violation, 'after operation %d (%s)' % (n, op['op']))
            g1 = self.geom()
            if g0 and g1 != g0:
                for a, nm in enumerate(('grown_left', 'grown_right', 'grown_down', 'grown_up')):
                    if g0[a] != g1[a]:
                        SIM.probe(nm)
                if self.registered:
                    self.grown_after = True
            self.ctx.log(op['op'], g1)
            self.ctx.log_array(self.pf.pgrid)


def run(sc, ctx):
    m = Machine(sc, ctx)
    for n, op in enumerate(sc['ops']):
        if op['op'] == 'track':
            if any(o['op'] == 'track' and o['pts'] == op['pts'] for o in sc['ops'][:n]):
                SIM.probe('track_again')
            if len(op['pts']) == 1:
                SIM.probe('single_point')
            if any(a == b for a, b in zip(op['pts'], op['pts'][1:])):
                SIM.probe('repeated_vertex')
            if all(float(v).is_integer() for p in op['pts'] for v in p):
                SIM.probe('ties')
        m.step(n, op)
    ctx.nontrivial = m.registered >= 2 and m.grown_after
    ctx.count('operations', len(sc['ops']))
    ctx.sample = dict(geometry={k: sc[k] for k in ('dx', 'dy', 'x0', 'y0', 'origin')}, first_ops=sc['ops'][:3], n_ops=len(sc['ops']))


def simplify(sc):
    for k, v in (('x0', 0.0), ('y0', 0.0), ('dx', 1.0), ('dy', 1.0), ('origin', True)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    if sc['dy'] != sc['dx']:
        yield dict(sc, dy=sc['dx'])
    for i, op in enumerate(sc['ops']):
        for key, v in (('umbra', 1.0), ('w', 1.0), ('kind', 'list')):
            if key in op and op[key] != v:
                c = dict(sc, ops=[dict(o) for o in sc['ops']])
                c['ops'][i][key] = v
                yield c
        if 'pts' in op and any(not float(x).is_integer() for p in op['pts'] for x in p):
            c = dict(sc, ops=[dict(o) for o in sc['ops']])
            c['ops'][i]['pts'] = [[round(p[0]), round(p[1])] for p in op['pts']]
            yield c
