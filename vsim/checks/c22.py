"""C22: arguments out of range are rejected before a run does anything; arguments in range are accepted."""
import copy
import logging
import math
import os

from ..core import SIM, Violation
from ..project import shorten, odd_name, gen_project, oneka_args, ARG_NAMES, ModelSpy, support
from ..ref import field_state
from ..sub import disk
from .c12 import direct

PROP = 'C22'
RUNS = {'quick': 600, 'thorough': 15000}
RULE = ('each run is a session in one simulated process: runs of a project with one or two arguments corrupted, between runs of it with correct arguments at and inside the ends of their '
        'ranges; a corrupted run must end with an exception having drawn no variate, evaluated no flow, touched no file and displayed nothing, with the arguments unchanged; a correct one must '
        'run to its display and give the field an independent process computes from the same draws; non-trivial: at least one of each')
REAL = ['oneka.* (whole runs)']
STUBS = ['plt.show', 'Axes.fill', 'clock', 'randomness', 'disk below Python file objects']
LISTS = (('steps',),)
MINLEN = {'steps': 1}
NAN = float('nan')
WORDS = [None, 'ten', '']
SCALARS = dict(buffer=[0, -1, -100.0, 0.0, NAN] + WORDS, spacing=[0, -10, 0.0, -0.5, NAN] + WORDS, umbra=[0, -10, 0.0, NAN] + WORDS, smooth=[-1, -0.01, NAN] + WORDS,
               tol=[0, 0.0, -1, -1e-6, NAN] + WORDS, maxstep=[0, 0.0, -10, NAN] + WORDS, npaths=[0, -1, -20, 2.5] + WORDS, duration=[0, 0.0, NAN] + WORDS, nrealizations=[2.5, NAN] + WORDS,
               target=['over', -1, -2, 0.5] + WORDS, base=WORDS, projectname=[None, 7, 1.5], runtime=[None, 7], confined=[None, 1, 'yes', 0])
# what the documentation says about the arguments that may be left out
DEFAULTS = dict(buffer=100, spacing=10, umbra=10, smooth=0, confined=True, tol=1, maxstep=10)
PROBES = tuple('bad_' + n for n in list(SCALARS) + ['c_dist', 'p_dist', 't_dist', 'stochastic_wells', 'observations']) + (
    'accepted', 'rejected', 'two_bad', 'stochastic', 'deterministic', 'forward', 'exactly_enough', 'too_few_retained', 'defaults', 'arguments_left_out')


def bad_dist(rng, lo, hi):
    """Something that is no distribution over [lo, hi]."""
    a = rng.uniform(0.2, 0.4) if hi == 1 else rng.uniform(5, 50)
    b, c = a * 1.3, a * 1.7
    out = [[b, a], [c, b, a], [b, a, c], [a, c, b], [], [a], [a, a, b, c], None, 'constant', NAN, [a, NAN], [NAN, a], [a, NAN, c], [NAN, b, c], [a, b, NAN]]
    if lo == 0:
        out += [0, 0.0, [0, 0], [0.0, 0.0, 0.0], -a, [-a, b], [-a, a, b], [-b, -a], [-c, -b, -a], -1e-9]
    if lo == 0 and hi > 1:
        out += [math.inf, [a, math.inf], [a, b, math.inf]]
    if hi == 1:
        out += [1.5, [a, 1.5], [a, b, 1.5], [a, 1.2, 1.5], [1.1, 1.5], 25, 1 + 1e-9]
    return rng.choice(out)


def gen_bad(rng, cfg):
    """[path..., value] of one corrupted argument."""
    r = rng.random()
    if r < 0.5:
        n = rng.choice(list(SCALARS))
        v = rng.choice(SCALARS[n])
        if v == 'over':
            v = len(cfg['wells']) + rng.choice([0, 0, 1, 5])
        elif n == 'target' and v in (-1, -2):
            v = rng.choice([-1, -len(cfg['wells']), -len(cfg['wells']) - 1])
        return [n, v]
    if r < 0.7:
        n = rng.choice(['c_dist', 'p_dist', 't_dist'])
        return [n, bad_dist(rng, 0, 1 if n == 'p_dist' else math.inf)]
    if r < 0.85:
        i = rng.randrange(len(cfg['wells'])) if rng.random() < 0.6 else len(cfg['wells']) - 1
        return rng.choice([['stochastic_wells', i, 2, rng.choice([0, 0.0, -0.25, NAN, None, 'r'])], ['stochastic_wells', i, rng.randrange(2), rng.choice([None, 'x'])],
                           ['stochastic_wells', i, 3, bad_dist(rng, -math.inf, math.inf)], ['stochastic_wells', i, 3, bad_dist(rng, -math.inf, math.inf)],
                           ['stochastic_wells', i, 'short'], ['stochastic_wells', i, 'long'], ['stochastic_wells', 'none']])
    i = rng.randrange(len(cfg['observations'])) if rng.random() < 0.6 else len(cfg['observations']) - 1
    return rng.choice([['observations', i, 3, rng.choice([0, 0.0, -0.1, -1, NAN, None, 'z'])], ['observations', i, rng.randrange(3), rng.choice([None, 'x'])], ['observations', i, 'short'],
                       ['observations', i, 'long'], ['observations', 'few', rng.choice([0, 1, 5, 6, 6, 6])], ['observations', 'crowd', rng.choice([6, 5, 0])]])


def gen(rng, tier, i):
    cfg = gen_project(rng, nreal=2, fine=False, dry=0.1, nobs=rng.choice([30, 60, 110]) if rng.random() < 0.1 else None)
    shorten(cfg, 10)
    cfg['npaths'] = min(cfg['npaths'], 3)
    if rng.random() < 0.4:
        cfg['nrealizations'] = 1
    for n, vs in (('smooth', [0, 0.0, 1]), ('tol', [1, 1.0, 0.01]), ('maxstep', [10, 10.0]), ('umbra', [cfg['umbra'], 10]), ('buffer', [100, 100.0, 1, 0.5, cfg['buffer']]),
                  ('duration', [cfg['duration'], int(cfg['duration']) or cfg['duration']]), ('base', [cfg['base'], int(cfg['base'])]), ('p_dist', [cfg['p_dist'], cfg['p_dist'], 1, 1.0, [1, 1], [0.9, 1.0, 1.0]])):
        if rng.random() < 0.3:
            cfg[n] = rng.choice(vs)
    if rng.random() < 0.2:
        # far within their ranges
        cfg['npaths'], cfg['duration'] = 1, math.copysign(min(abs(cfg['duration']), 2.0), cfg['duration'])
        for n in rng.sample(['umbra', 'tol', 'maxstep', 'smooth', 'buffer', 'spacing', 'npaths', 'duration'], rng.choice([1, 2, 3])):
            v = dict(umbra=[22 * cfg['spacing'], 31.0 * cfg['spacing'], 0.01], tol=[50, 1e3, 1e-7], maxstep=[1e4, 0.1], smooth=[8, 0.01, 25.0], buffer=[1e-3, 0.1], spacing=[0.5, 500, 1e4],
                     npaths=[60, 111], duration=[math.copysign(0.01, cfg['duration']), math.copysign(1e-6, cfg['duration'])])[n]
            cfg[n] = rng.choice(v)
            if n == 'spacing':
                cfg['umbra'] = cfg['spacing']
        if cfg['umbra'] > 5 * cfg['spacing']:
            shorten(cfg, 0.2)
            cfg['npaths'] = 1
    if rng.random() < 0.15:
        cfg.update(DEFAULTS, confined=rng.random() < 0.7)
    if rng.random() < 0.3:
        cfg['observations'] = [[round(v) if k < 2 else v for k, v in enumerate(o)] for o in cfg['observations']]
    if rng.random() < 0.1:
        # forward, ending before the particles reach the well
        w = cfg['wells'][cfg['target']]
        cfg['duration'] = -0.1 * (w[2] + 1) ** 2 * 3.14 * support(cfg['p_dist'])[0] * support(cfg['t_dist'])[0] / abs(support(w[3])[1])
    if rng.random() < 0.1:
        # a large field of wells
        w = cfg['wells'][0]
        for j in range(rng.choice([7, 9, 16, 33])):
            cfg['wells'].append([round(w[0] + 2500 + 45.0 * j, 1), w[1] + 2500.0, 0.3, rng.choice([5.0, [4.0, 6.0], -3])])
    steps = []
    for _ in range(rng.choice([2, 4, 7, 10])):
        if rng.random() < 0.8:
            bad = [gen_bad(rng, cfg) for _ in range(rng.choice([1, 1, 1, 1, 2]))]
            if len(bad) == 2 and bad[0][:2] == bad[1][:2]:
                del bad[1]          # one could undo the other
            steps.append(dict(bad=bad))
        else:
            steps.append(dict(bad=[]))
    steps.append(dict(bad=[]))
    return dict(cfg=cfg, odd=odd_name(rng), steps=steps, seven=rng.random() < 0.3, omit=rng.random() < 0.7)


def corrupt(a, bads, cfg):
    """Applies the corruption to the dict of arguments; returns False if it does not apply to this project."""
    li = cfg.get('listy')
    for b in bads:
        n = b[0]
        if n in ('stochastic_wells', 'observations'):
            L = a[n]
            if b[1] == 'none':
                L[:] = []
            elif b[1] == 'few':
                del L[b[2]:]
            elif b[1] == 'crowd':
                # all but a few lie at a well
                if len(bads) > 1:
                    return False
                w = a['stochastic_wells'][0]
                L[b[2]:] = [type(o)([w[0] + 0.1 * j, w[1] + 0.1] + list(o[2:])) for j, o in enumerate(L[b[2]:])]
                a['buffer'] = 50 + 0.1 * len(L)
            else:
                if b[1] >= len(L):
                    return False
                o = list(L[b[1]])
                if b[2] == 'short':
                    o = o[:3]
                elif b[2] == 'long':
                    o.append(1.0)
                elif len(o) > b[2]:
                    o[b[2]] = b[3] if li or not isinstance(b[3], list) else tuple(b[3])
                L[b[1]] = type(L[b[1]])(o)
        else:
            a[n] = tuple(b[1]) if isinstance(b[1], list) and not li else b[1]
    return True


def run(sc, ctx):
    import oneka.oneka as ok
    import matplotlib.pyplot as plt
    lg = logging.getLogger('Oneka')
    lg.addHandler(logging.NullHandler())
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    cfg = dict(sc['cfg'])
    if sc['seven']:
        far = [o for o in cfg['observations'] if all(math.hypot(o[0] - w[0], o[1] - w[1]) > cfg['buffer'] + 1 for w in cfg['wells'])]
        cfg['observations'] = far[:7]
        SIM.probe('exactly_enough')
    if cfg['umbra'] == 10 and cfg['tol'] == 1 and cfg['spacing'] == 10:
        SIM.probe('defaults')
    SIM.fs_active = True
    SIM.record_plots = True
    good = bad = 0
    for n, st in enumerate(sc['steps']):
        SIM.task = n
        SIM.now += 2.0
        a = dict(zip(ARG_NAMES, oneka_args(cfg, 'project' + sc.get('odd', ''), 'now')))
        if not corrupt(a, st['bad'], cfg):
            continue
        before, files = repr(a), disk()
        SIM.shows, SIM.fs_ops, SIM.plots[:], d0 = 0, 0, [], SIM.draws
        want = None if st['bad'] else direct(cfg, tuple(copy.deepcopy(a).values()), n)
        res = err = None
        with ModelSpy() as spy:
            try:
                if sc['omit'] and not st['bad'] and all(cfg[k] == v for k, v in DEFAULTS.items()):
                    SIM.probe('arguments_left_out')
                    res = ok.oneka(*[v for k, v in a.items() if k not in DEFAULTS])
                else:
                    res = ok.oneka(*a.values())
            except Exception as e:      # noqa
                err = e
        plt.close('all')
        if repr(a) != before:
            raise Violation('arguments-changed', 'step %d: the run changed the caller\'s arguments' % n)
        what = ', '.join('.'.join(map(str, b[:-1])) + ' = %r' % (b[-1],) for b in st['bad'])
        if st['bad']:
            bad += 1
            for b in st['bad']:
                SIM.fire('bad_argument')
                SIM.probe('bad_' + b[0])
                if b[1:2] == ['crowd']:
                    SIM.probe('too_few_retained')
            if len(st['bad']) > 1:
                SIM.probe('two_bad')
            did = [w for w, k in (('drew %d variates' % (SIM.draws - d0), SIM.draws - d0), ('evaluated the flow %d times' % spy.calls, spy.calls),
                                  ('performed %d file operations' % SIM.fs_ops, SIM.fs_ops), ('changed files', disk() != files), ('drew plots', len(SIM.plots)), ('displayed', SIM.shows)) if k]
            if err is None:
                raise Violation('accepted', 'step %d: the run with %s was not rejected (it %s)' % (n, what, ', '.join(did)))
            if did:
                raise Violation('acted-before-rejecting', 'step %d: the run with %s %s before it was rejected (%s)' % (n, what, ', '.join(did), type(err).__name__))
            SIM.probe('rejected')
        else:
            good += 1
            if err is not None:
                raise Violation('refused', 'step %d: a run with arguments within their ranges ended with %s: %s' % (n, type(err).__name__, err))
            if not SIM.shows:
                raise Violation('refused', 'step %d: a run with arguments within their ranges displayed nothing' % n)
            if field_state(res) != want:
                raise Violation('wrong-field', 'step %d: after %d rejected runs the field is not the one its draws give' % (n, bad))
            SIM.probe('accepted')
            SIM.probe('stochastic' if cfg['nrealizations'] > 1 else 'deterministic')
            if cfg['duration'] < 0:
                SIM.probe('forward')
        SIM.simtime += abs(cfg['duration'])
        ctx.log(n, what, type(err).__name__, want)
    SIM.fs_active = False
    ctx.nontrivial = good > 0 and bad > 0
    ctx.count('runs_rejected', bad)
    ctx.count('runs_accepted', good)
    ctx.sample = dict(steps=[s['bad'] for s in sc['steps']][:6], nrealizations=cfg['nrealizations'])


def simplify(sc):
    for i, s in enumerate(sc['steps']):
        if len(s['bad']) > 1:
            for b in s['bad']:
                yield dict(sc, steps=[dict(bad=[b]) if j == i else t for j, t in enumerate(sc['steps'])])
    if sc['seven']:
        yield dict(sc, seven=False)
    if sc['omit']:
        yield dict(sc, omit=False)
    c = sc['cfg']
    for k, v in (('npaths', 1), ('smooth', 0), ('listy', False), ('nrealizations', 1), ('p_dist', 0.2), ('c_dist', 20.0), ('t_dist', 15.0)):
        if c[k] != v:
            yield dict(sc, cfg=dict(c, **{k: v}))
