"""C10: runs sharing a process do not affect each other or their inputs."""
import copy
import logging
import pickle

import numpy as np

from ..core import SIM, Violation, Scheduler, LineInterrupter
from ..project import shorten, gen_project, well_list, obs_list, tup
from ..ref import field_state
from ..flows import FlowSeam
from ..sub import in_child

PROP = 'C10'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('each run performs 2-6 computations (stochastic, deterministic, trace, capture zone, probability field, fit, filtering, summary, whole archived run) on shared or nearly equal '
        'inputs, either interleaved by the simulated scheduler at line or opcode granularity or one after another with failing and interrupted ones in between; each result must be '
        'bit-identical to that of the same computation alone in a pristine process with the same draws, and no input may change; non-trivial: at least two computations finished')
REAL = ['oneka.*']
STUBS = ['thread scheduling (baton)', 'randomness (one stream per computation)', 'clock', 'disk', 'plot display']
LISTS = (('tasks',),)
MINLEN = {'tasks': 1}
PROBES = ('interleaved', 'sequential', 'stochastic', 'deterministic', 'trace', 'zone', 'field', 'fit', 'filter', 'summary', 'query', 'oneka', 'failed', 'interrupted',
          'shared_inputs', 'near_equal_inputs', 'input_edited')

KINDS = ('stochastic', 'deterministic', 'trace', 'zone', 'field', 'fit', 'filter', 'summary', 'query')


def variant(rng, cfg):
    """The same project with one thing changed."""
    c = copy.deepcopy(cfg)
    k = rng.choice(['base', 'c_dist', 'p_dist', 't_dist', 'observations', 'wells', 'spacing', 'umbra', 'confined', 'tol', 'maxstep', 'npaths', 'duration', 'target',
                    'head', 'std', 'q'])
    f = rng.choice([0.7, 1.3])

    def sc(d):
        return [round(v * f, 6) for v in d] if isinstance(d, list) else round(d * f, 6)
    if k in ('c_dist', 't_dist'):
        c[k] = sc(c[k])
    elif k == 'p_dist':
        c[k] = [round(v * 0.8, 6) for v in c[k]] if isinstance(c[k], list) else round(c[k] * 0.8, 6)
    elif k == 'base':
        c['base'] = round(c['base'] - 1.5, 3)
    elif k == 'observations':
        c['observations'] = c['observations'][1:] if len(c['observations']) > 12 else [[o[0] + 3, o[1], o[2], o[3]] for o in c['observations']]
    elif k == 'head':
        j = rng.randrange(len(c['observations']))
        c['observations'][j][2] = round(c['observations'][j][2] + 0.4, 3)
    elif k == 'std':
        j = rng.randrange(len(c['observations']))
        c['observations'][j][3] = round(c['observations'][j][3] * 3, 4)
    elif k == 'wells':
        c['wells'].append([c['wells'][0][0] + 200.0, c['wells'][0][1] + 150.0, 0.25, 200.0])
    elif k == 'q':
        j = rng.randrange(len(c['wells']))
        c['wells'][j][3] = sc(c['wells'][j][3])
    elif k == 'spacing':
        c['spacing'] = 6.0
        c['umbra'] = max(c['umbra'], 6.0)
    elif k == 'umbra':
        c['umbra'] = c['umbra'] + 2.0
    elif k == 'confined':
        c['confined'] = not c['confined']
    elif k == 'tol':
        c['tol'] = c['tol'] * 5
    elif k == 'maxstep':
        c['maxstep'] = c['maxstep'] * 0.6
    elif k == 'npaths':
        c['npaths'] += 1
    elif k == 'duration':
        c['duration'] = round(c['duration'] * 0.7, 2)
    elif k == 'target':
        c['target'] = (c['target'] + 1) % len(c['wells'])
        if any(np.min(w[3]) <= 0 for w in c['wells']):
            c['target'] = cfg['target']         # tracing close to an injection well takes very long
    return c


def gen(rng, tier, i):
    mode = rng.choice(['threads', 'threads', 'seq'])
    cfg = gen_project(rng, nreal=rng.choice([2, 3]), fine=False, dry=0.4)
    shorten(cfg, 12.0)
    cfg['npaths'] = min(cfg['npaths'], 3)
    # duplicates and near-well observations give the filter something to do
    for _ in range(rng.choice([0, 1, 2])):
        o = rng.choice(cfg['observations'])
        cfg['observations'].append([o[0] + 0.3, o[1], round(o[2] + 0.1, 3), 0.5])
    w = cfg['wells'][0]
    cfg['observations'].append([w[0] + 20.0, w[1], cfg['observations'][0][2], 1.0])
    cfgs = [cfg]
    for _ in range(rng.choice([0, 1, 1, 2])):
        cfgs.append(variant(rng, rng.choice(cfgs)) if rng.random() < 0.7 else
                    dict(gen_project(rng, nreal=2, fine=False, forward=0), duration=8.0, npaths=2))
    tasks = []
    kinds = KINDS + (('oneka', 'oneka') if mode == 'seq' else ())
    same = rng.choice(kinds) if rng.random() < 0.4 else None
    for j in range(rng.choice([2, 2, 3, 4, 6] if mode == 'seq' else [2, 2, 3, 4])):
        t = dict(kind=same or rng.choice(kinds), cfg=rng.randrange(len(cfgs)), s=rng.getrandbits(32))
        if rng.random() < 0.25:
            t['fail'] = rng.choice(['obs', 'flow', 'alloc'] if mode == 'seq' else ['obs', 'flow'])
            t['at'] = rng.choice([0, 3, 30])
        elif mode == 'seq' and rng.random() < 0.25:
            t['interrupt'] = rng.choice([50, 300, 1000, 3000]) + rng.randrange(50)
        if mode == 'seq' and rng.random() < 0.15:
            t['edit'] = True
        tasks.append(t)
    if mode == 'seq':
        tasks.append(dict(kind='query', cfg=rng.randrange(len(cfgs)), s=rng.getrandbits(32)))
    opc = rng.random() < 0.25
    return dict(mode=mode, cfgs=cfgs, tasks=tasks, shared=rng.random() < 0.7,
                sched=dict(seed=rng.getrandbits(32), p=rng.choice([0.002, 0.01, 0.05, 0.2]), opcodes=opc))


def make_inputs(cfg):
    li = cfg.get('listy')
    return dict(c_dist=tup(cfg['c_dist'], li), p_dist=tup(cfg['p_dist'], li), t_dist=tup(cfg['t_dist'], li),
                wells=well_list(cfg), obs=[list(o) for o in cfg['observations']] if li else obs_list(cfg))


def edit(inp, cfg):
    """What a caller may do to its own lists between runs."""
    inp['obs'][:] = [(o[0], o[1], o[2] + 0.25, o[3] * 1.5) for o in inp['obs']]
    inp['wells'][:] = [(w[0], w[1], w[2], [q * 0.9 for q in w[3]] if isinstance(w[3], (list, tuple)) else w[3] * 0.9) for w in inp['wells']]


def frozen(inp):
    return pickle.dumps(inp)


def mean_q(d):
    return float(np.mean(d))


def fixed_model(cfg, inp):
    from oneka.model import Model
    t = inp['wells'][cfg['target']]
    wells = [(w[0], w[1], w[2], mean_q(w[3])) for w in inp['wells']]
    mo = Model(cfg['base'], mean_q(inp['c_dist']), mean_q(inp['p_dist']), mean_q(inp['t_dist']), wells, t[0], t[1])
    ev, cov = mo.fit_regional_flow([o for o in inp['obs'] if min(np.hypot(o[0] - w[0], o[1] - w[1]) for w in inp['wells']) > 30], t[0], t[1])
    return mo, ev, cov


def compute(t, cfg, inp):
    """One computation; returns plain comparable data."""
    import oneka.stochastic as st
    import oneka.deterministic as de
    import oneka.capturezone as cz
    import oneka.utilities as ut
    from oneka.probabilityfield import ProbabilityField
    k = t['kind']
    obs = inp['obs']
    if t.get('fail') == 'obs':
        obs = list(obs) + [(obs[0][0] + 40.0, obs[0][1], cfg['base'] - 1.0, 1.0)]      # a head below the base cannot be fitted
    args = (cfg['base'], inp['c_dist'], inp['p_dist'], inp['t_dist'], inp['wells'], obs, cfg['spacing'], cfg['umbra'], cfg['confined'], cfg['tol'], cfg['maxstep'])
    if k == 'stochastic':
        return field_state(st.create_stochastic_capturezone(cfg['target'], cfg['npaths'], cfg['duration'], cfg['nrealizations'], *args))
    if k == 'deterministic':
        return field_state(de.create_deterministic_capturezone(cfg['target'], cfg['npaths'], cfg['duration'], *args))
    if k == 'oneka':
        import oneka.oneka
        pf = oneka.oneka.oneka('p', 'r', cfg['target'], cfg['npaths'], cfg['duration'], cfg['nrealizations'], cfg['base'], inp['c_dist'], inp['p_dist'], inp['t_dist'],
                               inp['wells'], obs, cfg['buffer'], cfg['spacing'], cfg['umbra'], cfg['smooth'], cfg['confined'], cfg['tol'], cfg['maxstep'])
        return field_state(pf)
    if k == 'filter':
        return repr(ut.filter_obs(obs, inp['wells'], cfg['buffer']))
    if k == 'summary':
        return ut.summary_statistics(obs, ['Easting', 'Northing', 'Head', 'Stdev'], ['12.2f'] * 4, 'T').getvalue()
    if k == 'field':
        rng = np.random.RandomState.__mro__[1](t['s'])      # the real one
        x0, y0 = inp['wells'][0][:2]
        pf = ProbabilityField(cfg['spacing'], cfg['spacing'], x0, y0)
        log = []
        for _ in range(8):
            op = rng.randint(4)
            if op == 0:
                pf.expand(x0 - rng.randint(5, 60), x0 + rng.randint(5, 60), y0 - rng.randint(5, 60), y0 + rng.randint(5, 60))
            elif op in (1, 2):
                n = rng.randint(1, 5)
                pf.rasterize(list(x0 + rng.uniform(-50, 50, n)), list(y0 + rng.uniform(-50, 50, n)), cfg['umbra'])
            else:
                pf.register(float(rng.randint(1, 4)))
            log.append(field_state(pf))
        return log
    mo, ev, cov = fixed_model(cfg, dict(inp, obs=obs))
    if k == 'fit':
        return repr(np.asarray(ev).tolist()), repr(np.asarray(cov).tolist())
    if k == 'query':
        return queries(t, mo)
    g = mo.compute_velocity_confined if cfg['confined'] else mo.compute_velocity

    def fe(xy):
        vx, vy = g(xy[0], xy[1])
        return np.array([-vx, -vy])
    if t.get('fail') == 'flow':
        fe = FlowSeam(fe, [dict(at=t['at'], what='AquiferError', last=None)])
    x, y, r = inp['wells'][cfg['target']][:3]
    if k == 'trace':
        return repr([(float(v[0]), float(v[1])) for v in cz.compute_backtrace(x + r + 1, y, cfg['duration'], cfg['tol'], cfg['maxstep'], fe)])
    pf = ProbabilityField(cfg['spacing'], cfg['spacing'], x, y)
    cz.compute_capturezone(x, y, r, cfg['npaths'], cfg['duration'], pf, cfg['umbra'], 1.0, cfg['tol'], cfg['maxstep'], fe)
    return field_state(pf)


def queries(t, mo):
    """Point queries far and near, dry and singular."""
    rng = np.random.RandomState.__mro__[1](t['s'])
    pts = [(float(mo.xo + x), float(mo.yo + y)) for x, y in zip(rng.uniform(-1, 1, 8) * 10.0 ** rng.uniform(0, 5, 8), rng.uniform(-1, 1, 8) * 10.0 ** rng.uniform(0, 5, 8))]
    pts += [(np.float64(w[0]), np.float64(w[1])) for w in mo.wells]
    log = []
    for n in ('compute_potential', 'compute_head', 'compute_discharge', 'compute_velocity', 'compute_velocity_confined'):
        for x, y in pts:
            try:
                log.append(repr(getattr(mo, n)(x, y)))
            except Exception as e:      # noqa
                log.append(type(e).__name__)
    log.append(repr(np.exp(np.float64(1e3)) - np.float64(1) / np.float64(0.0)))
    return log


def attempt(t, cfg, inp):
    """-> ('ok', data) or ('raised', type)"""
    alloc = t.get('fail') == 'alloc'
    if alloc:
        SIM.alloc_active, SIM.alloc_fail, SIM.alloc_count = True, (1 + t['at'],), 0
    try:
        if 'interrupt' in t:
            return 'ok', LineInterrupter(t['interrupt'], KeyboardInterrupt('simulated')).run(lambda: compute(t, cfg, inp))
        return 'ok', compute(t, cfg, inp)
    except (Exception, KeyboardInterrupt) as e:         # noqa
        if 'interrupt' in t or t.get('fail'):
            pass
        return 'raised', type(e).__name__
    finally:
        if alloc:
            SIM.alloc_active = False
        SIM.interrupted = False


def alone(j, t, cfg, inp):
    """The same computation in a process of its own."""
    def f():
        SIM.task = j
        return attempt(t, cfg, inp)
    return in_child(f)


def run(sc, ctx):
    lg = logging.getLogger('Oneka')
    lg.addHandler(logging.NullHandler())
    lg.setLevel(logging.INFO)
    import matplotlib.pyplot as plt
    cfgs = sc['cfgs']
    tasks = [t for t in sc['tasks'] if t['cfg'] < len(cfgs)]
    if not tasks:
        return
    pool = [make_inputs(c) for c in cfgs]
    inputs = [pool[t['cfg']] if sc['shared'] else make_inputs(cfgs[t['cfg']]) for t in tasks]
    if sc['shared'] and len(set(t['cfg'] for t in tasks)) < len(tasks):
        SIM.probe('shared_inputs')
    if len(set(t['cfg'] for t in tasks)) > 1:
        SIM.probe('near_equal_inputs')
    # results alone, with the inputs as they will be when the computation starts
    want = []
    state = {}
    for j, t in enumerate(tasks):
        key = t['cfg'] if sc['shared'] else j
        if key not in state:
            state[key] = pickle.loads(frozen(inputs[j]))
        if t.get('edit'):
            edit(state[key], cfgs[t['cfg']])
        want.append(alone(j, t, cfgs[t['cfg']], pickle.loads(frozen(state[key]))))
    got = []

    def judge(j, res):
        t = tasks[j]
        SIM.probe(t['kind'])
        if res[0] == 'raised':
            SIM.probe('interrupted' if 'interrupt' in t and res[1] == 'KeyboardInterrupt' else 'failed')
        if res != want[j]:
            a, b = want[j], res
            raise Violation('cross-talk', 'computation %d (%s%s) gave %s in company of others, %s alone' %
                            (j, t['kind'], ', inputs shared' if sc['shared'] else '', describe(b), describe(a)))
        ctx.log(j, res[0], repr(res[1])[:20000])

    def unchanged(before, when):
        for k, (a, b) in enumerate(zip(before, inputs)):
            if a != frozen(b):
                c = pickle.loads(a)
                names = [n for n in c if pickle.dumps(c[n]) != pickle.dumps(b[n])]
                if not names:
                    continue        # only object identities differ
                raise Violation('input-changed', 'the caller\'s %s were modified %s' % (', '.join(names), when))
    if sc['mode'] == 'threads':
        before = [frozen(i) for i in inputs]
        s = Scheduler(sc['sched'], max_steps=10**9)
        res = s.run([lambda t=t, i=i: attempt(t, cfgs[t['cfg']], i) for t, i in zip(tasks, inputs)])
        SIM.last_switches = s.switches
        SIM.probe('interleaved')
        ctx.count('switches', len(s.switches))
        ctx.log(s.switches)
        for j, r in enumerate(res):
            if r[0] == 'exc':
                raise r[1]
            judge(j, r[1])
        unchanged(before, 'during interleaved computations')
    else:
        SIM.probe('sequential')
        for j, t in enumerate(tasks):
            if t.get('edit'):
                edit(inputs[j], cfgs[t['cfg']])
                SIM.probe('input_edited')
            before = [frozen(i) for i in inputs]
            SIM.task = j
            judge(j, attempt(t, cfgs[t['cfg']], inputs[j]))
            unchanged(before, 'by computation %d (%s)' % (j, t['kind']))
            plt.close('all')
    SIM.simtime += sum(abs(cfgs[t['cfg']]['duration']) for t in tasks)
    ctx.nontrivial = len(tasks) >= 2 and sum(w[0] == 'ok' for w in want) >= 2
    ctx.sample = dict(mode=sc['mode'], tasks=[t['kind'] for t in tasks], shared=sc['shared'], opcodes=sc['sched']['opcodes'])


def describe(r):
    if r[0] == 'raised':
        return r[1]
    s = repr(r[1])
    import hashlib
    return '%s (%d characters, digest %s)' % (s[:60].replace('\n', ' '), len(s), hashlib.sha256(s.encode()).hexdigest()[:8])


def simplify(sc):
    if sc['sched'].get('opcodes') and 'switches' not in sc['sched']:
        yield dict(sc, sched=dict(sc['sched'], opcodes=False))
    for c in range(len(sc['cfgs'])):
        k = sc['cfgs'][c]
        for n, v in (('npaths', 1), ('listy', False)):
            if k[n] != v:
                cf = list(sc['cfgs'])
                cf[c] = dict(k, **{n: v})
                yield dict(sc, cfgs=cf)
