"""C24: a run fits exactly the retained observations, and its log states them and the recharge truly."""
import copy
import logging
import math
import os
import re

import numpy as np

from ..core import SIM, Violation, ListHandler, LineInterrupter
from ..project import shorten, gen_project, oneka_args, ARG_NAMES, ModelSpy, coef_check
from .c15 import NUM, lines_of

PROP = 'C24'
RUNS = {'quick': 1000, 'thorough': 15000}
RULE = ('each run is a session of 1-3 whole runs (stochastic and deterministic, some interrupted or failing part-way, the same list shared, reordered or re-measured) whose observations include repeated '
        'measurements and ones on either side of the buffer of any well; every model used is checked against an independent fit to the independently filtered observations, and the active '
        'observations, summary table and recharge in the log against them; non-trivial: at least one observation dropped and one averaged')
REAL = ['oneka.* (whole runs)']
STUBS = ['randomness (seeded streams, extreme draws)', 'plt.show', 'Axes.fill', 'clock', 'disk below Python file objects']
LISTS = (('runs',), ('obs',))
MINLEN = {'runs': 1, 'obs': 7}
PROBES = ('dropped', 'averaged', 'apart_in_list', 'triple', 'near_other_well', 'stochastic', 'deterministic', 'interrupted', 'failed', 'after_failure', 'just_outside', 'edge', 'pair')


def gen(rng, tier, i):
    cfg = gen_project(rng, nreal=rng.choice([2, 2, 3]), fine=False, dry=0.2)
    shorten(cfg, 6)
    cfg['npaths'] = 1
    obs = [o for o in cfg['observations'] if all(math.hypot(o[0] - w[0], o[1] - w[1]) > cfg['buffer'] * 1.1 + 2 for w in cfg['wells'])]
    out = [dict(o=o, kind='plain') for o in obs]
    for _ in range(rng.choice([0, 1, 2, 2, 4])):
        b = rng.choice(obs)
        for _ in range(rng.choice([1, 1, 2]) if rng.random() < 0.93 else rng.choice([3, 5, 11])):
            out.append(dict(o=[round(b[0] + rng.choice([0, 0, rng.uniform(-0.2, 0.2)]), 3), round(b[1] + rng.choice([0, 0, rng.uniform(-0.2, 0.2)]), 3),
                               round(b[2] + rng.gauss(0, 0.3), 3), rng.choice([b[3], round(10 ** rng.uniform(-2, 0), 4)])], kind='again'))
    for _ in range(rng.choice([0, 0, 1, 2])):
        # a pair as far apart as one metre allows, or just further
        b, th = rng.choice(obs), rng.choice([0, math.pi / 4, rng.uniform(0, 2 * math.pi)])
        d = rng.choice([0.86, 0.8, 1.12, 1.3, 1.39])
        o = [b[0] + d * math.cos(th), b[1] + d * math.sin(th), round(b[2] + rng.gauss(0, 0.3), 3), round(10 ** rng.uniform(-2, 0), 4)]
        if all(q['o'] is b or math.hypot(q['o'][0] - o[0], q['o'][1] - o[1]) > 3 for q in out):
            out.append(dict(o=o, kind='pair'))
    for _ in range(rng.choice([0, 1, 2, 3])):
        w = rng.choice(cfg['wells'])
        th = rng.uniform(0, 2 * math.pi)
        d = cfg['buffer'] * rng.choice([0.0, 0.3, 0.9, 0.97, 0.99, 1.03, 1.1, 1.0])
        z = obs[0][2] + rng.gauss(0, 1.5)
        o = [w[0] + d * math.cos(th), w[1] + d * math.sin(th), round(z, 3), round(10 ** rng.uniform(-1.5, 0), 4)]
        if d == cfg['buffer']:
            # at that very distance, due east, west, north or south
            o[:2] = rng.choice([[w[0] + d, w[1]], [w[0] - d, w[1]], [w[0], w[1] + d], [w[0], w[1] - d]])
            if not at_edge(o, w, d):
                continue
        if d > cfg['buffer'] and any(math.hypot(o[0] - q[0], o[1] - q[1]) < 3 for q in obs):
            continue
        out.append(dict(o=o, kind='near'))
    for d in out:
        d['o'][2] = max(d['o'][2], round(cfg['base'] + 0.3, 3))         # above the base
    if rng.random() < 0.7:
        rng.shuffle(out)
    runs = []
    for _ in range(rng.choice([1, 2, 3])):
        runs.append(dict(nreal=rng.choice([1, cfg['nrealizations']]), order=rng.choice(['same', 'same', 'reversed', 'sorted']), buffer=rng.choice([1, 1, 1, 0.5]),
                         end=rng.choice(['ok', 'ok', 'ok', 'interrupt', 'fail']), at=rng.randrange(20, 3000), dz=rng.choice([0, 0, 0.5]), extreme=rng.choice([0, 0, 0.5])))
    return dict(cfg=cfg, obs=out, runs=runs, share=rng.random() < 0.5)


def at_edge(o, w, d):
    """At exactly the distance d, with no rounding involved."""
    a, b = abs(o[0] - w[0]), abs(o[1] - w[1])
    return a * b == 0 and a + b == d


def retained(obs, wells, buffer):
    """Independent of the order: (retained, number dropped, number averaged); None where it is a matter of rounding."""
    keep, dropped = [], 0
    for o in obs:
        d = min(math.hypot(o[0] - w[0], o[1] - w[1]) for w in wells)
        edge = any(at_edge(o, w, buffer) for w in wells)
        if edge:
            SIM.probe('edge')
        if abs(d - buffer) < 1e-6 * buffer and not edge:
            return None
        if d < buffer or edge:
            dropped += 1
        else:
            keep.append(o)
    groups = []
    for o in keep:
        for g in groups:
            if math.hypot(o[0] - g[0][0], o[1] - g[0][1]) < 1.0:
                g.append(o)
                break
        else:
            groups.append([o])
    for g in groups:
        for h in groups:
            for a in g:
                for b in h:
                    d = math.hypot(a[0] - b[0], a[1] - b[1])
                    if d >= 0.9 if g is h else d < 1.1:
                        return None
    out = []
    for g in groups:
        w = [1 / o[3] ** 2 for o in g]
        out.append(dict(at=[tuple(o[:2]) for o in g], z=sum(a * o[2] for a, o in zip(w, g)) / sum(w), s=1 / math.sqrt(sum(w)), n=len(g)))
    return out, dropped


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(b))


def check_log(recs, want, dropped, keys, cfg, who):
    text = '\n'.join(recs)
    lines = lines_of(text)
    start = [j for j, l in enumerate(lines) if 'active observations' in l]
    if len(start) != 1:
        raise Violation('no-observations', '%s: the log lists the active observations %d times' % (who, len(start)))
    n = int(re.findall(r'\d+', lines[start[0]])[0])
    got = []
    for l in lines[start[0] + 1:]:
        m = re.match(r'\s*\[\s*\d+\]\s*(.*)$', l)
        if not m:
            break
        got.append([float(x) for x in re.findall(NUM, m.group(1))])
    if n != len(want) or len(got) != len(want):
        raise Violation('active-observations', '%s: the log states %d active observations and lists %d; %d are retained' % (who, n, len(got), len(want)))
    left = list(want)
    for g in got:
        hit = [w for w in left if len(g) == 4 and any(near(g[0], x) and near(g[1], y) for x, y in w['at']) and near(g[2], w['z']) and near(g[3], w['s'])]
        if not hit:
            raise Violation('active-observations', '%s: the log lists the active observation %r, which is none of the retained ones' % (who, g))
        left.remove(hit[0])
    if sum('observation removed' in l for l in lines) != dropped:
        raise Violation('removed-observations', '%s: %d observations lie within the buffer, %d are logged as removed' % (who, dropped, sum('observation removed' in l for l in lines)))
    # the table
    V = np.array(got)
    stat = dict(cnt=np.full(4, len(V)), min=V.min(0), med=np.median(V, 0), max=V.max(0), avg=V.mean(0), std=V.std(0))
    for k, v in stat.items():
        row = [l for l in lines if re.match(r'\s*%s\s*:' % k, l)]
        nums = [float(x) for x in re.findall(NUM, row[0].split(':', 1)[1])] if row else []
        if len(nums) != 4 or any(abs(a - b) > 0.00501 + 1e-9 * abs(b) for a, b in zip(nums, v)):
            raise Violation('summary-table', '%s: the summary table gives %s = %r instead of %r' % (who, k, nums, v.tolist()))
    # recharge, positive when water is added
    if cfg['nrealizations'] > 1:
        vals = [float(re.findall(NUM, re.split(r'#\s*\d+\s*:', l)[1])[-1]) for l in lines if re.search(r'Realization\s*#', l)]
    else:
        vals = [float(re.findall(NUM, l.split('=')[1])[0]) for l in lines if re.match(r'\s*recharge\s*=', l)]
    if len(vals) < len(keys):
        raise Violation('recharge', '%s: the recharge of %d models is logged, %d were used' % (who, len(vals), len(keys)))
    for r, (v, key) in enumerate(zip(vals, keys)):
        A, B = key[6][:2]
        N = -2 * (A + B)
        if abs(v - N) > 1e-3 * abs(N) + 1e-15:
            raise Violation('recharge', '%s: the recharge of model %d is logged as %r; its flow diverges at %r' % (who, r, v, N))


def run(sc, ctx):
    import oneka.oneka as ok
    import matplotlib.pyplot as plt
    lg = logging.getLogger('Oneka')
    lg.setLevel(logging.INFO)
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    SIM.fs_active = True
    SIM.record_mvn = True
    base = dict(sc['cfg'], observations=[d['o'] for d in sc['obs']])
    shared = oneka_args(base)
    failed = False
    dropped = averaged = 0
    for n, r in enumerate(sc['runs']):
        SIM.task = n
        SIM.now += 2
        SIM.extreme_p = r['extreme']
        cfg = dict(base, nrealizations=r['nreal'], buffer=base['buffer'] * r['buffer'])
        a = dict(zip(ARG_NAMES, shared if sc['share'] else oneka_args(base)))
        a.update(nrealizations=cfg['nrealizations'], buffer=cfg['buffer'])
        L = a['observations']
        if r['order'] == 'reversed':
            L.reverse()
        elif r['order'] == 'sorted':
            L.sort(key=lambda o: o[2])
        if r['dz']:
            L[0] = type(L[0])([L[0][0], L[0][1], L[0][2] + r['dz'], L[0][3]])       # measured again
        if r['end'] == 'fail':
            a['base'] = max(o[2] for o in L) + 1.0          # all heads below the base: the fit fails
        ref = retained([list(o) for o in L], base['wells'], cfg['buffer'])
        if ref is None or len(ref[0]) < 7:
            ctx.count('undecided')
            continue
        want, drop = ref
        h = ListHandler()
        lg.addHandler(h)
        SIM.mvn[:] = []
        err = None
        before = copy.deepcopy(L)
        try:
            with ModelSpy() as spy:
                if r['end'] == 'interrupt':
                    LineInterrupter(r['at'], KeyboardInterrupt('simulated')).run(lambda: ok.oneka(*a.values()))
                else:
                    ok.oneka(*a.values())
        except (Exception, KeyboardInterrupt) as e:     # noqa
            err = e
        finally:
            lg.removeHandler(h)
            SIM.interrupted = False
        plt.close('all')
        who = 'run %d' % n
        if err is not None and not (r['end'] == 'interrupt' and isinstance(err, KeyboardInterrupt)) and not (r['end'] == 'fail' and isinstance(err, Exception)):
            raise err
        if [list(o) for o in L] != [list(o) for o in before]:
            raise Violation('input-changed', '%s changed the caller\'s observations' % who)
        keys = spy.keys.get(n, [])
        if err is None and not keys:
            ctx.count('models_not_seen')
        obs = [[w['at'][0][0], w['at'][0][1], w['z'], w['s']] for w in want]
        mv = [m[1:] for m in SIM.mvn]
        for k, key in enumerate(keys):
            m = mv[k] if cfg['nrealizations'] > 1 and len(mv) >= len(keys) else None
            z = coef_check(key, cfg, obs, m, '%s, model %d, %d of %d observations retained' % (who, k, len(want), len(L)))
            if cfg['nrealizations'] == 1 and (np.abs(z) > 0.02).any():
                raise Violation('fit-mean', '%s: the deterministic model\'s coefficients are not those of the fit to the %d retained observations' % (who, len(want)))
        if err is None:
            check_log([m for _, _, m in h.records], want, drop, keys, cfg, who)
            SIM.probe('stochastic' if cfg['nrealizations'] > 1 else 'deterministic')
            if failed:
                SIM.probe('after_failure')
            dropped += drop
            averaged += sum(w['n'] > 1 for w in want)
            if drop:
                SIM.probe('dropped')
            if any(w['n'] > 1 for w in want):
                SIM.probe('averaged')
            if any(w['n'] > 2 for w in want):
                SIM.probe('triple')
        else:
            failed = True
            SIM.probe('interrupted' if r['end'] == 'interrupt' else 'failed')
            if r['end'] == 'fail':
                SIM.fire('failed_run')
        SIM.simtime += abs(cfg['duration'])
        ctx.log(n, type(err).__name__, keys)
    SIM.fs_active = False
    for d in sc['obs']:
        if d['kind'] == 'near':
            q = [math.hypot(d['o'][0] - w[0], d['o'][1] - w[1]) / base['buffer'] for w in base['wells']]
            if min(q) < 1 and min(q) != q[base['target']]:
                SIM.probe('near_other_well')
            if 1 < min(q) < 1.2:
                SIM.probe('just_outside')
    ks = [d['kind'] for d in sc['obs']]
    if 'pair' in ks:
        SIM.probe('pair')
    if 'again' in ks and ks.index('again') > 0:
        SIM.probe('apart_in_list')
    ctx.nontrivial = dropped > 0 and averaged > 0
    ctx.count('observations_dropped', dropped)
    ctx.count('observations_averaged', averaged)
    ctx.sample = dict(runs=sc['runs'], observations=len(sc['obs']), kinds=ks)


def simplify(sc):
    for i, r in enumerate(sc['runs']):
        for k, v in (('nreal', 1), ('order', 'same'), ('buffer', 1), ('end', 'ok'), ('dz', 0), ('extreme', 0)):
            if r[k] != v:
                yield dict(sc, runs=[dict(q, **{k: v}) if j == i else q for j, q in enumerate(sc['runs'])])
    if sc['share']:
        yield dict(sc, share=False)
    c = sc['cfg']
    for k, v in (('listy', False), ('smooth', 0), ('p_dist', 0.2), ('c_dist', 20.0), ('t_dist', 15.0)):
        if c[k] != v:
            yield dict(sc, cfg=dict(c, **{k: v}))
