"""C27: an archive alone is enough to repeat a run and to go on with its field."""
import copy
import logging
import os

import numpy as np

from ..core import SIM, Violation, SimCrash
from ..project import shorten, gen_project, oneka_args, ARG_NAMES
from ..ref import field_state
from ..sub import in_child, disk, load

PROP = 'C27'
RUNS = {'quick': 400, 'thorough': 9000}
RULE = ('each run archives a whole simulated run (some killed at the display), restarts the process with another clock and entropy, repeats the run from the archived arguments under the same draws, and drives '
        'the field that was archived and the one loaded through the same 2-25 seeded operations - tracks, realizations, weights, growth, abandoned realizations, failing allocations, bad requests, reports, '
        'archivings of the loaded one followed by further restarts - comparing them after each; non-trivial: at least one archiving between operations')
REAL = ['oneka.* (whole runs)', 'oneka.probabilityfield', 'oneka.archive', 'oneka.visualize (reports)', 'bz2, pickle']
STUBS = ['plt.show', 'Axes.fill', 'clock', 'randomness', 'disk below Python file objects', 'memory']
LISTS = (('ops',),)
PROBES = ('stochastic', 'deterministic', 'killed_at_display', 'repeated', 'restart', 'second_generation', 'pending_marks', 'grown', 'allocation_failed', 'bad_request', 'reported', 'abandoned', 'same_second', 'loaded_again')


def gen(rng, tier, i):
    cfg = gen_project(rng, nreal=2, fine=False, dry=0.3)
    shorten(cfg, 10)
    cfg['npaths'] = min(cfg['npaths'], 3)
    if rng.random() < 0.5:
        cfg['nrealizations'] = 1
    x0, y0 = cfg['wells'][cfg['target']][:2]
    s = cfg['spacing']
    ops = []
    for _ in range(rng.choice([2, 5, 9, 14, 25])):
        k = rng.choice(['track', 'track', 'track', 'register', 'register', 'reset', 'expand', 'restart', 'restart', 'starve', 'bad', 'report'])
        pts = [[round(x0 + rng.gauss(0, 9) * s, 2), round(y0 + rng.gauss(0, 9) * s, 2)] for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < 0.1:
            pts[-1][0] += round(rng.choice([-40, 40]) * s, 2)
        ops.append(dict(op=k, pts=pts, umbra=s * rng.choice([0.5, 1, 1.7, 3]), w=rng.choice([1.0, 1.0, 2.0, 0.25, 1 / 3]), at=rng.choice([1, 1, 2]), clock=rng.choice([0, 0, 1, -3600])))
    return dict(cfg=cfg, ops=ops, kill=rng.random() < 0.3, shift=rng.choice([0, 5, 86400, -86400 * 30]), salt=rng.getrandbits(32), also=rng.random() < 0.3)


def whole(args):
    """One whole run in this process: the field it returned, the field when displayed."""
    import oneka.oneka
    SIM.shows = 0
    return oneka.oneka.oneka(*args)


def newest(before):
    new = [p for p in disk('.bz2') if p not in before]
    if len(new) != 1:
        raise Violation('archive-count', '%d new archives instead of one' % len(new))
    res = load(new[0])
    if res[0] != 'ok':
        raise Violation('not-loadable', 'the archive %r does not load: %r' % (new[0], res[1]))
    SHELF.append((new[0], snapshot(res[1])))
    return res[1]


SHELF = []          # archives loaded so far, and what they held


def snapshot(d):
    return field_state(d['pfield']), repr([d[n] for n in ARG_NAMES if n in d])


def apply(pf, o, plt):
    """One operation; -> what it reports."""
    import oneka.visualize as vz
    x, y = [p[0] for p in o['pts']], [p[1] for p in o['pts']]
    k = o['op']
    try:
        if k in ('track', 'starve'):
            if k == 'starve':
                SIM.alloc_count = 0
                SIM.alloc_fail = (o['at'],)
                SIM.alloc_active = True
                x, y = x + [x[-1] + 300.0 * o['umbra']], y + [y[-1]]
            pf.rasterize(x, y, o['umbra'])
        elif k == 'register':
            pf.register(o['w'])
        elif k == 'reset':
            pf.reset()
        elif k == 'expand':
            pf.expand(min(x), max(x), min(y), max(y))
        elif k == 'bad':
            pf.expand(max(x) + 1, min(x), min(y), max(y))
        elif k == 'report':
            pr, area = vz.create_impact_plot(pf.deltax, pf)
            a = vz.create_deterministic_plot(0, [(0.0, 0.0, 1.0, 1.0)], [], pf) if np.size(pf.pgrid) < 4000 else None
            return ('report', np.asarray(pr).tobytes(), np.asarray(area).tobytes(), a)
        return ('ok',)
    except Exception as e:      # noqa
        return ('raised', type(e).__name__)
    finally:
        SIM.alloc_active = False
        SIM.alloc_fail = ()
        plt.close('all')


def run(sc, ctx):
    import matplotlib.pyplot as plt
    from oneka.archive import dump_oneka
    logging.getLogger('Oneka').addHandler(logging.NullHandler())
    cfg = sc['cfg']
    SHELF[:] = []
    SIM.fs_active = True
    args = oneka_args(cfg, 'project %d é' % (sc['salt'] % 100))
    given = copy.deepcopy(args)
    stoch = cfg['nrealizations'] > 1
    start = dict(seed=SIM.seed)
    before = disk('.bz2')
    pf = None

    if sc['kill']:
        # the process dies while the results are displayed: the archive is all that is left
        def first():
            def show():
                SIM.dead = True
                raise SimCrash()
            SIM.on_show = show
            try:
                whole(args)
            except SimCrash:
                pass
            return disk('.bz2')
        for p, b in in_child(first).items():
            with open(p, 'wb') as f:
                f.write(b)
        SIM.fire('process_crash')
        SIM.probe('killed_at_display')
    else:
        pf = whole(args)
        plt.close('all')
    SIM.probe('stochastic' if stoch else 'deterministic')
    d = newest(before)
    SIM.probe('restart')
    # -- repeat the run from the archive alone, in a later process
    archived = field_state(d['pfield'])
    missing = [n for n in ARG_NAMES if n not in d]
    if missing:
        raise Violation('cannot-repeat', 'the archive does not hold %s' % missing)
    before = disk('.bz2')

    def again():
        SIM.now += sc['shift']
        if stoch:
            SIM.new_entropy(start['seed'])          # the same draws
        else:
            SIM.new_entropy(sc['salt'])             # must not matter
        if sc['also']:
            try:
                whole(tuple(d[n] if n != 'npaths' else 0 for n in ARG_NAMES))           # a rejected run first
            except Exception:       # noqa
                pass
            SIM.new_entropy(start['seed'] if stoch else sc['salt'])
        SIM.task = 0
        try:
            f = whole(tuple(d[n] for n in ARG_NAMES))
        except Exception as e:      # noqa
            return 'raised', repr(e)
        new = disk('.bz2')
        res = [load(p) for p in new]
        if len(res) != 1 or res[0][0] != 'ok':
            return 'archives', len(res)
        e = res[0][1]
        return 'ok', field_state(f), field_state(e['pfield']), repr([e[n] for n in ARG_NAMES])
    res = in_child(again)
    if res[0] != 'ok':
        raise Violation('cannot-repeat', 'a run repeated from its archived arguments ended as %r' % (res,))
    if res[1] != archived or res[2] != archived:
        raise Violation('repeat-differs', 'a %s run repeated from its archived arguments%s gives another field than the archived one' % ('stochastic' if stoch else 'deterministic', ' and the same draws' if stoch else ''))
    if res[3] != repr([d[n] for n in ARG_NAMES]) or res[3] != repr(list(given)):
        raise Violation('arguments-drift', 'the arguments archived by the repeated run are not those of the first: %s' % res[3][:300])
    SIM.probe('repeated')
    # -- go on with the field
    if pf is None:
        # its twin never left memory: the same run, not archived
        def plain():
            SIM.new_entropy(start['seed'])
            SIM.task = 0
            return whole(args)
        pf = in_child(plain)
    twin = pf
    lo = d['pfield']
    if field_state(twin) != field_state(lo):
        raise Violation('loaded-differs', 'the loaded field is not the one that was archived')
    generation = 0
    held = None
    for n, o in enumerate(sc['ops']):
        who = 'operation %d (%s)' % (n, o['op'])
        if o['op'] == 'restart':
            SIM.now += o['clock']
            if not o['clock']:
                SIM.probe('same_second')
            if np.asarray(lo.rgrid).any():
                SIM.probe('pending_marks')
            b4 = disk('.bz2')
            old = field_state(lo)
            dump_oneka(*([d[k] for k in ARG_NAMES] + [lo]))
            if field_state(lo) != old:
                raise Violation('archiving-changed-field', '%s: archiving a field changed it' % who)
            held, lo = lo, newest(b4)['pfield']
            generation += 1
            if generation == 2:
                SIM.probe('second_generation')
            ctx.nontrivial = True
        else:
            shape = np.shape(lo.pgrid)
            other = None if held is None else field_state(held)
            a, b = apply(twin, o, plt), apply(lo, o, plt)
            if a != b:
                raise Violation('continues-differently', '%s on the loaded field gives %s, on the one that was never archived %s' % (who, str(b)[:200], str(a)[:200]))
            if held is not None and field_state(held) != other:
                raise Violation('shared-state', '%s on the loaded field changed the field it was loaded from' % who)
            if np.shape(lo.pgrid) != shape:
                SIM.probe('grown')
            SIM.probe({'starve': 'allocation_failed', 'bad': 'bad_request', 'report': 'reported', 'reset': 'abandoned'}.get(o['op'], 'op'))
        if field_state(twin) != field_state(lo):
            raise Violation('continues-differently', '%s: the loaded field is no longer as the one that was never archived' % who)
        ctx.log(n, o['op'], field_state(lo)[:9])
    # once more, whatever became of the fields loaded from them
    for p, was in SHELF:
        res = load(p)
        if res[0] != 'ok' or snapshot(res[1]) != was:
            raise Violation('loads-differently', 'an archive loaded again, after its field was used, no longer gives what it gave')
    SIM.probe('loaded_again')
    SIM.fs_active = False
    SIM.simtime += abs(cfg['duration'])
    ctx.log(archived)
    ctx.count('archive_generations', generation)
    ctx.sample = dict(nreal=cfg['nrealizations'], kill=sc['kill'], ops=[o['op'] for o in sc['ops']])


def simplify(sc):
    c = sc['cfg']
    for k, v in (('npaths', 1), ('smooth', 0), ('nrealizations', 1), ('listy', False)):
        if c[k] != v:
            yield dict(sc, cfg=dict(c, **{k: v}))
    for k, v in (('kill', False), ('also', False), ('shift', 0)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
