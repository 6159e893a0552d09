"""C03: an interrupt ends the run and never becomes a finished result."""
import glob
import logging
import os
import sys
import types

import numpy as np

from ..core import SIM, Violation, ListHandler, LineInterrupter, HarnessError
from ..flows import gen_flow, real_feval, FlowSeam
from ..project import shorten, gen_project, run_stochastic, run_deterministic, oneka_args, ARG_NAMES
from ..ref import field_state
from . import c01, c13

PROP = 'C03'
RUNS = {'quick': 900, 'thorough': 18000}
RULE = ('each run performs one computation (trace, capture zone, stochastic, deterministic, archived run, an archiving alone, or a run through the driver) twice from the same seed: once '
        'undisturbed to learn its instants, once with KeyboardInterrupt / SystemExit raised at a chosen instant (a line of OnekaPy code, a flow evaluation, a '
        'disk operation, a random draw, or while plots are shown); non-trivial: the interrupt arrived after the computation had started')
REAL = ['oneka.*', 'runme.main']
STUBS = ['clock, randomness, disk below Python file objects, plot display (Axes.fill stubbed)']
LISTS = ()
PROBES = ('archive', 'trace', 'zone', 'stochastic', 'deterministic', 'oneka', 'main', 'at_line', 'at_eval', 'at_disk', 'at_draw', 'at_show', 'in_archive_code')


class Halt(BaseException):
    """Some other request to stop (as raised by a job controller)."""


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'Halt': Halt}


def gen(rng, tier, i):
    kind = rng.choice(['trace', 'zone', 'stochastic', 'deterministic', 'oneka', 'oneka', 'main', 'archive', 'archive', 'archive', 'archive'])
    sc = dict(kind=kind, exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'SystemExit', 'Halt']), u=rng.random(), v=rng.random())
    sc['where'] = rng.choice(['line', 'line', 'line', 'eval'] + (['disk', 'disk', 'show', 'draw'] if kind in ('oneka', 'main') else ['draw'] if kind == 'stochastic' else []))
    if kind == 'archive':
        sc['where'] = rng.choice(['line', 'line', 'line', 'disk'])
        sc['dump'] = dict(size=rng.choice([[1, 1], [2, 3], [12, 9], [40, 40], [150, 210]]), content=rng.choice(['tally', 'random', 'zeros']), s=rng.getrandbits(32), nobs=rng.choice([7, 12]))
    elif kind in ('trace', 'zone'):
        sc.update(flow=gen_flow(rng), maxstep=2.0, tol=1e-3, reach=rng.choice([2, 8]), sign=1, start=[1.25, 0.0], npaths=rng.choice([1, 3]),
                  faults=[dict(at=rng.choice([0, 3, 20, 60]), what=rng.choice(['AquiferError', 'ValueError', 'nan']), last=rng.choice([1, None]))]
                  * (rng.random() < 0.4))
    else:
        sc['cfg'] = gen_project(rng, nreal=rng.choice([2, 3]), fine=False)
        shorten(sc['cfg'], 20)
        if sc['kind'] in ('oneka', 'main') and rng.random() < 0.3:
            sc['cfg']['nrealizations'] = 1
    return sc


def job(sc):
    """The computation, as a callable; everything it needs is prepared afresh."""
    k = sc['kind']
    if k in ('trace', 'zone'):
        from oneka.capturezone import compute_backtrace, compute_capturezone
        from oneka.probabilityfield import ProbabilityField
        d = abs(c01.duration_for(sc))
        seam = FlowSeam(real_feval(sc['flow']), sc['faults'], budget=60000)
        if k == 'trace':
            return lambda: compute_backtrace(1.25, 0.0, d, sc['tol'], sc['maxstep'], seam)
        pf = ProbabilityField(2.0, 2.0, 0.0, 0.0)
        return lambda: compute_capturezone(0.0, 0.0, 0.25, sc['npaths'], d, pf, 2.0, 1.0, sc['tol'], sc['maxstep'], seam)
    if k == 'archive':
        from oneka.archive import dump_oneka
        args, pf = c13.make(sc['dump'])
        return lambda: dump_oneka(*args, pf)
    cfg = sc['cfg']
    if k == 'stochastic':
        return lambda: run_stochastic(cfg)
    if k == 'deterministic':
        return lambda: run_deterministic(cfg)
    if k == 'oneka':
        from oneka.oneka import oneka
        return lambda: oneka(*oneka_args(cfg))
    import runme
    m = types.ModuleType('simdata')
    a = dict(zip(ARG_NAMES, oneka_args(cfg)))
    for n in ('projectname', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist', 'observations', 'buffer',
              'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep'):
        setattr(m, n.upper(), a[n])
    m.WELLS = a['stochastic_wells']
    sys.modules['simdata'] = m
    return lambda: runme.main('simdata')


class Watch:
    """Counts work, and raises at a chosen flow evaluation / draw / disk operation / display."""

    def __init__(self, what=None, at=None, exc=None):
        self.n = dict(eval=0, draw=0, disk=0, show=0)
        self.what, self.at, self.exc = what, at, exc
        self.after = []
        self.snapshot = None

    def hit(self, what):
        self.n[what] += 1
        if SIM.interrupted:
            self.after.append(what)
        elif what == self.what and self.n[what] == self.at:
            self.fire()

    def fire(self):
        SIM.interrupted = True
        SIM.fire('interrupt')
        raise self.exc

    def install(self):
        from oneka.model import Model
        import oneka.capturezone
        w = self
        self.undo = []
        for n in ('compute_velocity', 'compute_velocity_confined', 'compute_discharge', 'construct_fit'):
            f = Model.__dict__[n]

            def g(s, *a, _f=f, **k):
                w.hit('eval')
                return _f(s, *a, **k)
            setattr(Model, n, g)
            self.undo.append((Model, n, f))
        call = FlowSeam.__call__

        def fe(s, xy):
            w.hit('eval')
            return call(s, xy)
        FlowSeam.__call__ = fe
        self.undo.append((FlowSeam, '__call__', call))
        rs = type(SIM).rs

        def draw(s):
            w.hit('draw')
            return rs(s)
        type(SIM).rs = draw
        self.undo.append((type(SIM), 'rs', rs))
        SIM.on_show = lambda: w.hit('show')

        def fs(op, path, n):
            # finishing or closing files that are open is clean-up, not work
            if SIM.interrupted:
                return None
            w.hit('disk')
            return None
        SIM.fs_fault = fs
        SIM.fs_active = True

    def remove(self):
        for o, n, f in self.undo:
            setattr(o, n, f)
        SIM.fs_active = False
        SIM.fs_fault = None
        SIM.on_show = None


def archives():
    return {f: open(f, 'rb').read() for f in sorted(glob.glob(os.path.join(SIM.scratch, '**'), recursive=True)) if f.endswith('.bz2')}


def load(f):
    from oneka.archive import load_oneka
    return load_oneka(f)


def fresh():
    import matplotlib.pyplot as plt
    plt.close('all')
    for f in glob.glob(os.path.join(SIM.scratch, '*')):
        if os.path.isfile(f):
            os.unlink(f)
    lg = logging.getLogger('Oneka')
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.addHandler(ListHandler())
    lg.setLevel(logging.INFO)
    SIM.plots.clear()
    SIM.shows = 0
    SIM.plots_after_interrupt = 0
    SIM.interrupted = False


def digest_archive(d):
    return repr([(k, d[k]) for k in ARG_NAMES if k != 'runtime']), field_state(d['pfield'])


def run(sc, ctx):
    SIM.record_plots = True
    exc = EXC[sc['exc']]('simulated')
    SIM.probe(sc['kind'])
    # undisturbed
    fresh()
    w = Watch()
    w.install()
    li = LineInterrupter(collect=True)
    f = job(sc)
    try:
        try:
            li.run(f)
        except BaseException as e:       # noqa
            raise HarnessError('undisturbed run failed: %r' % (e,))
    finally:
        w.remove()
    done = {k: digest_archive(load(k)) for k in archives()}
    total = dict(w.n)
    if sc['kind'] in ('oneka', 'main', 'archive') and len(done) != 1:
        raise Violation('no-archive', 'the undisturbed run left %d archives' % len(done))
    # disturbed, same seeds
    where = sc['where']
    at = None
    if where == 'line':
        # a distinct line first, then one of its occurrences: rare lines are as likely as those in the inner loop
        lines = {}
        for n, l in enumerate(li.where):
            lines.setdefault(l, []).append(n + 1)
        keys = sorted(lines)
        # lines of the archiving code are few; give them a share of their own
        arch = [k for k in keys if k[0] == 'archive.py']
        pool = arch if arch and sc['v'] < 0.3 else keys
        l = pool[int(sc['u'] * len(pool))]
        occ = lines[l]
        at = occ[int((sc['v'] * 7919) % 1 * len(occ))]
        if l[0] == 'archive.py':
            SIM.probe('in_archive_code')
    else:
        if not total[where]:
            where = 'eval'
        at = 1 + int(sc['u'] * total[where])
    SIM.probe('at_' + where)
    SIM.new_entropy(SIM.seed)
    SIM.now = 1595635200.25
    SIM.clock_reads = 0
    fresh()
    w = Watch(where, at, exc)
    li = LineInterrupter(at if where == 'line' else None, exc)
    w.install()
    f = job(sc)
    err = None
    val = None
    try:
        try:
            val = li.run(f)
        except BaseException as e:      # noqa
            err = e
    finally:
        w.remove()
    if not SIM.interrupted:
        if err is not None:
            raise err
        raise Violation('not-repeatable', 'the same computation from the same seed took a different course the second time (instant %d of %s never came)' % (at, where))
    spot = '%s %d of %s' % (where, at, sc['kind'])
    if err is None:
        raise Violation('swallowed', '%s at %s did not reach the caller; the call returned normally' % (sc['exc'], spot))
    if not isinstance(err, type(exc)):
        raise Violation('replaced', '%s at %s reached the caller as %r' % (sc['exc'], spot, err))
    if SIM.plots_after_interrupt:
        raise Violation('work-after', 'after %s at %s: %d further plotting operations' % (sc['exc'], spot, SIM.plots_after_interrupt))
    if w.after:
        raise Violation('work-after', 'after %s at %s: %d further operations (%s ...)' % (sc['exc'], spot, len(w.after), w.after[:3]))
    for name, data in archives().items():
        try:
            d = load(name)
        except Exception:
            ctx.count('partial_archives')
            continue
        # it loads: then it must be the complete result
        ctx.count('complete_archives')
        try:
            got = digest_archive(d)
        except Exception as e:
            raise Violation('finished-result', 'after %s at %s an archive loads that is not a result at all (%r)' % (sc['exc'], spot, e))
        if got not in done.values():
            raise Violation('finished-result', 'after %s at %s an archive loads that is not the result of the run' % (sc['exc'], spot))
    ctx.log(where, at, repr(w.n))
    ctx.nontrivial = True
    ctx.count('interrupts')
    ctx.peak('instants', len(li.where or []))
    ctx.sample = dict(kind=sc['kind'], where=where, at=at, exc=sc['exc'], totals=total)


def simplify(sc):
    if sc['exc'] != 'KeyboardInterrupt':
        yield dict(sc, exc='KeyboardInterrupt')
    if 'flow' in sc:
        f = dict(kind='uniform', a=1.0, b=0.0)
        if sc['flow'] != f:
            yield dict(sc, flow=f)
        if sc['npaths'] != 1:
            yield dict(sc, npaths=1)
        if sc['reach'] != 2:
            yield dict(sc, reach=2)
    elif 'dump' in sc:
        if sc['dump']['size'] != [1, 1]:
            yield dict(sc, dump=dict(sc['dump'], size=[1, 1]))
    else:
        c = sc['cfg']
        for k, v in (('npaths', 1), ('nrealizations', 2), ('smooth', 0), ('confined', True)):
            if c[k] != v and not (k == 'nrealizations' and c[k] < v):
                yield dict(sc, cfg=dict(c, **{k: v}))
        if len(c['wells']) > 1:
            yield dict(sc, cfg=dict(c, wells=[c['wells'][c['target']]], target=0))
