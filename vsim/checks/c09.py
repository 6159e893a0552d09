"""C09: a deterministic run depends on its arguments alone and uses the mean inputs."""
import logging
import math

import numpy as np

from ..core import SIM, Violation, Scheduler, ListHandler
from ..project import (shorten, gen_project, gen_variant, run_deterministic, run_stochastic, ModelSpy, model_of, zone_band, lattice, mean_of, coef_check)
from ..ref import check_geometry, field_state
from ..sub import in_child
from .c07 import declared, inputs, ring_points

PROP = 'C09'
RUNS = {'quick': 300, 'thorough': 6000}
RULE = ('each run performs the same deterministic run several times: under other entropy, other clocks, extreme draws, after stochastic, deterministic, failing and interrupted runs '
        'of other projects, and interleaved with another run by the simulated scheduler; all results must be bit-identical, use the means, and match reference paths; '
        'non-trivial: at least three repetitions under different circumstances and a non-degenerate distribution')
REAL = ['oneka.deterministic', 'oneka.model', 'oneka.capturezone', 'oneka.probabilityfield']
STUBS = ['randomness', 'clock', 'thread scheduling']
LISTS = (('hist',), ('cfg', 'wells'))
MINLEN = {('cfg', 'wells'): 3}
PROBES = ('confined', 'unconfined', 'dry', 'after_stochastic', 'after_other', 'after_failure', 'new_entropy', 'clock_moved', 'interleaved', 'extreme', 'after_variant')


def gen(rng, tier, i):
    cfg = gen_project(rng, nreal=1, dry=0.35)
    hist = [rng.choice(['same', 'stochastic', 'other', 'failure', 'entropy', 'clock', 'interleaved', 'extreme', 'interrupted', 'variant', 'variant'])
            for _ in range(rng.choice([2, 3, 4]))]
    other = gen_project(rng, nreal=2, fine=False)
    shorten(other, 10)
    if rng.random() < 0.3:
        other = gen_variant(rng, dict(cfg, nrealizations=2, tol=0.01, maxstep=10))
    return dict(cfg=cfg, other=other, variant=gen_variant(rng, cfg), hist=hist, sched=dict(seed=rng.getrandbits(32), p=rng.choice([0.001, 0.01])))


def outcome(cfg):
    try:
        pf = run_deterministic(cfg)
    except Exception as e:          # noqa
        return ('raised', type(e).__name__), None
    return field_state(pf), pf


def run(sc, ctx):
    cfg = sc['cfg']
    logging.getLogger('Oneka').addHandler(ListHandler())
    # what the variant gives in a process that has run nothing else
    alone = in_child(lambda: outcome(sc['variant'])[0]) if 'variant' in sc['hist'] else None
    with ModelSpy() as spy:
        first, pf = outcome(cfg)
    if pf is None:
        raise Violation('failed', 'the deterministic run failed: %r' % (first,))
    SIM.simtime += abs(cfg['duration'])
    keys = spy.keys.get(0, [])
    if spy.calls:
        if len(keys) != 1:
            raise Violation('model-count', 'a deterministic run traced %d models' % len(keys))
        key = keys[0]
        for name, v in inputs(key).items():
            m = mean_of(declared(cfg)[name])
            if abs(v - m) > 1e-9 * max(1.0, abs(m)):
                raise Violation('not-the-mean', '%s is %r instead of the mean %r' % (name, v, m))
        coef_check(key, cfg, cfg['observations'], None, 'deterministic run')
        # the coefficients are the expected ones: zero standard deviations away
        z = coef_check(key, cfg, cfg['observations'], None, '')
        if np.abs(z).max() > 0.02:
            raise Violation('not-the-fit', 'the regional flow coefficients are %.3f standard deviations off the fit' % np.abs(z).max())
        P = lattice(cfg, pf)
        s, m, dried = zone_band(model_of(key), cfg, P)
        p = np.asarray(pf.pgrid, float).ravel()
        bad = (s & (p != 1)) | (~m & (p != 0)) | ((p != 0) & (p != 1))
        if bad.any():
            k = int(np.argmax(bad))
            raise Violation('zone', 'node (%r, %r) holds %r; reference paths of the mean model say %s (%d nodes wrong)' %
                            (P[k, 0], P[k, 1], p[k], 1 if s[k] else 0 if not m[k] else '0 or 1', int(bad.sum())))
        s2, _, _ = zone_band(model_of(key), cfg, ring_points(cfg, pf))
        if s2.any():
            raise Violation('node-missing', 'captured nodes lie outside the returned grid')
        ctx.count('nodes_decided', int((s == m).sum()))
        ctx.count('nodes_undecided', int((s != m).sum()))
        if dried:
            SIM.probe('dry')
    SIM.probe('confined' if cfg['confined'] else 'unconfined')
    check_geometry(pf, Violation, 'returned field')
    if abs(pf.total_weight - 1) > 1e-12:
        raise Violation('total-weight', 'total weight is %r' % pf.total_weight)
    ctx.log(first)
    for h in sc['hist']:
        other = sc['other']
        if h == 'stochastic':
            run_stochastic(dict(cfg, nrealizations=2))
            SIM.probe('after_stochastic')
        elif h == 'other':
            run_deterministic(other)
            run_stochastic(other)
            SIM.probe('after_other')
        elif h == 'variant':
            v = outcome(sc['variant'])[0]
            SIM.probe('after_variant')
            if v != alone:
                raise Violation('not-alone', 'a deterministic run gives another result after a run that differs in an argument or two than in a fresh process')
        elif h == 'failure':
            try:
                run_deterministic(dict(other, observations=other['observations'][:4], duration=1e-7))
            except Exception:       # noqa
                pass
            SIM.alloc_active, SIM.alloc_fail, SIM.alloc_count = True, (3,), 0
            try:
                run_deterministic(other)
            except MemoryError:
                pass
            SIM.alloc_active = False
            SIM.probe('after_failure')
        elif h == 'interrupted':
            from ..core import LineInterrupter
            try:
                LineInterrupter(400 + SIM.seed % 5000, KeyboardInterrupt('simulated')).run(lambda: run_deterministic(other))
            except KeyboardInterrupt:
                pass
            SIM.interrupted = False
        elif h == 'entropy':
            SIM.new_entropy(SIM.seed + 1)
            SIM.probe('new_entropy')
        elif h == 'extreme':
            SIM.extreme_p = 1.0
            SIM.probe('extreme')
        elif h == 'clock':
            SIM.now += -86400 * 400 + (SIM.seed % 1000) * 86400
            SIM.fire('clock_jump')
            SIM.probe('clock_moved')
        if h == 'interleaved':
            s = Scheduler(sc['sched'], max_steps=10**9)
            res = s.run([lambda: outcome(cfg), lambda: outcome(other), lambda: outcome(cfg)])
            SIM.last_switches = s.switches
            SIM.probe('interleaved')
            for r in (res[0], res[2]):
                if r[0] == 'exc':
                    raise r[1]
            again = [res[0][1][0], res[2][1][0]]
        else:
            again = [outcome(cfg)[0]]
        for a in again:
            if a != first:
                raise Violation('not-repeatable', 'the same deterministic run gave a different result after/under "%s"%s' %
                                (h, '' if len(a) != len(first) else ': fields %r differ' % [k for k, (x, y) in enumerate(zip(a, first)) if x != y]))
        SIM.extreme_p = 0.0
        SIM.simtime += abs(cfg['duration'])
    ctx.nontrivial = len(sc['hist']) >= 2 and any(isinstance(d, list) and d[0] != d[-1] for d in declared(cfg).values())
    ctx.count('repetitions', len(sc['hist']))
    ctx.sample = dict(hist=sc['hist'], confined=cfg['confined'], duration=cfg['duration'], npaths=cfg['npaths'])


def simplify(sc):
    cfg = sc['cfg']
    for k, v in (('npaths', 1), ('listy', False), ('confined', True), ('duration', math.copysign(10.0, cfg['duration']))):
        if cfg[k] != v:
            yield dict(sc, cfg=dict(cfg, **{k: v}))
    if len(cfg['wells']) > 1:
        yield dict(sc, cfg=dict(cfg, wells=[cfg['wells'][cfg['target']]], target=0))
