"""Runs a check: many seeded simulated runs in forked children, minimisation, replay files, evidence.

exit 0  property held in every run         exit 1  VIOLATION line printed        exit 2  harness error
"""
import argparse
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import core
from .core import SIM, Violation, HarnessError, SimBudget, SimCrash

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VSIM_WORKERS', '8'))
CPU_LIMIT = int(os.environ.get('VSIM_CPU_LIMIT', '45'))
WALL_LIMIT = 240
PERF = core.REAL['perf']


def load_check(prop):
    return importlib.import_module('vsim.checks.' + prop.lower())


# --------------------------------------------------------------------------------------------- one run
class Ctx:
    """What a run reports besides its verdict."""

    def __init__(self):
        self.digest = hashlib.sha256()
        self.nontrivial = False
        self.sample = None
        self.stats = {}

    def log(self, *items):
        for i in items:
            self.digest.update(repr(i).encode())
            self.digest.update(b'|')

    def log_array(self, a):
        import numpy as np
        a = np.ascontiguousarray(a)
        self.digest.update(repr((a.shape, str(a.dtype))).encode())
        self.digest.update(a.tobytes())

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def peak(self, k, v):
        k = 'max_' + k
        self.stats[k] = max(self.stats.get(k, v), v)


def repo_innermost(tb):
    """Did the exception come out of the code under test (or what it called), not out of the harness?"""
    frames = traceback.extract_tb(tb)
    last_repo = last_verif = -1
    for i, f in enumerate(frames):
        if f.filename.startswith(core._REPO_PREFIX):
            last_repo = i
        elif f.filename.startswith(VERIF + os.sep) and '/vsim/core.py' not in f.filename:
            last_verif = i
    return last_repo > last_verif


def execute(mod, scenario):
    """Run one scenario in this process.  Returns a result dict."""
    scratch = tempfile.mkdtemp(prefix='vsim-')
    ctx = Ctx()
    out = dict(status='ok', cls=None, msg=None)
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        SIM.reset(scenario.get('entropy', 0), scratch)
        try:
            mod.run(scenario, ctx)
        except Violation as v:
            out.update(status='violation', cls=v.cls, msg=v.msg)
        except HarnessError as e:
            out.update(status='harness', msg=repr(e) + traceback.format_exc())
        except BaseException as e:      # noqa
            where = traceback.format_exc()
            if repo_innermost(e.__traceback__):
                out.update(status='violation', cls='unexpected-' + type(e).__name__,
                           msg='%r out of the code under test\n%s' % (e, where))
            else:
                out.update(status='harness', msg=where)
    finally:
        SIM.fs_active = False
        SIM.dead = False
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(fired=dict(SIM.fired), probes=dict(SIM.probes), stats=ctx.stats, nontrivial=ctx.nontrivial,
               simtime=SIM.simtime, digest=ctx.digest.hexdigest(), sample=ctx.sample, switches=None)
    if getattr(SIM, 'last_switches', None) is not None:
        out['switches'] = SIM.last_switches
    return out


def forked(mod, scenario, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """Run one scenario in a pristine forked child; survive hangs and crashes of the child."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 600))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get('VSIM_DEBUG'):
                os.dup2(dn, 2)
            res = execute(mod, scenario)
            data = pickle.dumps(res)
            data = struct.pack('<Q', len(data)) + data
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:           # noqa
            code = 9
            if os.environ.get('VSIM_DEBUG'):
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    t0 = PERF()
    timed_out = False
    while True:
        left = wall - (PERF() - t0)
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack('<Q', buf[:8])[0]:
        return pickle.loads(buf[8:])
    base = dict(fired={}, probes={}, stats={}, nontrivial=False, simtime=0.0, digest='', sample=None, switches=None)
    if not timed_out and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
        return dict(base, status='violation', cls='no-progress',
                    msg='the simulated run used %d s of CPU time without ending (ordinary runs take under a second)' % cpu)
    return dict(base, status='harness', cls=None, msg='child ended with status %r%s' % (st, ' (wall limit)' if timed_out else ''))


# --------------------------------------------------------------------------------------------- batch
def scenario_for(mod, seed, tier, i):
    rng = random.Random('%s/%s/%d' % (mod.PROP, seed, i))
    sc = mod.gen(rng, tier, i)
    sc = json.loads(json.dumps(sc))
    sc.setdefault('entropy', rng.getrandbits(48))
    return sc


def worker(mod, seed, tier, indices, conn, stopfile):
    best = None
    for i in indices:
        try:
            with core.REAL['open'](stopfile) as f:
                t = f.read().strip()
            if t and i > int(t):
                break
        except (FileNotFoundError, ValueError):
            pass
        sc = scenario_for(mod, seed, tier, i)
        res = forked(mod, sc)
        res['i'] = i
        conn.send(res)
        if res['status'] != 'ok':
            tmp = stopfile + '.%d' % os.getpid()
            try:
                with core.REAL['open'](stopfile) as f:
                    cur = int(f.read().strip())
            except (FileNotFoundError, ValueError):
                cur = None
            if cur is None or i < cur:
                with core.REAL['open'](tmp, 'w') as f:
                    f.write(str(i))
                os.rename(tmp, stopfile)
            break
    conn.send(None)
    conn.close()


def batch(mod, seed, tier, n, workers=None, wall_cap=None):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    workers = min(workers or WORKERS, n)
    tmp = tempfile.mkdtemp(prefix='vsim-batch-')
    stopfile = os.path.join(tmp, 'stop')
    procs = []
    for k in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(mod, seed, tier, range(k, n, workers), b, stopfile), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    open_conns = {a: p for p, a in procs}
    t0 = PERF()
    capped = False
    while open_conns:
        rd, _, _ = select.select(list(open_conns), [], [], 5)
        for c in rd:
            try:
                m = c.recv()
            except EOFError:
                m = None
                results.append(dict(status='harness', msg='worker died', i=10**9, fired={}, probes={}, stats={}, nontrivial=False,
                                    simtime=0, digest='', sample=None))
            if m is None:
                open_conns.pop(c).join()
                c.close()
            else:
                results.append(m)
        if wall_cap and PERF() - t0 > wall_cap and open_conns:
            capped = True
            for c, p in open_conns.items():
                p.terminate()
                p.join()
            break
    shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda r: r['i'])
    return results, capped


# --------------------------------------------------------------------------------------------- minimise
def get_path(o, path):
    for p in path:
        o = o[p]
    return o


def set_path(o, path, v):
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v


def list_paths(sc, patterns):
    """All concrete paths of lists matching patterns such as ('ops',) or ('ops', '*', 'pts')."""
    res = []

    def rec(o, pat, path):
        if not pat:
            if isinstance(o, list):
                res.append(path)
            return
        h = pat[0]
        if h == '*':
            if isinstance(o, list):
                for k in range(len(o)):
                    rec(o[k], pat[1:], path + (k,))
        elif isinstance(o, dict) and h in o:
            rec(o[h], pat[1:], path + (h,))
    for p in patterns:
        rec(sc, p, ())
    return res


def minimise(mod, sc, res, budget=400, wall=60):
    cls = res['cls']
    t0 = PERF()
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        r = forked(mod, c, cpu=20)
        return r['status'] == 'violation' and r['cls'] == cls, r

    best, bestres = sc, res
    # turn a random schedule into an explicit list of switches
    if res.get('switches') and 'sched' in sc and 'switches' not in sc['sched']:
        c = copy.deepcopy(sc)
        c['sched'] = dict(opcodes=sc['sched'].get('opcodes', False), switches=res['switches'])
        ok, r = fails(c)
        if ok:
            best, bestres = c, r
    patterns = list(getattr(mod, 'LISTS', ())) + [('sched', 'switches')]
    mins = getattr(mod, 'MINLEN', {})
    progress = True
    while progress and tried < budget and PERF() - t0 < wall:
        progress = False
        for path in sorted(list_paths(best, patterns), key=len):
            try:
                lst = get_path(best, path)
            except (KeyError, IndexError):
                continue
            lo = mins.get(path[-1], mins.get(tuple('*' if isinstance(p, int) else p for p in path), 0))
            size = max(1, (len(lst) - lo) // 2)
            while size >= 1 and tried < budget and PERF() - t0 < wall:
                k = 0
                removed = False
                lst = get_path(best, path)
                while k < len(lst) and len(lst) - size >= lo and tried < budget and PERF() - t0 < wall:
                    c = copy.deepcopy(best)
                    set_path(c, path, lst[:k] + lst[k + size:])
                    ok, r = fails(c)
                    if ok:
                        best, bestres = c, r
                        lst = get_path(best, path)
                        removed = progress = True
                    else:
                        k += size
                if not removed:
                    size //= 2
        for cand in getattr(mod, 'simplify', lambda s: ())(best):
            if tried >= budget or PERF() - t0 > wall:
                break
            cand = json.loads(json.dumps(cand))
            if cand == best:
                continue
            ok, r = fails(cand)
            if ok:
                best, bestres = cand, r
                progress = True
                break
    return best, bestres, tried


def replay_file(path):
    with core.REAL['open'](path) as f:
        rp = json.load(f)
    mod = load_check(rp['property'])
    prepare(mod)
    res = forked(mod, rp['scenario'])
    if res['status'] == 'harness':
        print('HARNESS-ERROR', res['msg'])
        return 2
    if res['status'] == 'ok':
        print('replay: the property holds')
        return 0
    print('replay: %s\n%s' % (res['cls'], res['msg']))
    print('event-log digest', res['digest'])
    print('VIOLATION property=%s replay=%s' % (rp['property'], path))
    return 1


def prepare(mod):
    core.install()
    if hasattr(mod, 'setup'):
        mod.setup()


# --------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in core.REAL['open'](p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get('property') == prop and k.get('status') == 'open':
                    out.append(k)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--n', type=int)
    ap.add_argument('--only', type=int)
    ap.add_argument('--digests', action='store_true', help='print the event-log digest of every run (determinism proof)')
    ap.add_argument('--selftest', action='store_true', help='check that the machinery is complete (no build step is needed)')
    a = ap.parse_args(argv)
    if a.selftest:
        import glob
        names = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(VERIF, 'vsim', 'checks', 'c*.py')))
        for name in names:
            mod = load_check(name.upper())
            assert mod.RUNS['quick'] and mod.RULE and mod.REAL and callable(mod.gen) and callable(mod.run)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        print('selftest: %d checks load' % len(names))
        return 0
    if a.replay:
        return replay_file(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = PERF()
    print('seed=%d tier=%s property=%s' % (seed, tier, a.prop))
    mod = load_check(a.prop)
    prepare(mod)
    if a.only is not None:
        sc = scenario_for(mod, seed, tier, a.only)
        print(json.dumps(sc))
        res = forked(mod, sc)
        print(res)
        return 0 if res['status'] == 'ok' else 1
    n = a.n or mod.RUNS[tier]
    results, capped = batch(mod, seed, tier, n, wall_cap=820 if tier == 'quick' else 3 * 3600)
    if a.digests:
        for r in results:
            print(r['i'], r['status'], r['digest'])
    wall = PERF() - t0
    bad = [r for r in results if r['status'] == 'violation']
    harness = [r for r in results if r['status'] == 'harness']
    fired, probes, stats = {}, {}, {}
    for r in results:
        for src, dst in ((r['fired'], fired), (r['probes'], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, v in r['stats'].items():
            stats[k] = max(stats.get(k, v), v) if k.startswith('max_') else stats.get(k, 0) + v
    sims = sum(r['simtime'] for r in results)
    evaluations = len(results)
    distinct = len(set(r['digest'] for r in results if r['nontrivial']))
    samples = [r['sample'] for r in results if r['sample'] is not None][:3]
    # replay determinism on a sample, in fresh forks
    redo = [r for r in results if r['status'] == 'ok'][::max(1, len(results) // 8)][:8]
    mism = 0
    for r in redo if not bad else []:
        r2 = forked(mod, scenario_for(mod, seed, tier, r['i']))
        if r2['digest'] != r['digest']:
            mism += 1
    wall = PERF() - t0
    ev = dict(property=a.prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=mod.RULE, samples=samples,
                            runs_per_hour=int(evaluations / wall * 3600) if wall else 0,
                            simulated_days=round(sims, 3), faults_injected=fired, probes=probes, measures=stats,
                            replays_checked=len(redo), replay_mismatches=mism,
                            real_components=mod.REAL, stubbed_components=mod.STUBS),
              assumptions=getattr(mod, 'ASSUMPTIONS', ['sampling, not enumeration: a clean batch is evidence, not proof']),
              wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with core.REAL['open'](os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('runs=%d distinct=%d faults=%s probes=%s wall=%.1fs' % (evaluations, distinct, fired, probes, wall))
    if bad:
        r = bad[0]
        sc = scenario_for(mod, seed, tier, r['i'])
        if r['cls'] == 'no-progress':
            best, bres, tried = sc, r, 0
        else:
            best, bres, tried = minimise(mod, sc, r)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%d-%d.json' % (a.prop, seed, r['i']))

        def save(s, rr, minimised):
            with core.REAL['open'](path, 'w') as f:
                json.dump(dict(property=a.prop, seed=seed, tier=tier, run=r['i'], cls=rr['cls'], message=rr['msg'],
                               digest=rr['digest'], minimised=minimised, candidates_tried=tried, scenario=s), f, indent=1)
        save(best, bres, best != sc)

        def confirm():
            env = dict(os.environ, PYTHONHASHSEED='12345')
            p = subprocess.run([sys.executable, '-m', 'vsim', '--replay', path], cwd=VERIF, env=env, capture_output=True, text=True)
            return p.returncode == 1 and ('replay: %s\n' % bres['cls']) in p.stdout
        ok = confirm()
        if not ok and best != sc:
            best, bres = sc, r
            save(sc, r, False)
            ok = confirm()
        print('violation class %s (run %d, %d candidates tried while minimising, replay %s)' %
              (bres['cls'], r['i'], tried, 'confirmed in a fresh process' if ok else 'NOT reproduced in a fresh process'))
        print(bres['msg'][:3000])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if harness:
        print('HARNESS-ERROR in %d runs; first (run %s):\n%s' % (len(harness), harness[0]['i'], harness[0]['msg']))
        return 2
    if capped or evaluations < n:
        print('HARNESS-ERROR: wall-clock cap reached after %d of %d runs' % (evaluations, n))
        return 2
    for k in known_findings(a.prop):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    need = getattr(mod, 'PROBES', ())
    missing = [p for p in need if not probes.get(p) and not fired.get(p)]
    if missing:
        print('note: probes never reached: %s' % missing)
    print('OK property=%s' % a.prop)
    return 0
