"""C14: archiving never destroys an earlier archive."""
import errno
import logging
import os
import random

import numpy as np

from ..core import SIM, Violation, SimCrash, Scheduler, LineInterrupter
from ..project import shorten, gen_project, oneka_args
from ..ref import field_state
from ..sub import disk, load, in_child, Process
from .c12 import launch, same
from .c13 import make, matches

PROP = 'C14'
RUNS = {'quick': 500, 'thorough': 15000}
RULE = ('each run is a history of 2-40 archiving attempts (single, whole runs, failing, crashing part-way, two or three at once under the simulated scheduler, other processes archiving or dying between two lines or disk operations of one) under a clock that stands still, '
        'creeps, repeats an hour or jumps; after every step each archive completed so far must still load to its own content, and the number of archives must equal the number of '
        'completed attempts; non-trivial: at least two attempts completed')
REAL = ['oneka.archive', 'oneka.* (whole runs)', 'bz2, pickle']
STUBS = ['clock', 'disk below Python file objects', 'thread scheduling']
LISTS = (('steps',),)
PROBES = ('same_second', 'repeated_hour', 'failed', 'crashed', 'crashed_torn', 'together', 'whole_run', 'leftover_partial', 'many_in_a_second', 'restarted', 'other_process', 'other_in_line', 'other_in_op', 'other_crashed')


def gen(rng, tier, i):
    steps = []
    many = rng.random() < 0.15
    for _ in range(rng.choice([25, 40, 40, 130]) if many else rng.choice([2, 3, 5, 8, 12])):
        r = rng.random()
        kind = 'dump' if many or r < 0.5 else 'fail' if r < 0.65 else 'crash' if r < 0.8 else 'together' if r < 0.86 else 'apart' if r < 0.92 else 'run' if r < 0.95 else 'restart'
        if kind == 'apart':
            # one or two other processes archive while this one stands between two of its lines or disk operations
            steps.append(dict(kind=kind, s=rng.getrandbits(32), clock=rng.choice([0, 0, 1, -1]), size=[2, 3],
                              others=[dict(point=rng.choice(['line', 'line', 'op']), at=rng.random(), end=rng.choice(['ok', 'ok', 'crash']), n=rng.choice([1, 1, 2, 9])) for _ in range(rng.choice([1, 1, 2]))],
                              end=rng.choice(['ok', 'ok', 'crash', 'fail'])))
            continue
        steps.append(dict(kind=kind, s=rng.getrandbits(32), clock=0 if many else rng.choice([0, 0, 0, 0.3, 1, 1, -1, -3600, 3600, -86400 * 30, 86400]), n=rng.choice([2, 3]),
                          op=rng.choice(['open', 'write', 'close']), u=rng.choice([0, 10, 500, 10**6]), e=rng.choice(['ENOSPC', 'EIO']),
                          size=rng.choice([[1, 1], [5, 6], [30, 20]])))
    return dict(steps=steps, tick=rng.choice([0.0, 0.0, 0.001, 0.2]), listing=rng.random() < 0.1,
                sched=dict(seed=rng.getrandbits(32), p=rng.choice([0.05, 0.2, 0.5]), opcodes=rng.random() < 0.4))


def run(sc, ctx):
    from oneka.archive import dump_oneka
    lg = logging.getLogger('Oneka')
    lg.addHandler(logging.NullHandler())
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    SIM.fs_active = True
    SIM.tick = sc['tick']
    saved = []              # (args, field) of every completed attempt
    files = {}              # archive file -> index into saved
    stamps = set()
    switches = None

    def attempt(d):
        dump_oneka(*d[0], d[1])

    def settle(before, done, when):
        """done: the attempts that completed in this step."""
        now = disk()
        for p, k in files.items():
            if now.get(p) != before.get(p):
                # still acceptable only if it loads to the same content
                res = load(p)
                bad = repr(res[1]) if res[0] != 'ok' else matches(res[1], *saved[k])
                if bad:
                    raise Violation('archive-destroyed', '%s: the archive of attempt %d (%s) %s' %
                                    (when, k, p, 'is gone' if p not in now else 'now loads ' + bad))
        fresh = [p for p in now if p not in before or (p not in files and now[p] != before[p])]
        owners = {}
        for p in fresh:
            if p.endswith('.log'):
                continue
            res = load(p)
            if res[0] != 'ok':
                SIM.probe('leftover_partial')
                continue
            for k, d in enumerate(done):
                if k not in owners and matches(res[1], *d) is None:
                    owners[k] = p
                    break
        for k, d in enumerate(done):
            if k not in owners:
                raise Violation('no-own-archive', '%s: an attempt completed but no new archive holds it (new files: %s)' % (when, fresh))
            files[owners[k]] = len(saved)
            saved.append(d)

    for n, st in enumerate(sc['steps']):
        SIM.task = n
        SIM.now += st['clock']
        SIM.fire('clock_jump_back' if st['clock'] < 0 else 'clock_still' if st['clock'] == 0 else 'clock_advance')
        if st['clock'] == -3600:
            SIM.probe('repeated_hour')
        sec = int(SIM.now)
        if sec in stamps:
            SIM.probe('same_second')
        stamps.add(sec)
        before = disk()
        when = 'step %d (%s)' % (n, st['kind'])
        done = []
        if st['kind'] == 'restart':
            # a new process: nothing but storage survives (the module is loaded afresh)
            import importlib
            import oneka.archive
            import oneka.oneka
            importlib.reload(oneka.archive)
            oneka.oneka.dump_oneka = oneka.archive.dump_oneka
            from oneka.archive import dump_oneka
            SIM.probe('restarted')
        elif st['kind'] == 'dump':
            d = make(dict(s=st['s'], size=st['size'], content='tally', nobs=7))
            attempt(d)
            done.append(d)
        elif st['kind'] == 'run':
            cfg = gen_project(random.Random(st['s']), nreal=2, fine=False)
            shorten(cfg, 8)
            cfg['nrealizations'] = 1 + st['s'] % 2
            args = oneka_args(cfg, 'run %d' % n)
            pf = launch(dict(driver=False), args)
            done.append((args, pf))
            import matplotlib.pyplot as plt
            plt.close('all')
            SIM.probe('whole_run')
        elif st['kind'] in ('fail', 'crash'):
            d = make(dict(s=st['s'], size=st['size'], content='tally', nobs=7))
            hit = [0]

            def fs(op, path, nb):
                if op != st['op'] or hit[0]:
                    return ('err', OSError(getattr(errno, st['e']), 'simulated', path)) if hit[0] and st['kind'] == 'fail' and op == 'write' else None
                hit[0] += 1
                if st['kind'] == 'crash':
                    return ('crash', min(st['u'], max(0, nb - 1)))
                return ('err', OSError(getattr(errno, st['e']), 'simulated', path))
            SIM.fs_fault = fs
            ok = False
            try:
                attempt(d)
                ok = True
            except (OSError, SimCrash):
                pass
            SIM.fs_fault = None
            SIM.dead = False
            import gc
            gc.collect()
            SIM.probe('failed' if st['kind'] == 'fail' else 'crashed')
            if st['kind'] == 'crash' and st['op'] == 'write' and st['u']:
                SIM.probe('crashed_torn')
            if ok:
                done.append(d)
            else:
                # an attempt that failed at the very end may still have left its complete archive: it then counts
                now = disk()
                for p in now:
                    if p not in before:
                        res = load(p)
                        if res[0] == 'ok':
                            bad = matches(res[1], *d)
                            if bad:
                                raise Violation('wrong-archive', '%s left a file that loads %s' % (when, bad))
                            done.append(d)
        elif st['kind'] == 'apart':
            done += apart(st, attempt, before)
        else:
            ds = [make(dict(s=st['s'] + k, size=[2, 2], content='tally', nobs=7)) for k in range(st['n'])]
            spec = dict(sc['sched'], seed=sc['sched'].get('seed', 0) + n) if 'switches' not in sc['sched'] else dict(sc['sched'])
            s = Scheduler(spec, max_steps=200000)
            res = s.run([lambda d=d: attempt(d) for d in ds])
            for r in res:
                if r[0] == 'exc':
                    raise r[1]
            done += ds
            ctx.count('switches', len(s.switches))
            ctx.log(s.switches)
            SIM.probe('together')
        settle(before, done, when)
        # spot check through the front door: every archive, now and then; the latest, always
        for p, k in (list(files.items()) if n % 5 == 4 or n == len(sc['steps']) - 1 else list(files.items())[-1:]):
            res = load(p)
            bad = repr(res[1]) if res[0] != 'ok' else matches(res[1], *saved[k])
            if bad:
                raise Violation('archive-destroyed', 'after %s the archive of attempt %d (%s) loads %s' % (when, k, p, bad))
        ctx.log(n, st['kind'], sorted(disk()))
    if len(saved) > 10:
        SIM.probe('many_in_a_second')
    SIM.fs_active = False
    ctx.nontrivial = len(saved) >= 2
    ctx.count('archives', len(saved))
    ctx.count('steps', len(sc['steps']))
    ctx.sample = dict(steps=[(s['kind'], s['clock']) for s in sc['steps']][:12], completed=len(saved))


class Here(LineInterrupter):
    """Calls back at chosen lines of the code under test."""

    def __init__(self, at):
        super().__init__()
        self.calls = at

    def _l(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            for f in self.calls.pop(self.n, ()):
                f()
        return self._l


def apart(st, attempt, before):
    """This process archives; others do so in the midst of it."""
    d = make(dict(s=st['s'], size=st['size'], content='tally', nobs=7))
    done = []
    # the instants of this archiving, from a trial in a directory of its own
    ops = [0]

    def trial():
        SIM.fs_fault = lambda op, path, nb: ops.__setitem__(0, ops[0] + 1)
        t = Here({})
        t.run(lambda: attempt(d))
        return t.n, ops[0]
    lines, nops = in_child(trial)

    def work(k, o):
        """What the other process does: its modules are its own."""
        import importlib
        import oneka.archive
        importlib.reload(oneka.archive)
        hit = [0]

        def fs(op, path, nb):
            hit[0] += 1
            return ('crash', nb // 2) if o['end'] == 'crash' and hit[0] == 2 else None
        SIM.fs_fault = fs
        out = []
        for m in range(o['n']):
            e = make(dict(s=st['s'] + 100 * k + m + 1, size=[2, 2], content='tally', nobs=7))
            try:
                oneka.archive.dump_oneka(*e[0], e[1])
            except SimCrash:
                break
            out.append(m)
        return out
    at_line, at_op = {}, {}
    procs = []
    for k, o in enumerate(st['others']):
        pr = Process(lambda k=k, o=o: work(k, o))
        procs.append(pr)

        def go(k=k, o=o, pr=pr):
            for m in pr.go():
                done.append(make(dict(s=st['s'] + 100 * k + m + 1, size=[2, 2], content='tally', nobs=7)))
            SIM.fire('other_process_archives')
            SIM.probe('other_process')
            SIM.probe('other_in_line' if o['point'] == 'line' else 'other_in_op')
            if o['end'] == 'crash':
                SIM.probe('other_crashed')
        if o['point'] == 'line':
            at_line.setdefault(1 + int(o['at'] * lines), []).append(go)
        else:
            at_op.setdefault(1 + int(o['at'] * nops), []).append(go)
    n = [0]

    def fs(op, path, nb):
        n[0] += 1
        for f in at_op.pop(n[0], ()):
            f()
        if op == 'write' and st['end'] == 'crash':
            return ('crash', nb // 2)
        if op == 'write' and st['end'] == 'fail':
            return ('err', OSError(errno.ENOSPC, 'simulated', path))
    SIM.fs_fault = fs
    try:
        Here(at_line).run(lambda: attempt(d))
        done.append(d)
    except (OSError, SimCrash):
        pass
    finally:
        for pr in procs:
            pr.drop()
        SIM.fs_fault = None
        SIM.dead = False
    import gc
    gc.collect()
    return done


def simplify(sc):
    for i, st in enumerate(sc['steps']):
        for k, v in (('clock', 0), ('size', [1, 1]), ('kind', 'dump')):
            if st[k] != v and st['kind'] != 'apart':
                ss = list(sc['steps'])
                ss[i] = dict(st, **{k: v})
                yield dict(sc, steps=ss)
