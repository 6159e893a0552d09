"""C13: loading an archive yields exactly what was saved, or fails."""
import errno
import os
import random
import resource

import numpy as np

from ..core import SIM, Violation, SimCrash
from ..project import gen_project, odd_name, oneka_args, ARG_NAMES
from ..ref import field_state
from ..sub import disk, load, load_bytes
from .c12 import same

PROP = 'C13'
RUNS = {'quick': 180, 'thorough': 8000}
RULE = ('each run archives 1-3 runs with fields from one node to half a million nodes while the simulated disk fails, fills up, writes short or is cut by a crash at a chosen operation '
        '(open, n-th raw write, close), then loads whatever is on storage; good archives are then truncated, bit-flipped, zeroed, spliced, extended or shuffled and loaded '
        'again, 150-2000 damaged copies each; archives of one name are put into several folders and loaded by relative and absolute path; non-trivial: a fault fired or a damaged copy was loaded')
REAL = ['oneka.archive', 'oneka.probabilityfield (pickled)', 'bz2, pickle, buffered I/O']
STUBS = ['disk: raw writes below Python buffering', 'clock']
LISTS = (('dumps',), ('dumps', '*', 'damage'))
PROBES = ('write_error', 'open_error', 'close_error', 'short', 'crash', 'partial', 'completed_despite_fault', 'reported', 'truncated', 'flipped', 'zeroed', 'spliced', 'extended',
          'shuffled', 'damage_detected', 'damage_harmless', 'multi_write', 'multi_block', 'same_name_elsewhere')

DAMAGE = ('truncate', 'flip', 'zero', 'splice', 'extend', 'shuffle', 'delete', 'random', 'header')


def gen(rng, tier, i):
    dumps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = None
        if rng.random() < 0.75:
            f = dict(op=rng.choice(['err', 'err', 'short', 'partial_err', 'crash', 'crash', 'open', 'close', 'closecrash']), u=rng.random(), n=rng.choice([0, 1, 100, 4000, 100000]),
                     e=rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG']), once=rng.random() < 0.4)
        size = rng.choice([[1, 1], [2, 3], [12, 9], [40, 40], [100, 80], [150, 210]] + ([[700, 700]] if rng.random() < 0.3 else []))
        big = size[0] * size[1] > 10000
        dumps.append(dict(size=size, content=rng.choice(['tally', 'random', 'nan', 'zeros']), s=rng.getrandbits(32), nobs=rng.choice([7, 12, 60]), fault=f,
                          damage=[rng.choice(DAMAGE) for _ in range(1 if big else rng.choice([2, 4]))], copies=rng.choice([1, 3] if big else [40, 150, 300])))
    return dict(dumps=dumps)


def make(d):
    from oneka.probabilityfield import ProbabilityField
    r = random.Random(d['s'])
    cfg = gen_project(r)
    while len(cfg['observations']) < d['nobs']:
        cfg['observations'].append([round(r.uniform(-9e5, 9e5), 3), round(r.uniform(-9e5, 9e5), 3), r.uniform(0, 300), r.random()])
    args = oneka_args(cfg, 'n%d%s' % (d['s'], odd_name(r)))
    pf = ProbabilityField(cfg['spacing'], cfg['spacing'], 0.0, 0.0)
    ny, nx = d['size']
    s = cfg['spacing']
    pf.expand(0.0, (nx - 1) * s, 0.0, (ny - 1) * s)
    g = np.random.RandomState.__mro__[1](d['s'])
    sh = np.shape(pf.pgrid)
    if d['content'] == 'random':
        pf.pgrid[:] = g.random_sample(sh)
    elif d['content'] == 'tally':
        pf.pgrid[:] = g.randint(0, 4, sh)
    elif d['content'] == 'nan':
        pf.pgrid[:] = g.random_sample(sh)
        pf.pgrid.flat[0] = -0.0
    pf.total_weight = float(r.randrange(1, 5))
    return args, pf


def matches(got, args, pf):
    if not isinstance(got, dict):
        return 'a %s' % type(got).__name__
    if set(got) != set(ARG_NAMES) | {'pfield'}:
        return 'entries %r' % sorted(got)
    for n, v in zip(ARG_NAMES, args):
        if not same(got[n], v):
            return '%s = %r instead of %r' % (n, got[n], v)
    try:
        ok = type(got['pfield']) is type(pf) and field_state(got['pfield']) == field_state(pf)
    except Exception as e:      # noqa
        return 'a broken field (%r)' % e
    return None if ok else 'a different field'


def damaged(r, kind, data, other):
    b = bytearray(data)
    n = len(b)
    if kind == 'truncate':
        return bytes(b[:r.choice([r.randrange(n), n - 1 - r.randrange(min(n, 16)), r.randrange(min(n, 64))])])
    if kind == 'flip':
        for _ in range(r.choice([1, 1, 1, 2, 8])):
            k = r.randrange(n)
            b[k] ^= 1 << r.randrange(8)
        return bytes(b)
    if kind == 'header':
        k = r.randrange(min(n, 40)) if r.random() < 0.6 else n - 1 - r.randrange(min(n, 14))
        b[k] = r.randrange(256)
        return bytes(b)
    if kind == 'random':
        for _ in range(r.choice([1, 1, 3])):
            b[r.randrange(n)] = r.randrange(256)
        return bytes(b)
    if kind == 'zero':
        w = r.choice([1, 16, 512, 4096])
        k = r.randrange(n) // w * w
        b[k:k + w] = bytes(len(b[k:k + w]))
        return bytes(b)
    if kind == 'splice':                # a tail of another archive
        k = r.randrange(n)
        return bytes(b[:k]) + other[k:]
    if kind == 'extend':
        return bytes(b) + r.choice([bytes(r.randrange(1, 600)), r.randbytes(r.randrange(1, 600)), other, other[:r.randrange(1, len(other) + 1)], bytes(b[:60])])
    if kind == 'shuffle':
        w = r.choice([16, 512])
        blocks = [bytes(b[k:k + w]) for k in range(0, n, w)]
        if len(blocks) > 1:
            p, q = r.randrange(len(blocks)), r.randrange(len(blocks))
            blocks[p], blocks[q] = blocks[q], blocks[p]
        return b''.join(blocks)
    if kind == 'delete':
        k = r.randrange(n)
        del b[k:k + r.choice([1, 1, 2, 512])]
        return bytes(b)
    raise ValueError(kind)


NAMES = dict(truncate='truncated', flip='flipped', zero='zeroed', splice='spliced', extend='extended', shuffle='shuffled', delete='shuffled', random='flipped', header='flipped')


def elsewhere(r, good, mine, other, its, ctx):
    """Archives of one name in several folders: a load is of the file that is named."""
    from oneka.archive import load_oneka
    SIM.fs_active = False
    top = os.getcwd()
    try:
        name = r.choice(['a.bz2', 'Oneka20200725T120000.bz2', 'b'])
        folders = ['logs', 'old', '.', os.path.join('old', 'logs')]
        r.shuffle(folders)
        put = {}
        for k, f in enumerate(folders):
            os.makedirs(f, exist_ok=True)
            put[f] = (good, mine) if (k + r.randrange(2)) % 2 else (other, its)
            with open(os.path.join(f, name), 'wb') as fp:
                fp.write(put[f][0])
        asked = [(f, r.choice([os.path.join(f, name), os.path.abspath(os.path.join(f, name)), os.path.join('.', f, name)])) for f in folders for _ in range(2)]
        r.shuffle(asked)
        for f, path in asked:
            got = load_oneka(path)
            bad = matches(got, *put[f][1])
            if bad:
                raise Violation('wrong-load', 'the archive %r, one of several of that name, loads %s' % (path.replace(top, '...'), bad))
            SIM.probe('same_name_elsewhere')
        os.chdir('old')
        bad = matches(load_oneka(name), *put['old'][1])
        if bad:
            raise Violation('wrong-load', 'the archive %r in the working directory loads %s' % (name, bad))
        ctx.log(name, asked[0][0])
    finally:
        os.chdir(top)
        for f in folders:
            os.unlink(os.path.join(f, name))
        SIM.fs_active = True


def run(sc, ctx):
    from oneka.archive import dump_oneka
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    os.mkdir(os.path.join(SIM.scratch, 'logs'))
    SIM.fs_active = True
    other = None
    for n, d in enumerate(sc['dumps']):
        args, pf = make(d)
        state = field_state(pf)
        f = d['fault']
        # undisturbed first, to learn its operations
        ops = []
        SIM.fs_fault = lambda op, path, nb: ops.append((op, nb))
        before = disk()
        dump_oneka(*args, pf)
        SIM.fs_fault = None
        now = disk()
        new = [p for p in now if p not in before]
        if len(new) != 1:
            raise Violation('archive-count', 'dump_oneka left %d new files' % len(new))
        res = load(new[0])
        bad = repr(res[1]) if res[0] != 'ok' else matches(res[1], args, pf)
        if bad:
            raise Violation('not-faithful', 'an archive written without any fault loads %s' % bad)
        if field_state(pf) != state:
            raise Violation('field-changed', 'archiving changed the field')
        good = now[new[0]]
        if len([o for o in ops if o[0] == 'write']) > 1:
            SIM.probe('multi_write')
        if pf.pgrid.nbytes > 900000:
            SIM.probe('multi_block')
        if f:
            op = f['op']
            # the n-th operation of one kind
            kind = {'open': 'open', 'close': 'close', 'closecrash': 'close'}.get(op, 'write')
            at = 1 + int(f['u'] * max(1, len([o for o in ops if o[0] == kind])))
            err = OSError(getattr(errno, f['e']), 'simulated')
            k = [0]
            hits = [0]

            def fs(o, path, nb):
                if o != kind:
                    return None
                k[0] += 1
                if k[0] != at and not (k[0] > at and not f['once'] and op in ('err', 'partial_err', 'short')):
                    return None
                hits[0] += 1
                return {'err': ('err', err), 'open': ('err', err), 'close': ('err', err), 'short': ('short', max(f['n'], nb // 50, 1)),
                        'partial_err': ('partial_err', (f['n'], err)), 'crash': ('crash', f['n']), 'closecrash': ('crash', 0)}[op]
            SIM.fs_fault = fs
            before = disk()
            raised = None
            try:
                dump_oneka(*args, pf)
            except (Exception, SimCrash) as e:          # noqa
                raised = e
            SIM.fs_fault = None
            SIM.dead = False
            import gc
            gc.collect()
            now = disk()
            for p, b in before.items():
                if now.get(p) != b:
                    raise Violation('old-archive', 'a failing dump altered the earlier archive %r' % p)
            new = [p for p in now if p not in before]
            where = 'with a %s fault at %s operation %d' % (op, kind, at)
            loadable = 0
            for p in new:
                res = load(p)
                if res[0] == 'ok':
                    bad = matches(res[1], args, pf)
                    if bad:
                        raise Violation('wrong-load', 'archiving %s left a file that loads %s' % (where, bad))
                    loadable += 1
            if raised is None and loadable != 1:
                raise Violation('silent-loss', 'archiving %s returned normally, but storage holds %d files and %d of them load' % (where, len(new), loadable))
            if raised is not None and not isinstance(raised, SimCrash) and not hits[0]:
                raise raised
            if hits[0]:
                ctx.nontrivial = True
                SIM.probe({'err': 'write_error', 'open': 'open_error', 'close': 'close_error', 'partial_err': 'partial', 'closecrash': 'crash'}.get(op, op))
                SIM.probe('completed_despite_fault' if raised is None else 'reported')
            if field_state(pf) != state:
                raise Violation('field-changed', 'a failing dump changed the field')
            ctx.log(n, op, at, len(new), loadable, type(raised).__name__)
        # stored bytes lost or altered later
        if other is None or len(other) > 4 * len(good) + 5000:
            a2, p2 = make(dict(d, s=d['s'] ^ 1))
            b4 = disk()
            dump_oneka(*a2, p2)
            other = [b for p, b in disk().items() if p not in b4][0]
        r = random.Random(d['s'])
        for kind in d['damage']:
            for c in range(max(1, min(d['copies'], 3000000 // len(good)))):
                b = damaged(r, kind, good, other)
                if b == good:
                    continue
                SIM.fire('storage_damage')
                SIM.probe(NAMES[kind])
                res = load_bytes(b)
                ctx.count('damaged_copies')
                if res[0] == 'ok':
                    bad = matches(res[1], args, pf)
                    if bad and kind in ('splice', 'extend') and matches(res[1], a2, p2) is None and b[:len(other)] == other:
                        continue        # the other archive, whole
                    if bad:
                        raise Violation('wrong-load', 'a stored archive of %d bytes with %s damage (copy %d) loads %s' % (len(good), kind, c, bad))
                    SIM.probe('damage_harmless')
                else:
                    SIM.probe('damage_detected')
                ctx.nontrivial = True
        if len(good) + len(other) < 60000:
            elsewhere(r, good, (args, pf), other, (a2, p2), ctx)
        other = other if len(other) < 50000 else None
        ctx.log(n, len(good), d['damage'])
    SIM.fs_active = False
    ctx.count('dumps', len(sc['dumps']))
    ctx.sample = dict(dumps=[dict(size=d['size'], fault=d['fault'], damage=d['damage'], copies=d['copies']) for d in sc['dumps']])


def simplify(sc):
    for i, d in enumerate(sc['dumps']):
        def put(**k):
            ds = list(sc['dumps'])
            ds[i] = dict(d, **k)
            return dict(sc, dumps=ds)
        if d['fault'] and d['damage']:
            yield put(fault=None)
            yield put(damage=[])
        if d['size'] != [2, 3]:
            yield put(size=[2, 3])
        if d['nobs'] != 7:
            yield put(nobs=7)
        if d['copies'] > 1 and d['damage']:
            yield put(copies=d['copies'] // 2)
