"""Things done in a forked child of the simulated run, and the view of its scratch directory."""
import glob
import os
import pickle
import shutil
import struct
import traceback

from .core import SIM, HarnessError, REAL, Violation


def in_child(f):
    """f() evaluated in a forked copy of this process, in a scratch directory of its own; nothing it does is seen here."""
    own = SIM.scratch + '-child'
    os.mkdir(own)
    os.mkdir(os.path.join(own, 'logs'))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(own)
            SIM.scratch = own
            try:
                res = 'ok', f()
            except Violation as v:
                res = 'violation', v.cls, v.msg
            except BaseException as e:      # noqa
                from .runner import repo_innermost
                res = 'raised', repo_innermost(e.__traceback__), type(e).__name__, traceback.format_exc()
            d = pickle.dumps(res)
            d = struct.pack('<Q', len(d)) + d
            while d:
                d = d[os.write(w, d):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(own, ignore_errors=True)
    if len(buf) < 8 or len(buf) != 8 + struct.unpack('<Q', buf[:8])[0]:
        raise HarnessError('child process died')
    res = pickle.loads(buf[8:])
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    if res[0] == 'raised':
        if res[1]:
            raise Violation('unexpected-' + res[2], 'out of the code under test, in a child process\n' + res[3])
        raise HarnessError('in a child process: ' + res[3])
    return res[1]


class Process:
    """Another process on the same storage: forked now, it does f() when told to go, while this process stands still."""

    def __init__(self, f):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.gone = False
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                b = b''
                while len(b) < 16:
                    c = os.read(r, 16 - len(b))
                    if not c:
                        os._exit(0)
                    b += c
                import sys
                sys.settrace(None)
                SIM.now, SIM.mono = struct.unpack('<dd', b)
                SIM.fs_fault = None
                d = pickle.dumps(f())
                d = struct.pack('<Q', len(d)) + d
                while d:
                    d = d[os.write(w, d):]
            finally:
                os._exit(0)
        os.close(w)
        os.close(r)

    def go(self):
        """Lets it run to its end; returns what f returned."""
        self.gone = True
        os.write(self.w, struct.pack('<dd', SIM.now, SIM.mono))
        os.close(self.w)
        buf = b''
        while True:
            c = os.read(self.r, 1 << 20)
            if not c:
                break
            buf += c
        os.close(self.r)
        os.waitpid(self.pid, 0)
        if len(buf) < 8 or len(buf) != 8 + struct.unpack('<Q', buf[:8])[0]:
            raise HarnessError('the other process died')
        return pickle.loads(buf[8:])

    def drop(self):
        """Ends it without having run."""
        if not self.gone:
            self.gone = True
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)


def disk(suffix=''):
    """What a later process would find on storage: path -> bytes."""
    out = {}
    for p in sorted(glob.glob(os.path.join(SIM.scratch, '**'), recursive=True)):
        if os.path.isfile(p) and p.endswith(suffix):
            with REAL['open'](p, 'rb') as f:
                out[os.path.relpath(p, SIM.scratch)] = f.read()
    return out


def load(name):
    """Loads an archive as a later, undisturbed process would: ('ok', dict) or ('raised', exception)."""
    from oneka.archive import load_oneka
    active, SIM.fs_active = SIM.fs_active, False
    dead, SIM.dead = SIM.dead, False
    try:
        return 'ok', load_oneka(os.path.join(SIM.scratch, name))
    except Exception as e:      # noqa
        return 'raised', e
    finally:
        SIM.fs_active = active
        SIM.dead = dead


def load_bytes(data):
    p = 'vsim-probe.bz2'
    with REAL['open'](os.path.join(SIM.scratch, p), 'wb') as f:
        f.write(data)
    try:
        return load(p)
    finally:
        os.unlink(os.path.join(SIM.scratch, p))
