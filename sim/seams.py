"""Everything nondeterministic the code under test can reach, behind the simulator.

install() must run before sqlalchemy, Crypto and the repository are imported.
Outside an active simulation every seam behaves like the real thing (except
that files under the repository are never written: see Overlay).
"""
import _thread
import builtins
import errno
import io
import logging
import os
import random
import sqlite3
import sys
import threading
import time

from . import core
from .core import REAL_IDENT, SimKilled

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------ time ----
def _active():
    s = core.SIM
    if s is None or s.cur is None or REAL_IDENT() != s.cur.ident:
        return None
    return s


class Clock(object):
    """Per-node wall clocks derived from the simulated time line."""

    def __init__(self, sim):
        self.sim = sim
        self.offset = {}
        self.jumps = {}          # node -> list of (seq index, sim.now, old, new)
        self.targets = []        # interesting absolute times (validity bounds)

    def read(self, node):
        return self.sim.now + self.offset.get(node, 0.0)

    def jump_to(self, node, value):
        old = self.read(node)
        self.offset[node] = value - self.sim.now
        self.jumps.setdefault(node, []).append((old, value))
        for t in self.sim.tasks:
            if t.rec is not None and t.rec.get('open') and t.node == node:
                segs = t.rec['clock']
                segs[-1][1] = old
                segs.append([value, value])


def sim_time():
    s = _active()
    if s is None:
        return core.REAL_TIME()
    t = s.cur
    s.now += 0.0004
    clk = s.clock
    node = t.node
    v = s.pick('clk', 8, None, (4, 2, 1, 2, 1, 4, 1)) if t.rec is not None else 0
    if v:
        cur = clk.read(node)
        r = core.Sim.rng(s, t.name, 'clkv%d' % t.count('clkv'))
        if v == 1:        # cross a second boundary
            new = float(int(cur) + 1)
            kind = 'clock-second-boundary'
        elif v == 2:      # midnight
            new = (int(cur) // 86400 + 1) * 86400 - 0.0002
            kind = 'clock-midnight'
        elif v == 3:      # a month boundary ahead
            y, m = core.REAL_GMTIME(cur)[:2]
            import calendar
            m += 1
            if m > 12:
                y, m = y + 1, 1
            new = calendar.timegm((y, m, 1, 0, 0, 0)) - 0.0002
            kind = 'clock-month-boundary'
        elif v == 4:
            new = cur - r.choice((1.0, 5.0, 61.0))
            kind = 'clock-jump-back'
        elif v == 5:
            new = cur + r.choice((2.0, 70.0, 3700.0, 90000.0))
            kind = 'clock-jump-forward'
        elif v == 6 and clk.targets:
            new = clk.targets[r.randrange(len(clk.targets))] + r.choice((-1.0, -0.0003, 0.0, 0.5, 1.0, 1.5))
            kind = 'clock-to-validity-bound'
        else:
            new = cur - r.choice((3600.0, 90000.0))
            kind = 'clock-jump-back'
        if 86400.0 < new < 4200000000.0:
            s.fault_counts[kind] = s.fault_counts.get(kind, 0) + 1
            s.ev('clock', kind, '%.4f' % new)
            clk.jump_to(node, new)
    return clk.read(node)


def sim_time_ns():
    return int(sim_time() * 1000000000)


def sim_monotonic():
    s = _active()
    if s is None:
        return core.REAL_PERF()
    s.now += 0.0001
    return s.now - 900000000.0


def sim_gmtime(secs=None):
    if secs is None:
        secs = sim_time()
    return core.REAL_GMTIME(secs)


def sim_localtime(secs=None):
    if secs is None:
        secs = sim_time()
    return core.REAL_LOCALTIME(secs)


def sim_strftime(fmt, t=None):
    if t is None:
        t = sim_localtime()
    return core.REAL_STRFTIME(fmt, t)


def sim_ctime(secs=None):
    return time.asctime(sim_localtime(secs))


_real_sleep = time.sleep
_real_monotonic = time.monotonic
_real_time_ns = time.time_ns
_real_monotonic_ns = time.monotonic_ns
_real_perf_ns = time.perf_counter_ns


def sim_sleep(dt):
    s = _active()
    if s is None:
        return _real_sleep(dt)
    s.sleep(dt)


def sim_monotonic_ns():
    return int(sim_monotonic() * 1000000000)


def sweep_time():
    """Modules loaded before the seams keep their own references to the clock (threading, queue, ...)."""
    table = {id(core.REAL_TIME): sim_time, id(core.REAL_PERF): sim_monotonic, id(_real_monotonic): sim_monotonic,
             id(_real_sleep): sim_sleep, id(_real_time_ns): sim_time_ns, id(_real_monotonic_ns): sim_monotonic_ns,
             id(_real_perf_ns): sim_monotonic_ns}
    for name, m in list(sys.modules.items()):
        if m is None or name.split('.')[0] in ('sim', '__main__', 'asyncio', 'subprocess', 'multiprocessing', 'selectors'):
            continue
        for attr, v in list(vars(m).items()):
            f = table.get(id(v))
            if f is not None and callable(v):
                setattr(m, attr, f)


def install_time():
    time.monotonic_ns = time.perf_counter_ns = sim_monotonic_ns
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.monotonic = sim_monotonic
    time.perf_counter = sim_monotonic
    time.gmtime = sim_gmtime
    time.localtime = sim_localtime
    time.strftime = sim_strftime
    time.ctime = sim_ctime
    time.sleep = sim_sleep


def install_datetime():
    """After the third-party imports, before the repository's."""
    import datetime as dtm
    real = dtm.datetime

    class datetime(real):
        @classmethod
        def now(cls, tz=None):
            if _active() is None:
                return real.now(tz)
            return real.fromtimestamp(sim_time(), tz)

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(sim_time(), dtm.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    datetime.__module__ = 'datetime'
    dtm.datetime = datetime


# ------------------------------------------------------------- randomness ---
_real_urandom = os.urandom


def sim_urandom(n):
    s = _active()
    if s is None:
        if core.SIM is not None:
            return core.SIM.main_rng.randbytes(n)
        return _real_urandom(n)
    t = s.cur
    data = s.task_rng(t, 'entropy').randbytes(n)
    if t.rec is not None:
        if n >= 16 and t.rec.get('rng_repeat_ok') and s.entropy_seen.get(n):
            if s.pick('rng', 2):
                data = s.entropy_seen[n][-1]
                s.fault('rng-repeat')
        t.rec['entropy'].append(data)
        if t.rec.get('rng_repeat_ok') and n >= 16:
            s.entropy_seen.setdefault(n, []).append(data)
    return data


def install_random():
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda size, flags=0: sim_urandom(size)
    import secrets          # noqa: F401  (binds SystemRandom, which reads random._urandom)
    real_seed = random.Random.seed

    def seed(self, a=None, version=2):
        """An unseeded generator takes its seed from the simulated entropy (the C code would ask the kernel)."""
        if a is None and core.SIM is not None:
            a = int.from_bytes(sim_urandom(32), 'big')
        return real_seed(self, a, version)
    random.Random.seed = seed
    random.seed = random._inst.seed


def reseed_random():
    """After import of Crypto: its Random module binds os.urandom by name."""
    import Crypto.Random
    Crypto.Random.urandom = sim_urandom
    Crypto.Random.get_random_bytes = sim_urandom
    for name, m in list(sys.modules.items()):
        if name.startswith('Crypto') and m is not None:
            for attr in ('get_random_bytes', 'urandom'):
                if getattr(m, attr, None) is _real_urandom:
                    setattr(m, attr, sim_urandom)


# ------------------------------------------------------------------ locks ---
def install_locks():
    threading.Lock = core.SimLock
    threading._allocate_lock = core.SimLock
    threading.RLock = core.SimRLock
    threading._CRLock = None
    threading._PyRLock = core.SimRLock


# ------------------------------------------------------------------ files ---
_os = {n: getattr(os, n) for n in
       ('open', 'stat', 'lstat', 'rename', 'replace', 'remove', 'unlink', 'mkdir', 'rmdir', 'listdir', 'scandir',
        'access', 'fsync', 'fdatasync', 'write', 'close', 'fdopen', 'truncate', 'ftruncate', 'link', 'chmod', 'read')}
_io_open = io.open


class FS(object):
    """Which paths are simulated and what was made durable."""
    overlay = None               # scratch directory standing in for writes under REPO
    scratch = None
    fds = {}                     # simulated fd -> (path, incarnation)
    synced = {}                  # path -> durable bytes (only tracked when power loss is in the plan)
    track_sync = False
    renames = []                 # (source, target, what the target held before)


def _abspath(p):
    if isinstance(p, os.PathLike):
        p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith('/'):
        p = os.getcwd() + '/' + p
    return os.path.normpath(p)


def _map(p, write=False):
    """Real path to use for p, and whether it is simulated storage."""
    if isinstance(p, int):
        return p, p in FS.fds
    a = _abspath(p)
    ov = FS.overlay
    if ov is None:
        return p, False
    if a.startswith(REPO + '/') or a == REPO:
        o = ov + a[len(REPO):]
        if write:
            return o, True
        try:
            _os['lstat'](o)
            return o, True
        except OSError:
            return p, False
    if FS.scratch and (a.startswith(FS.scratch + '/') or a == FS.scratch):
        return a, True
    if a.startswith(_SYSTEM) or a.startswith(ov[:-2]):
        return p, False
    # anywhere else on the machine (temporary files included): a stand-in below the scratch directory
    o = ov[:-3] + '/elsewhere' + a
    if a in _TEMP or a.startswith(_TEMP_IN) or write and _active() is not None:
        try:
            os.makedirs(o if a in _TEMP else o.rpartition('/')[0], exist_ok=True)
        except OSError:
            pass
        return o, True
    try:
        _os['lstat'](o)
        return o, True
    except OSError:
        return p, False


_SYSTEM = ('/dev/', '/proc/', '/sys/')
_TEMP = ('/tmp', '/var/tmp')
_TEMP_IN = ('/tmp/', '/var/tmp/')


class SimFileIO(io.RawIOBase):
    """Raw file over a real descriptor, with injected failures."""

    def __init__(self, fd, path, mode):
        self._fd = fd
        self.path = path
        self.mode = mode
        self.name = path
        s = core.SIM
        self._inc = s.cur.inc if s is not None and s.cur is not None else None
        FS.fds[fd] = (path, self._inc)
        if s is not None:
            s.open_files.append(self)

    def _dead(self):
        return self._inc is not None and self._inc.dead

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return any(c in self.mode for c in 'wax+')

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        _os['ftruncate'](self._fd, size)
        return size

    def readinto(self, b):
        fault_read(self.path)
        data = _os['read'](self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if self._dead():
            return len(b)                    # the process is gone: data in user buffers is lost
        return sim_write(self._fd, self.path, b)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            fd, self._fd = self._fd, -1
            if fd >= 0:
                FS.fds.pop(fd, None)
                if self.writable():
                    stamp(fd)
                _os['close'](fd)
        if self.writable() and not self._dead():
            s = _active()
            if s is not None and s.cur.rec is not None and not s.cur.killed:
                if s.pick('fsclose', 2):
                    s.fault('file-close-error')
                    raise OSError(errno.EIO, 'simulated close error', self.path)


def _fs_on(s):
    return s is not None and s.cur.rec is not None and not s.cur.nopre and not s.cur.killed


def fault_read(path):
    s = _active()
    if not _fs_on(s):
        return
    s.point('read')
    if s.pick('fsread', 2):
        s.fault('file-read-error')
        raise OSError(errno.EIO, 'simulated read error', path)


def sim_write(fd, path, b):
    s = _active()
    if not _fs_on(s):
        if s is not None and s.cur.killed:
            return len(b)
        return _os['write'](fd, b)
    s.point('write')
    v = s.pick('fswrite', 7, None, (2, 2, 3, 2, 2, 2))
    if v == 0:
        n = _os['write'](fd, b)
        s.ev('write', os.path.basename(path).split('.')[-1], n)
        return n
    k = s.rng(s.cur.name, 'fsw%d' % s.cur.count('fsw')).randrange(0, len(b) + 1)
    if v == 1:
        s.fault('disk-full')
        raise OSError(errno.ENOSPC, 'simulated: no space left on device', path)
    if v == 2:
        s.fault('write-error')
        raise OSError(errno.EIO, 'simulated write error', path)
    if v == 3:
        s.fault('short-write')
        return _os['write'](fd, b[:max(1, min(k, len(b) - 1))])
    if v == 4:
        s.fault('torn-write-disk-full')
        if k:
            _os['write'](fd, b[:k])
        raise OSError(errno.ENOSPC, 'simulated: no space left on device', path)
    if v == 5:
        s.fault('crash-in-write')
        if k:
            _os['write'](fd, b[:k])
        s.crash_now('process')
        s.check_alive()
        return len(b)
    s.fault('crash-before-write')
    s.crash_now('process')
    s.check_alive()
    return len(b)


def _fd_limit(s, path):
    """The process may have only so many files open (knob of the plan)."""
    lim = s.knobs.get('fd_limit')
    if lim and sum(1 for v in FS.fds.values() if v[1] is s.cur.inc) >= lim:
        s.hit('fd-limit')
        s.cur.rec['natural'].append('fd-limit')
        raise OSError(errno.EMFILE, 'simulated: too many open files', path)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = _active()
    write = any(c in mode for c in 'wax+')
    if isinstance(file, int):
        if file in FS.fds and s is not None:
            path = FS.fds[file][0]
            return _wrap(SimFileIO(file, path, mode.replace('b', '').replace('t', '')), mode, buffering, encoding,
                         errors, newline)
        return _io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path, simulated = _map(file, write)
    if not simulated:
        return _io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if s is None or s.cur.rec is None:
        return _io_open(path, mode, buffering, encoding, errors, newline, closefd, opener)
    if not s.cur.nopre:
        s.point('open')
        if s.pick('fsopen', 2):
            s.fault('file-open-error')
            raise OSError(errno.EMFILE, 'simulated: too many open files', file)
    _fd_limit(s, file)
    if write:
        s.cur.rec['written'].append(path)
    s.ev('open', mode, os.path.basename(path).split('.')[-1])
    m = mode.replace('b', '').replace('t', '')
    flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
             'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[m.replace('+', '')]
    if '+' in m:
        flags = flags & ~(os.O_WRONLY | os.O_RDONLY) | os.O_RDWR
    if opener is not None:
        fd = opener(file, flags | os.O_CLOEXEC)
        if not isinstance(fd, int):
            return fd
    else:
        fd = _os['open'](path, flags | os.O_CLOEXEC, 0o666)
    if write and not s.cur.nopre:
        s.pick_crash('fs-opened')
    return _wrap(SimFileIO(fd, path, m), mode, buffering, encoding, errors, newline)


def _wrap(raw, mode, buffering, encoding, errors, newline):
    raw.binmode = mode
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else 8192
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
    text.mode = mode
    return text


def _os_path1(name, write=False):
    real = _os[name]

    def f(path, *a, **k):
        if isinstance(path, int) or k.get('dir_fd') is not None:
            return real(path, *a, **k)
        p, simulated = _map(path, write)
        s = _active()
        if simulated and write and _fs_on(s):
            s.point(name)
            if s.cur.killed:
                return None
            if s.pick('fsmeta', 2):
                s.fault('file-%s-error' % name)
                raise OSError(errno.EIO, 'simulated %s error' % name, path)
            s.pick_crash('fs-' + name)
            s.ev(name, os.path.basename(p))
        return real(p if simulated else path, *a, **k)
    f.__name__ = name
    return f


def _os_rename(name):
    real = _os[name]

    def f(src, dst, *a, **k):
        if k.get('src_dir_fd') is not None or k.get('dst_dir_fd') is not None:
            return real(src, dst, *a, **k)
        ps, s1 = _map(src, True)
        pd, s2 = _map(dst, True)
        s = _active()
        if (s1 or s2) and _fs_on(s):
            s.point(name)
            if s.pick('fsmeta', 2):
                s.fault('file-rename-error')
                raise OSError(errno.EIO, 'simulated rename error', src)
            s.pick_crash('fs-before-rename')
            s.ev(name, os.path.basename(ps), os.path.basename(pd))
        elif s is not None and s.cur.killed:
            return None
        if FS.track_sync and s2:
            try:
                with _io_open(pd, 'rb') as fh:
                    FS.renames.append((ps, pd, fh.read()))
            except OSError:
                FS.renames.append((ps, pd, None))
        r = real(ps if s1 else src, pd if s2 else dst, *a, **k)
        if FS.track_sync:
            if ps in FS.synced:
                FS.synced[pd] = FS.synced.pop(ps)
            elif s2:
                FS.synced[pd] = b''          # data never made durable
        if (s1 or s2) and _fs_on(s):
            s.pick_crash('fs-after-rename')
        return r
    f.__name__ = name
    return f


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    write = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
    if dir_fd is not None:
        return _os['open'](path, flags, mode, dir_fd=dir_fd)
    p, simulated = _map(path, bool(write))
    if not simulated:
        return _os['open'](path, flags, mode, dir_fd=dir_fd)
    s = _active()
    if _fs_on(s) and write:
        s.point('open')
        if s.pick('fsopen', 2):
            s.fault('file-open-error')
            raise OSError(errno.EMFILE, 'simulated: too many open files', path)
        _fd_limit(s, path)
        s.cur.rec['written'].append(p)
    fd = _os['open'](p, flags, mode)
    FS.fds[fd] = (p, s.cur.inc if s is not None else None)
    return fd


def sim_os_write(fd, data):
    if fd in FS.fds:
        return sim_write(fd, FS.fds[fd][0], bytes(data))
    return _os['write'](fd, data)


def stamp(fd):
    """A file carries the simulated time of its last change."""
    s = _active()
    if s is not None and s.clock is not None:
        t = s.clock.read(s.cur.node)
        try:
            os.utime(fd, (t, t))
        except OSError:
            pass


def sim_os_close(fd):
    if fd in FS.fds:
        stamp(fd)
    FS.fds.pop(fd, None)
    return _os['close'](fd)


def sim_fsync(fd):
    real = fd if isinstance(fd, int) else fd.fileno()
    if real in FS.fds:
        s = _active()
        path = FS.fds[real][0]
        if s is not None and s.cur.killed:
            return None
        if _fs_on(s):
            s.point('fsync')
            if s.pick('fssync', 2):
                s.fault('fsync-error')
                raise OSError(errno.EIO, 'simulated fsync error', path)
        if FS.track_sync and not os.path.isdir(path):        # an unnamed temporary file has only its directory
            with _io_open(path, 'rb') as fh:
                FS.synced[path] = fh.read()
        return None
    return _os['fsync'](real)


def sim_fdopen(fd, mode='r', buffering=-1, encoding=None, *a, **k):
    return sim_open(fd, mode, buffering, encoding, *a, **k)


def install_files():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_os_close
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    os.fdopen = sim_fdopen
    for n in ('stat', 'lstat', 'listdir', 'scandir', 'access'):
        setattr(os, n, _os_path1(n))
    for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate', 'chmod'):
        setattr(os, n, _os_path1(n, True))
    for n in ('rename', 'replace', 'link'):
        setattr(os, n, _os_rename(n))
    import posixpath
    posixpath.os = os
    import genericpath
    # posix provides C versions of these in newer interpreters; use the python ones over os.stat
    for n in ('isfile', 'isdir', 'exists', 'lexists'):
        f = getattr(genericpath, n, None)
        if f is not None and f.__module__ == 'genericpath':
            setattr(os.path, n, f)


# --------------------------------------------------------------- database ---
_real_connect = sqlite3.connect


def crash_connections(inc):
    """The process is gone: its connections vanish and the database files are left as they are at this moment, journal included.

    (Closing a connection through the library would undo its transaction; a crash leaves that to whoever opens the file next.)"""
    mine = [c for c in DBHooks.conns if c.sim_inc is inc]
    left = {}
    for p in sorted({str(c.sim_path) for c in mine}):
        for suffix in ('', '-journal', '-wal'):
            try:
                with _io_open(p + suffix, 'rb') as f:
                    left[p + suffix] = f.read()
            except OSError:
                left[p + suffix] = None
    for c in mine:
        for fn in (sqlite3.Connection.rollback, sqlite3.Connection.close):
            try:
                fn(c)
            except sqlite3.Error:
                pass
        c.sim_closed = True
        DBHooks.conns.remove(c)
    for p, data in left.items():
        if data is None:
            if _exists(p):
                _os['unlink'](p)
        else:
            with _io_open(p, 'wb') as f:
                f.write(data)
        if p.endswith('-wal') and _exists(p[:-4] + '-shm'):
            _os['unlink'](p[:-4] + '-shm')


def _exists(p):
    try:
        _os['lstat'](p)
        return True
    except OSError:
        return False


class DBHooks(object):
    on_commit = None          # called after a service commit took effect
    conns = []


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, params=()):
        self.connection.sim_before(sql)
        return self.connection.sim_retry(lambda: super(SimCursor, self).execute(sql, params))

    def executemany(self, sql, params):
        params = list(params)
        self.connection.sim_before(sql)
        return self.connection.sim_retry(lambda: super(SimCursor, self).executemany(sql, params))


class SimConnection(sqlite3.Connection):
    sim_path = None
    sim_inc = None
    sim_timeout = 5.0
    sim_closed = False
    sim_dead_conn = False

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)

    def sim_dead(self):
        return self.sim_dead_conn or self.sim_inc is not None and self.sim_inc.dead

    def sim_before(self, sql):
        if self.sim_dead():
            raise sqlite3.ProgrammingError('Cannot operate on a closed database.')
        s = _active()
        if s is not None and s.cur.rec is not None:
            s.cur.rec['dbs'].add(self.sim_path)
        if s is None or s.cur.rec is None or s.cur.nopre:
            return
        word = sql.lstrip().split(None, 1)[0].upper() if sql.strip() else ''
        s.point('db')
        s.cur.rec['db'] += 1
        v = s.pick('db', 6, None, (4, 2, 2, 1, 1))
        s.ev('sql', word)
        if v == 1:
            s.fault('db-io-error')
            raise sqlite3.OperationalError('disk I/O error')
        if v == 2:
            s.fault('db-locked')
            raise sqlite3.OperationalError('database is locked')
        if v == 3:
            s.fault('db-connection-lost')
            self.sim_dead_conn = True
            sqlite3.Connection.rollback(self)
            raise sqlite3.ProgrammingError('Cannot operate on a closed database.')
        if v == 4:
            s.fault('db-full')
            raise sqlite3.OperationalError('database or disk is full')
        if v == 5:
            s.fault('crash-before-statement')
            s.crash_now('process')
            s.check_alive()

    def sim_retry(self, fn):
        """The busy timeout of sqlite, in simulated time."""
        s = _active()
        if s is None or s.cur.rec is None or s.cur.nopre:
            return fn()
        deadline = s.now + self.sim_timeout
        while True:
            try:
                return fn()
            except sqlite3.IntegrityError:
                s.cur.rec['natural'].append('integrity')
                s.hit('integrity-error')
                raise
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e) and 'busy' not in str(e):
                    raise
                if s.now >= deadline:
                    s.cur.rec['natural'].append('db-busy')
                    s.hit('natural-db-busy')
                    raise
            s.hit('db-busy-wait')
            s.sleep(0.05)
            if self.sim_dead():
                raise sqlite3.ProgrammingError('Cannot operate on a closed database.')

    def commit(self):
        if self.sim_dead():
            raise sqlite3.ProgrammingError('Cannot operate on a closed database.')
        s = _active()
        if s is None or s.cur.rec is None or s.cur.nopre:
            r = super().commit()
            if s is not None and s.cur.rec is not None and DBHooks.on_commit:
                DBHooks.on_commit(self)
            return r
        s.point('commit')
        pending = self.in_transaction
        v = s.pick('commit', 6, None, (3, 3, 2, 2, 2)) if pending else 0
        if v == 1:
            s.fault('commit-error-no-effect')
            sqlite3.Connection.rollback(self)
            raise sqlite3.OperationalError('simulated: commit failed')
        if v == 3:
            s.fault('crash-before-commit')
            s.crash_now('process')
            s.check_alive()
        if v == 5:
            s.fault('commit-locked')
            raise sqlite3.OperationalError('database is locked')
        r = self.sim_retry(super().commit)
        if pending:
            s.ev('commit')
            if DBHooks.on_commit:
                DBHooks.on_commit(self)
        if v == 2:
            s.fault('commit-error-with-effect')
            raise sqlite3.OperationalError('simulated: connection lost during commit')
        if v == 4:
            s.fault('crash-after-commit')
            s.crash_now('process')
            s.check_alive()
        if pending:
            s.point('committed')
        return r

    def rollback(self):
        if self.sim_closed:
            return None
        return super().rollback()

    def close(self):
        self.sim_closed = True
        if self in DBHooks.conns:
            DBHooks.conns.remove(self)
        return super().close()


def sim_connect(database, *args, **kw):
    s = _active()
    if isinstance(database, (str, os.PathLike)) and str(database) not in ('', ':memory:') and not str(database).startswith('file:'):
        m, simulated = _map(database, True)
        if simulated and m != database:
            database = m
    if s is None or s.cur.rec is None:
        kw.pop('factory', None)
        kw['timeout'] = kw.get('timeout', 5.0)
        c = _real_connect(database, *args, **kw)
        return c
    rec = s.cur.rec
    if not s.cur.nopre:
        s.point('connect')
        if s.pick('dbconnect', 2):
            s.fault('db-connect-error')
            raise sqlite3.OperationalError('unable to open database file')
    timeout = kw.pop('timeout', 5.0)
    kw.pop('factory', None)
    kw['check_same_thread'] = False
    c = _real_connect(database, *args, factory=SimConnection, timeout=0, **kw)
    c.sim_timeout = timeout
    c.sim_path = database
    c.sim_inc = s.cur.inc
    rec['dbs'].add(str(database))
    DBHooks.conns.append(c)
    return c


def install_db():
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect


# ---------------------------------------------------------------- logging ---
class MemoryHandler(logging.Handler):
    """Stands in for log files: keeps every formatted record in memory."""
    records = []

    def __init__(self, filename, mode='a', *a, **k):
        logging.Handler.__init__(self)
        self.baseFilename = filename
        self.mode = mode

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def emit(self, record):
        try:
            msg = self.format(record)
        except Exception:
            return
        s = _active()
        MemoryHandler.records.append((s.cur.name if s else '-', record.levelname, msg))

    def close(self):
        logging.Handler.close(self)


class _Stdout(object):
    def __init__(self, real):
        self.real = real
        self.text = []

    def write(self, x):
        if core.SIM is not None:
            self.text.append(x)
        else:
            self.real.write(x)
        return len(x)

    def flush(self):
        self.real.flush()

    def __getattr__(self, n):
        return getattr(self.real, n)


def install_logging():
    import logging.handlers as lh
    logging.FileHandler = MemoryHandler
    logging.raiseExceptions = False
    lh.RotatingFileHandler = MemoryHandler
    lh.TimedRotatingFileHandler = MemoryHandler
    lh.WatchedFileHandler = MemoryHandler


def install():
    """Install every seam (once per process)."""
    install_locks()
    install_time()
    install_random()
    install_files()
    install_db()
    install_logging()
