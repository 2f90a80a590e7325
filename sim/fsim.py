"""File system seam: counts, fails and tears the file system operations made below one directory.

Files really live in a scratch directory.  Every operation that could change what survives is a numbered
point at which a scenario can inject a fault:

  crash       nothing happens from here on (a write may reach the disk in part); in-process clean-up code cannot
              touch the files any more
  power       as crash; in addition data that was never fsynced is lost (files keep a prefix), and the last
              directory operations may be lost
  eio, enospc, eacces, interrupt   the operation raises (enospc may persist until space is freed)
  short       a write accepts only a part of its data
"""
import builtins
import errno
import io
import os
import threading

from .world import SimInterrupt


class Crash(BaseException):
    pass


class Disk(object):
    def __init__(self, root, w, fault=None, pid=4242, switch=None):
        self.root, self.w, self.fault, self.switch = os.path.realpath(root), w, fault, switch
        self.pid = pid
        self.n = 0                 # operations so far
        self.ops = []
        self.dead = set()          # threads (simulated processes) that have crashed
        self.fired = None
        self.full = False
        self.synced = {}           # inode -> number of bytes known to be durable
        self.names = {}            # inode -> path (last seen)
        self.dirops = []           # undo functions, newest last
        self.local = threading.local()

    # -- faults --------------------------------------------------------------
    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def point(self, kind, partial=None):
        """One operation is about to happen."""
        me = threading.get_ident()
        if self.switch is not None:
            self.switch()
        if me in self.dead:
            raise Crash()
        k = self.n
        self.n += 1
        self.ops.append(kind)
        f = self.fault
        if self.full and kind in ('write', 'create', 'mkdir'):
            raise OSError(errno.ENOSPC, 'injected: no space left')
        if f and f['at'] == k and self.fired is None:
            what = f['kind']
            if kind == 'return' and what not in ('crash', 'power'):
                return None
            if what in ('crash', 'power'):
                self.fire(what, kind)
                self.dead.add(me)
                if partial is not None:
                    partial(f['u'])
                raise Crash()
            if what == 'enospc' and kind in ('write', 'create', 'mkdir', 'fsync', 'rename', 'close'):
                self.fire(what, kind)
                self.full = f['u'] < .5
                if partial is not None:
                    partial(f['u'])
                raise OSError(errno.ENOSPC, 'injected: no space left')
            if what == 'eio':
                self.fire(what, kind)
                if partial is not None and f['u'] < .5:
                    partial(2 * f['u'])
                raise OSError(errno.EIO, 'injected: input/output error')
            if what == 'eacces' and kind in ('create', 'read', 'mkdir', 'rename', 'remove'):
                self.fire(what, kind)
                raise OSError(errno.EACCES, 'injected: permission denied')
            if what == 'interrupt':
                self.fire(what, kind)
                raise SimInterrupt('injected')
            if what == 'short' and kind == 'write':
                self.fire(what, kind)
                return 'short'
        return None

    def fire(self, what, kind):
        self.fired = (what, kind)
        self.w.fault('{} at {}'.format(what, kind))

    # -- durability ----------------------------------------------------------
    def lose(self, u, v):
        """After a power failure: undo unsynced directory operations (newest first), tear unsynced data."""
        n = min(int(u * (len(self.dirops) + 1)), len(self.dirops))
        for _ in range(n):
            self.dirops.pop()()
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                st = os.stat(p)
                if st.st_ino in self.synced and self.synced[st.st_ino] < st.st_size:
                    keep = self.synced[st.st_ino]
                    keep += int(v * (st.st_size - keep))
                    with REAL['open'](p, 'r+b') as fh:
                        fh.truncate(keep)

    def note_write(self, fd):
        self.synced.setdefault(os.fstat(fd).st_ino, 0)

    def note_sync(self, fd):
        st = os.fstat(fd)
        self.synced[st.st_ino] = st.st_size


REAL = dict(open=io.open, FileIO=io.FileIO)
for _n in ('open', 'rename', 'replace', 'remove', 'unlink', 'mkdir', 'rmdir', 'fsync', 'fdatasync', 'write', 'close', 'truncate', 'ftruncate', 'getpid',
           'link', 'symlink', 'sync'):
    REAL['os.' + _n] = getattr(os, _n)
DISK = None
PATCHED = False


class SimFile(io.FileIO):
    """A raw file below the root of the simulated disk."""
    def __init__(self, disk, *a, **k):
        self._disk = disk
        io.FileIO.__init__(self, *a, **k)
        self._w = 'r' != self.mode.strip('b') 
        if self._w:
            disk.note_write(self.fileno())
            if os.fstat(self.fileno()).st_size == 0:
                disk.synced[os.fstat(self.fileno()).st_ino] = 0

    def write(self, b):
        def part(u):
            io.FileIO.write(self, bytes(b)[:int(u * len(b))])
        r = self._disk.point('write', part)
        self._disk.note_write(self.fileno())
        if r == 'short' and len(b) > 1:
            return io.FileIO.write(self, bytes(b)[:max(1, len(b) // 2)])
        return io.FileIO.write(self, b)

    def readinto(self, b):
        self._disk.point('read')
        # Deliver little at a time, so that failures can come in the middle
        n = min(len(b), 48)
        return io.FileIO.readinto(self, memoryview(b)[:n])

    def read(self, n=-1):
        self._disk.point('read')
        return io.FileIO.read(self, n)

    def readall(self):
        self._disk.point('read')
        return io.FileIO.readall(self)

    def truncate(self, n=None):
        self._disk.point('truncate')
        return io.FileIO.truncate(self, n)

    def close(self):
        if self.closed:
            return
        try:
            if self._w:
                self._disk.point('close')
        finally:
            io.FileIO.close(self)


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d is None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        try:
            mine = d.inside(os.readlink('/proc/self/fd/{}'.format(file)))
        except OSError:
            mine = False
    else:
        mine = d.inside(file)
    if not mine:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw_mode = mode.replace('b', '').replace('t', '').replace('U', '')
    if not isinstance(file, int):
        d.point('create' if set(raw_mode) & set('wax+') else 'read')
    raw = SimFile(d, file, raw_mode, closefd=closefd, opener=opener)
    if 'b' in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else 64
    if raw.readable() and raw.writable():
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _mine_fd(d, fd):
    try:
        return d.inside(os.readlink('/proc/self/fd/{}'.format(fd)))
    except OSError:
        return False


def _mk(name, kind):
    real = REAL['os.' + name]

    def two(src, dst, *a, **k):
        d = DISK
        if d is None or not (d.inside(src) or d.inside(dst)):
            return real(src, dst, *a, **k)
        d.point(kind)
        old = None
        if kind == 'rename' and os.path.isfile(dst):
            with REAL['open'](dst, 'rb') as f:
                old = f.read()
            ino = os.stat(dst).st_ino
            was_synced = d.synced.get(ino)
        r = real(src, dst, *a, **k)

        def undo():
            if kind != 'rename':
                REAL['os.remove'](dst)
                return
            REAL['os.rename'](dst, src)
            if old is not None:
                with REAL['open'](dst, 'wb') as f:
                    f.write(old)
                d.synced[os.stat(dst).st_ino] = len(old) if was_synced is None else was_synced
        d.dirops.append(undo)
        return r

    def one(path, *a, **k):
        d = DISK
        if d is None or not d.inside(path):
            return real(path, *a, **k)
        d.point(kind)
        undo = None
        if kind == 'remove' and os.path.isfile(path):
            with REAL['open'](path, 'rb') as f:
                old = f.read()

            def undo():
                with REAL['open'](path, 'wb') as f:
                    f.write(old)
                d.synced[os.stat(path).st_ino] = len(old)
        r = real(path, *a, **k)
        if undo:
            d.dirops.append(undo)
        return r

    def fd(fdn, *a, **k):
        d = DISK
        if d is None or not _mine_fd(d, fdn if isinstance(fdn, int) else fdn.fileno()):
            return real(fdn, *a, **k)
        n = fdn if isinstance(fdn, int) else fdn.fileno()
        if kind == 'fsync':
            d.point(kind)
            r = real(fdn)
            if os.path.isdir('/proc/self/fd/{}'.format(n)):
                del d.dirops[:]
            else:
                d.note_sync(n)
            return r
        if kind == 'write':
            data = bytes(a[0])
            if d.point('write', lambda u: real(n, data[:int(u * len(data))])) == 'short' and len(data) > 1:
                data = data[:max(1, len(data) // 2)]
            d.note_write(n)
            return real(n, data)
        d.point(kind)
        return real(fdn, *a, **k)
    return {'rename': two, 'link': two, 'remove': one, 'mkdir': one, 'truncate': one, 'fsync': fd, 'write': fd, 'ftruncate': fd}[kind]


def _os_open(path, flags, *a, **k):
    d = DISK
    if d is not None and k.get('dir_fd') is None and d.inside(path) and not os.path.isdir(path):
        w = flags & (os.O_WRONLY | os.O_RDWR)
        d.point('create' if w else 'read')
        fd = REAL['os.open'](path, flags, *a, **k)
        if w:
            d.note_write(fd)
            if flags & os.O_TRUNC:
                d.synced[os.fstat(fd).st_ino] = 0
        return fd
    return REAL['os.open'](path, flags, *a, **k)


def _getpid():
    d = DISK
    return REAL['os.getpid']() if d is None else getattr(d.local, 'pid', d.pid)


def _patch():
    global PATCHED
    if PATCHED:
        return
    PATCHED = True
    builtins.open = io.open = _open
    os.open, os.getpid = _os_open, _getpid
    for name, kind in dict(rename='rename', replace='rename', remove='remove', unlink='remove', mkdir='mkdir', fsync='fsync', fdatasync='fsync',
                           write='write', truncate='truncate', ftruncate='ftruncate', link='link').items():
        setattr(os, name, _mk(name, kind))


def _unpatch():
    global PATCHED
    PATCHED = False
    builtins.open = io.open = REAL['open']
    for k, f in REAL.items():
        if k.startswith('os.'):
            setattr(os, k[3:], f)


class mounted(object):
    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global DISK
        _patch()
        DISK = self.disk
        return self.disk

    def __exit__(self, *a):
        global DISK
        DISK = None
        _unpatch()
        return False
