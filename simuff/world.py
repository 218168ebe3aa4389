"""The simulated world: disk, clock, processes and threads.

install() puts permanent dispatchers in front of every way Python code opens, reads, writes, stats, renames or
deletes a file or asks for the time.  They pass through to the real function except while the current thread runs
code under test (a Ctx is set), when they act on the current World: an in-memory disk whose every system call is an
event - numbered, logged, a scheduling point and a place where a planned fault may strike.

install() must run before pyuff (and anything pyuff imports for file access) is imported.
"""
import builtins
import errno
import io
import os
import random
import stat as _stat
import sys
import threading
import time as _time
import datetime as _datetime
import zlib

PREFIX = '/simdisk'
REAL = {}
_tl = threading.local()


class SimCrash(BaseException):
    """The simulated process has died: no further system call has any effect."""


class StepLimit(BaseException):
    """The code under test executed more lines than any terminating call could need."""


class HarnessError(BaseException):
    """The simulator itself is at fault (or met something it does not simulate)."""


def ctx():
    return getattr(_tl, 'ctx', None)


class Ctx:
    __slots__ = ('world', 'proc', 'thread')

    def __init__(self, world, proc, thread=0):
        self.world, self.proc, self.thread = world, proc, thread

    def __enter__(self):
        self.old = getattr(_tl, 'ctx', None)
        _tl.ctx = self

    __slots__ += ('old',)

    def __exit__(self, *a):
        _tl.ctx = self.old


class suspended:
    """Harness code running inside an operation (hooks)."""

    def __enter__(self):
        self.old = getattr(_tl, 'ctx', None)
        _tl.ctx = None

    def __exit__(self, *a):
        _tl.ctx = self.old


class Proc:
    def __init__(self, pid):
        self.pid = pid
        self.dead = False
        self.handles = []


class Inode:
    __slots__ = ('data', 'durable', 'appended_only', 'ino', 'mtime')

    def __init__(self, ino, data=b''):
        self.data = bytearray(data)
        self.durable = bytes(data)      # content known to be on the platter
        self.appended_only = True       # since then only appended to
        self.ino = ino
        self.mtime = 0.0


# --------------------------------------------------------------------------------------------------
class World:
    def __init__(self, knobs=None):
        k = dict(buf=8192, chunk=0, tick=1e-4, t0=1700000000.25, tcost=0.0, mgran=0.01, enc='utf-8', eol='\n')
        k.update(knobs or {})
        self.knobs = k
        self.files = {}
        self.dirs = {PREFIX, '/tmp'}
        self.procs = []
        self.seq = 0
        self.now = k['t0']
        self.mono = 0.0
        self.readings = []              # clock intervals [a, b] passed during the operation
        self.log_crc = 0
        self.log = None                 # list when a full log is wanted
        self.faults = []                # planned for the operation in progress
        self.counts = {}                # system calls of the operation by kind
        self.fired = {}                 # fault kind -> times it struck
        self.full = False               # no space left until the operation ends
        self.pending = None             # error the next write reports
        self.stuck = None               # (sys, errno) repeated until the operation ends
        self.observers = []             # called after each change of the disk: f(event, path, inode)
        self.sched = None
        self.ended = False
        self.touched = {}               # path -> set of what was done to it in this operation
        self.next_ino = 10
        self.vfds = {}
        self.umod = 0
        self.total_calls = 0
        self.rnd = random.Random(12345)

    # ---- processes and paths ----
    def new_proc(self):
        p = Proc(1000 + len(self.procs))
        self.procs.append(p)
        return p

    def norm(self, path):
        p = os.fsdecode(os.fspath(path))
        if '\0' in p:
            raise ValueError('embedded null byte')
        return os.path.normpath(os.path.join(PREFIX, p))

    def mine(self, path):
        """Is this path on the simulated disk?"""
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        if not os.path.isabs(p):
            return True
        n = os.path.normpath(p)
        return n == PREFIX or n.startswith(PREFIX + '/') or n in self.files

    # ---- events ----
    def event(self, kind, detail=''):
        c = ctx()
        th = c.thread if c else -1
        self.seq += 1
        rec = (self.seq, th, kind, detail)
        self.log_crc = zlib.crc32(repr(rec).encode(), self.log_crc)
        if self.log is not None:
            self.log.append(rec)

    def syscall(self, proc, kind, detail=''):
        """One system call: schedule, count, decide whether a fault strikes.  Returns the fault or None."""
        if proc.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point()
            if proc.dead:
                raise SimCrash()
        self.total_calls += 1
        self.advance(self.knobs['tick'])
        n = self.counts[kind] = self.counts.get(kind, 0) + 1
        m = self.counts['*'] = self.counts.get('*', 0) + 1
        hit = None
        c = ctx()
        th = c.thread if c else 0
        if self.sched is not None:
            # calls are counted by thread
            n = self.counts[th, kind] = self.counts.get((th, kind), 0) + 1
            m = self.counts[th, '*'] = self.counts.get((th, '*'), 0) + 1
        for f in self.faults:
            if f.get('done') or f.get('thread', th) != th:
                continue
            if (f['sys'] == kind and f['nth'] == n) or (f['sys'] == '*' and f['nth'] == m):
                hit = f
                break
        self.event(kind, '%s%s' % (detail, ' !%s' % hit['kind'] if hit else ''))
        if hit:
            hit['done'] = True
            self.fired[kind + ':' + hit['kind']] = self.fired.get(kind + ':' + hit['kind'], 0) + 1
            k = hit['kind']
            if k == 'stall':
                self.advance(hit.get('arg', 1.0))
                return None
            if k == 'jump':
                self.now += hit.get('arg', -3600.0)
                self.readings.append([self.now, self.now])
                return None
            if k in ('crash', 'power') and kind != 'write':
                self.die(proc, k, hit)
            if k == 'mem':
                raise MemoryError()
            if k == 'int':
                raise KeyboardInterrupt()
            if k == 'ENOSPC':
                self.full = True
            elif k.startswith('E') and hit.get('sticky'):
                self.stuck = (kind, getattr(errno, k))
            if k.startswith('E') and k != 'ENOSPC' and not (k == 'EIO' and kind in ('write', 'close')):
                raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)))
            return hit
        if self.stuck and self.stuck[0] == kind:
            raise OSError(self.stuck[1], os.strerror(self.stuck[1]))
        return None

    def die(self, proc, kind, fault):
        proc.dead = True
        if kind == 'power':
            self.power_loss(fault.get('arg', 0.0), fault.get('zeros', 0))
        raise SimCrash()

    def power_loss(self, frac, zeros=0):
        """What is not durable is lost from some byte on."""
        for path, ino in self.files.items():
            cur, dur = bytes(ino.data), ino.durable
            if cur == dur and ino.appended_only:
                continue
            if ino.appended_only and cur[:len(dur)] == dur:
                rest = cur[len(dur):]
                keep = int(round(len(rest) * frac))
                new = dur + rest[:keep] + b'\0' * min(zeros, len(rest) - keep)
            elif frac < 0.25:
                new = dur                               # not even the truncation has reached the disk
            else:
                new = cur[:int(round(len(cur) * (frac - 0.25) / 0.75))]
            ino.data[:] = new
            ino.durable, ino.appended_only = bytes(new), True
        self.fired['power'] = self.fired.get('power', 0) + 1

    def sync(self):
        for ino in self.files.values():
            ino.durable, ino.appended_only = bytes(ino.data), True

    # ---- clock ----
    def advance(self, dt):
        if dt > 0:
            a = self.now
            self.now += dt
            self.mono += dt
            if self.readings and self.readings[-1][1] == a:
                self.readings[-1][1] = self.now
            else:
                self.readings.append([a, self.now])

    def clock(self):
        """A reading of the wall clock by the code under test."""
        self.total_calls += 1
        n = self.counts['time'] = self.counts.get('time', 0) + 1
        for f in self.faults:
            if not f.get('done') and f['sys'] == 'time' and f['nth'] == n:
                f['done'] = True
                self.fired['time:' + f['kind']] = self.fired.get('time:' + f['kind'], 0) + 1
                if f['kind'] == 'jump':
                    self.now += f['arg']
                    self.readings.append([self.now, self.now])
                else:
                    self.advance(f['arg'])
        t = self.now
        self.event('time', '%.6f' % t)
        self.advance(self.knobs['tcost'] or 1e-6)
        return t

    def mtime(self):
        """Time stamps of a file are as coarse as the file system makes them."""
        g = self.knobs['mgran']
        return self.now - self.now % g if g else self.now

    # ---- disk ----
    def changed(self, what, path, ino):
        ino.mtime = self.mtime()
        self.touched.setdefault(path, set()).add(what)
        for f in self.observers:
            with suspended():
                f(what, path, ino)

    def put(self, path, data, durable=True):
        """Harness: set the content of a file."""
        path = self.norm(path)
        ino = self.files.get(path)
        if ino is None:
            self.next_ino += 1
            ino = self.files[path] = Inode(self.next_ino)
        ino.data[:] = data
        ino.mtime = self.mtime()
        if durable:
            ino.durable, ino.appended_only = bytes(data), True

    def get(self, path):
        ino = self.files.get(self.norm(path))
        return None if ino is None else bytes(ino.data)

    def drop(self, path):
        self.files.pop(self.norm(path), None)

    def snapshot(self):
        return {p: bytes(i.data) for p, i in self.files.items()}

    def open_handles(self, proc=None):
        return [h for p in self.procs if proc is None or p is proc for h in p.handles if not h.sim_closed]

    # begin/end of one operation of the code under test
    def begin(self, faults=()):
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.full, self.stuck, self.pending = False, None, None
        self.touched = {}
        self.readings = [[self.now, self.now]]

    def finish(self):
        self.faults = []
        self.full, self.stuck, self.pending = False, None, None


class SimRaw(io.RawIOBase):
    """An open file of the simulated disk."""

    def __init__(self, world, proc, path, ino, readable, writable, append):
        self.w, self.proc, self.path, self.ino = world, proc, path, ino
        self._r, self._w, self._a = readable, writable, append
        self.pos = 0
        self.sim_closed = False
        self.memfd = self.memimg = None
        self.vfd = None
        self.name = path
        self.mode = 'rb+' if readable and writable else 'wb' if writable else 'rb'
        proc.handles.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def _live(self):
        if self.sim_closed or self.closed:
            raise ValueError('I/O operation on closed file')
        if self.w.ended:
            raise SimCrash()

    def _sync_memfd(self):
        """Keeps the real file behind a file descriptor that was handed out and the simulated file alike."""
        if self.memfd is None:
            return
        if self._w:
            size = REAL['os.fstat'](self.memfd).st_size
            new = os.pread(self.memfd, size, 0)
            if new != self.memimg:
                # somebody wrote through the file descriptor
                f = self.w.syscall(self.proc, 'write', '%s fd' % self.path)
                if f and f['kind'] in ('crash', 'power'):
                    self.w.die(self.proc, f['kind'], f)
                self.ino.appended_only &= new[:len(self.ino.data)] == bytes(self.ino.data)
                self.ino.data[:] = new
                self.memimg = new
                self.w.changed('write', self.path, self.ino)
        self._mirror()

    def _mirror(self):
        if self.memfd is not None and self.memimg != self.ino.data:
            self.memimg = bytes(self.ino.data)
            REAL['os.ftruncate'](self.memfd, 0)
            os.pwrite(self.memfd, self.memimg, 0)

    def readinto(self, b):
        self._live()
        self._sync_memfd()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        f = self.w.syscall(self.proc, 'read', self.path)
        n = min(len(b), max(0, len(self.ino.data) - self.pos))
        if self.w.knobs['chunk']:
            n = min(n, max(self.w.knobs['chunk'], len(self.ino.data) // 400))
        if f and f['kind'] == 'short' and n > 1:
            n = max(1, int(n * f.get('arg', 0.5)))
        b[:n] = self.ino.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(max(1, len(self.ino.data) - self.pos, self.w.knobs['buf']))
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(min(size, max(1, len(self.ino.data) - self.pos)))
        n = self.readinto(b)
        return bytes(b[:n])

    def write(self, b):
        self._live()
        self._sync_memfd()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        data = bytes(memoryview(b).cast('B'))
        w = self.w
        f = w.syscall(self.proc, 'write', '%s %d' % (self.path, len(data)))
        n = len(data)
        if w.full and not f:
            raise OSError(errno.ENOSPC, 'No space left on device')
        if w.pending and not f:
            e, w.pending = w.pending, None
            raise e
        if w.knobs['chunk']:
            n = min(n, max(w.knobs['chunk'], n // 400))
        die = None
        if f:
            k = f['kind']
            frac = f.get('arg', 0.5)
            if k in ('crash', 'power'):
                n = int(round(len(data) * frac)) if k == 'crash' else len(data)
                die = k
            elif k == 'ENOSPC':
                n = int(n * frac)
                if not n:
                    raise OSError(errno.ENOSPC, 'No space left on device')
            elif k == 'EIO':
                n = int(n * frac)
                if not n:
                    raise OSError(errno.EIO, 'Input/output error')
                # the part that could be written is reported first, the error by the next write
                w.pending = OSError(errno.EIO, 'Input/output error')
            elif k == 'short' and n > 1:
                n = max(1, int(n * frac))
        if n:
            self._apply(data[:n])
        if die:
            w.die(self.proc, die, f)
        return n

    def _apply(self, data):
        d = self.ino.data
        if self._a:
            self.pos = len(d)
        if self.pos > len(d):
            d.extend(b'\0' * (self.pos - len(d)))
        if self.pos < len(d):
            self.ino.appended_only = False
        d[self.pos:self.pos + len(data)] = data
        self.pos += len(data)
        self._mirror()
        self.w.changed('write', self.path, self.ino)

    def seek(self, off, whence=0):
        self._live()
        self._sync_memfd()
        if self.proc.dead:
            raise SimCrash()
        if whence == 2:
            self.w.syscall(self.proc, 'lseek', self.path)
        new = off + (0 if whence == 0 else self.pos if whence == 1 else len(self.ino.data))
        if new < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = new
        return new

    def tell(self):
        self._live()
        return self.pos

    def truncate(self, size=None):
        self._live()
        if not self._w:
            raise io.UnsupportedOperation('truncate')
        size = self.pos if size is None else size
        self.w.syscall(self.proc, 'truncate', '%s %d' % (self.path, size))
        _truncate(self.w, self.path, self.ino, size)
        self._mirror()
        return size

    def fileno(self):
        self._live()
        if self.memfd is None:
            self.memfd = os.memfd_create('simuff')
            self.memimg = b''
            self._mirror()
            REAL['os.lseek'](self.memfd, self.pos, 0)
        return self.memfd

    def close(self):
        if self.sim_closed:
            return
        if not self.w.ended and not self.proc.dead:
            try:
                self._sync_memfd()
                f = self.w.syscall(self.proc, 'close', self.path)
            finally:
                self._done()
            if f and f['kind'] in ('EIO', 'ENOSPC'):
                super().close()
                raise OSError(getattr(errno, f['kind']), os.strerror(getattr(errno, f['kind'])))
        else:
            dead = self.proc.dead and not self.w.ended
            self._done()
            super().close()
            if dead and ctx() is not None:
                raise SimCrash()
            return
        super().close()

    def _done(self):
        self.sim_closed = True
        if self.memfd is not None:
            try:
                REAL['os.close'](self.memfd)
            except OSError:
                pass
            self.memfd = None
        if self in self.proc.handles:
            self.proc.handles.remove(self)
        if self.vfd is not None:
            self.w.vfds.pop(self.vfd, None)

    def __del__(self):
        # a handle that is only collected: no system calls outside an operation
        if not self.sim_closed:
            try:
                if ctx() is not None:
                    self.close()
                else:
                    self._done()
            except BaseException:
                pass


def _truncate(w, path, ino, size):
    if size < len(ino.data):
        del ino.data[size:]
        ino.appended_only = False
    else:
        ino.data.extend(b'\0' * (size - len(ino.data)))
    w.changed('truncate', path, ino)


def _raw_open(c, file, readable, writable, append, create, trunc, excl):
    w = c.world
    path = w.norm(file)
    w.syscall(c.proc, 'open', '%s %s%s%s%s%s' % (path, 'r' * readable, 'w' * writable, 'a' * append, 'c' * create, 't' * trunc))
    if path in w.dirs:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    ino = w.files.get(path)
    if ino is None:
        if not create:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), file)
        if os.path.dirname(path) not in w.dirs and path.startswith(PREFIX):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), file)
        if w.full:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), file)
        w.next_ino += 1
        ino = w.files[path] = Inode(w.next_ino)
        ino.appended_only = True
        w.changed('create', path, ino)
    elif excl:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), file)
    elif trunc and writable and len(ino.data):
        _truncate(w, path, ino, 0)
    raw = SimRaw(w, c.proc, path, ino, readable, writable, append)
    return raw


def sim_open(c, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = c.world
    if not isinstance(mode, str):
        raise TypeError("open() argument 'mode' must be str")
    m = set(mode)
    if m - set('axrwb+tU') or len(mode) > len(m):
        raise ValueError("invalid mode: '%s'" % mode)
    creating, reading, writing, appending = 'x' in m, 'r' in m, 'w' in m, 'a' in m
    upd, text, binary = '+' in m, 't' in m, 'b' in m
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode takes no encoding, errors or newline argument')
    if isinstance(file, int):
        raw = w.vfds.get(file)
        if raw is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
    else:
        raw = _raw_open(c, file, reading or upd, writing or creating or appending or upd, appending,
                        not reading, writing, creating)
    if appending:
        raw.pos = len(raw.ino.data)
    try:
        line = buffering == 1
        bs = w.knobs['buf'] if buffering < 0 or buffering == 1 else buffering
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if upd:
            buf = io.BufferedRandom(raw, bs)
        elif writing or creating or appending:
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, bs)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


class _TextMeta(type(io.TextIOWrapper)):
    def __instancecheck__(cls, x):
        return isinstance(x, _Real)

    def __subclasscheck__(cls, x):
        return issubclass(x, _Real)


_Real = io.TextIOWrapper


class _Text(io.TextIOWrapper, metaclass=_TextMeta):
    """A text file on a platform with the world's default encoding and line ends."""

    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False):
        c = ctx()
        self._eol = None
        if c is not None:
            if encoding in (None, 'locale'):
                encoding = c.world.knobs['enc']
            if newline is None and c.world.knobs['eol'] != '\n':
                self._eol = c.world.knobs['eol']
        super().__init__(buffer, encoding, errors, newline, line_buffering, write_through)

    def write(self, s):
        if self._eol is not None and isinstance(s, str):
            super().write(s.replace('\n', self._eol))
            return len(s)
        return super().write(s)


# --------------------------------------------------------------------------------------------------
def _wants_write(mode):
    return isinstance(mode, str) and any(x in mode for x in 'wax+')


def _d_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    c = ctx()
    if c is None or opener is not None or file == os.devnull:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file in c.world.vfds:
            return sim_open(c, file, mode, buffering, encoding, errors, newline)
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if c.world.mine(file) or _wants_write(mode):
        return sim_open(c, file, mode, buffering, encoding, errors, newline)
    return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)


class _DFileIOMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (REAL['FileIO'], SimRaw))

    def __subclasscheck__(cls, x):
        return issubclass(x, (REAL['FileIO'], SimRaw))

    def __call__(cls, file, mode='r', closefd=True, opener=None):
        c = ctx()
        if c is None or isinstance(file, int) and file not in c.world.vfds:
            return REAL['FileIO'](file, mode, closefd, opener)
        return _d_open(file, mode.replace('b', '') + 'b', 0)


def _stat_result(w, path):
    if path in w.dirs:
        return os.stat_result((_stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 4096, 0, 0, 0))
    ino = w.files.get(path)
    if ino is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    t = ino.mtime
    return os.stat_result((_stat.S_IFREG | 0o644, ino.ino, 1, 1, 0, 0, len(ino.data), int(t), int(t), int(t)),
                          {'st_mtime': t, 'st_atime': t, 'st_ctime': t, 'st_mtime_ns': int(t * 1e9),
                           'st_atime_ns': int(t * 1e9), 'st_ctime_ns': int(t * 1e9), 'st_blksize': 4096, 'st_blocks': 8})


def _wrap(mod, name, f):
    real = getattr(mod, name)
    REAL['%s.%s' % (mod.__name__, name)] = real

    def g(*a, **k):
        c = ctx()
        if c is None:
            return real(*a, **k)
        return f(c, real, *a, **k)
    g.__name__ = name
    g.__wrapped_real__ = real
    setattr(mod, name, g)
    return g


def _install_os():
    def on_path(fn, kind):
        def f(c, real, path, *a, **k):
            if isinstance(path, int):
                raw = c.world.vfds.get(path) or _by_memfd(c.world, path)
                if raw is None:
                    return real(path, *a, **k)
                path = raw.path
            elif not c.world.mine(path):
                if kind == 'r':
                    return real(path, *a, **k)
                # a change of the real file system: never done, but recorded
            return fn(c, c.world.norm(path), *a, **k)
        return f

    def _by_memfd(w, fd):
        for p in w.procs:
            for h in p.handles:
                if h.memfd == fd:
                    return h
        return None

    def f_stat(c, p, *a, **k):
        c.world.syscall(c.proc, 'stat', p)
        return _stat_result(c.world, p)
    _wrap(os, 'stat', on_path(f_stat, 'r'))
    _wrap(os, 'lstat', on_path(f_stat, 'r'))

    def f_access(c, p, mode, *a, **k):
        c.world.syscall(c.proc, 'stat', p)
        return p in c.world.files or p in c.world.dirs
    _wrap(os, 'access', on_path(f_access, 'r'))

    def f_unlink(c, p, *a, **k):
        c.world.syscall(c.proc, 'unlink', p)
        ino = c.world.files.pop(p, None)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        c.world.changed('delete', p, Inode(0))
    for n in ('unlink', 'remove'):
        _wrap(os, n, on_path(f_unlink, 'w'))

    def f_rename(c, real, a, b, *x, **k):
        w = c.world
        pa, pb = w.norm(a), w.norm(b)
        w.syscall(c.proc, 'rename', '%s %s' % (pa, pb))
        if pa not in w.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), pa)
        ino = w.files.pop(pa)
        w.files[pb] = ino
        w.changed('delete', pa, Inode(0))
        w.changed('rename', pb, ino)
    for n in ('rename', 'replace'):
        _wrap(os, n, f_rename)

    def f_link(c, real, a, b, *x, **k):
        w = c.world
        pa, pb = w.norm(a), w.norm(b)
        w.syscall(c.proc, 'link', '%s %s' % (pa, pb))
        if pa not in w.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), pa)
        w.files[pb] = w.files[pa]
        w.changed('create', pb, w.files[pb])
    _wrap(os, 'link', f_link)
    _wrap(os, 'symlink', f_link)

    def f_trunc(c, p, size):
        c.world.syscall(c.proc, 'truncate', '%s %d' % (p, size))
        ino = c.world.files.get(p)
        if ino is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        _truncate(c.world, p, ino, size)
    _wrap(os, 'truncate', on_path(f_trunc, 'w'))

    def f_mkdir(c, p, *a, **k):
        c.world.syscall(c.proc, 'mkdir', p)
        if p in c.world.dirs or p in c.world.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
        c.world.dirs.add(p)
        c.world.changed('mkdir', p, Inode(0))
    _wrap(os, 'mkdir', on_path(f_mkdir, 'w'))

    def f_rmdir(c, p, *a, **k):
        c.world.syscall(c.proc, 'rmdir', p)
        c.world.dirs.discard(p)
        c.world.changed('rmdir', p, Inode(0))
    _wrap(os, 'rmdir', on_path(f_rmdir, 'w'))

    def f_nop(c, p, *a, **k):
        c.world.touched.setdefault(p, set()).add('attr')
    for n in ('utime', 'chmod', 'chown'):
        _wrap(os, n, on_path(f_nop, 'w'))

    def f_listdir(c, real, path='.'):
        p = c.world.norm(path)
        if p not in c.world.dirs:
            return real(path)
        return sorted({x[len(p):].lstrip('/').split('/')[0] for x in list(c.world.files) + list(c.world.dirs)
                       if x.startswith(p + '/')})
    _wrap(os, 'listdir', f_listdir)

    class Entry:
        def __init__(self, w, d, n):
            self.w, self.name, self.path = w, n, os.path.join(d, n)

        def __fspath__(self):
            return self.path

        def is_file(self, follow_symlinks=True):
            return self.w.norm(self.path) in self.w.files

        def is_dir(self, follow_symlinks=True):
            return self.w.norm(self.path) in self.w.dirs

        def is_symlink(self):
            return False

        def stat(self, follow_symlinks=True):
            return _stat_result(self.w, self.w.norm(self.path))

    class Scan(list):
        def __enter__(self):
            return iter(self)

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def f_scandir(c, real, path='.'):
        if c.world.norm(path) not in c.world.dirs:
            return real(path)
        return Scan(Entry(c.world, path, n) for n in os.listdir(path))
    _wrap(os, 'scandir', f_scandir)
    _wrap(os, 'getcwd', lambda c, real: PREFIX)
    _wrap(os, 'getpid', lambda c, real: c.proc.pid)
    _wrap(os, 'urandom', lambda c, real, n: c.world.rnd.randbytes(n))

    # file descriptors
    def f_open(c, real, path, flags, mode=0o777, **k):
        w = c.world
        acc = flags & (os.O_WRONLY | os.O_RDWR)
        wr = bool(acc) or flags & (os.O_CREAT | os.O_TRUNC)
        if not w.mine(path) and not wr:
            return real(path, flags, mode, **k)
        raw = _raw_open(c, path, acc != os.O_WRONLY, bool(acc), bool(flags & os.O_APPEND), bool(flags & os.O_CREAT),
                        bool(flags & os.O_TRUNC), bool(flags & os.O_EXCL) and bool(flags & os.O_CREAT))
        raw.vfd = 100000 + len(w.vfds) + raw.ino.ino * 100
        while raw.vfd in w.vfds:
            raw.vfd += 1
        w.vfds[raw.vfd] = raw
        return raw.vfd
    _wrap(os, 'open', f_open)

    def on_fd(fn):
        def f(c, real, fd, *a, **k):
            raw = c.world.vfds.get(fd) if isinstance(fd, int) else None
            if raw is None and isinstance(fd, int):
                raw = _by_memfd(c.world, fd)
                if raw is not None and fn.__name__ in ('f_close',):
                    return real(fd)
            if raw is None:
                return real(fd, *a, **k)
            return fn(raw, *a, **k)
        return f

    def f_write(raw, data):
        return raw.write(data)

    def f_read(raw, n):
        return raw.read(n)

    def f_close(raw):
        return raw.close()

    def f_lseek(raw, off, how):
        return raw.seek(off, how)

    def f_fstat(raw):
        return _stat_result_ino(raw)

    def _stat_result_ino(raw):
        t = raw.ino.mtime
        return os.stat_result((_stat.S_IFREG | 0o644, raw.ino.ino, 1, 1, 0, 0, len(raw.ino.data), int(t), int(t), int(t)))

    def f_fsync(raw):
        raw.w.syscall(raw.proc, 'fsync', raw.path)
        raw.ino.durable, raw.ino.appended_only = bytes(raw.ino.data), True

    def f_ftruncate(raw, size):
        return raw.truncate(size)
    for n, f in (('write', f_write), ('read', f_read), ('close', f_close), ('lseek', f_lseek), ('fstat', f_fstat),
                 ('fsync', f_fsync), ('fdatasync', f_fsync), ('ftruncate', f_ftruncate)):
        _wrap(os, n, on_fd(f))


def _install_time():
    def t_time(c, real):
        return c.world.clock()
    _wrap(_time, 'time', t_time)
    _wrap(_time, 'time_ns', lambda c, real: int(c.world.clock() * 1e9))

    def t_struct(c, real, secs=None):
        return real(c.world.clock() if secs is None else secs)
    for n in ('localtime', 'gmtime', 'ctime'):
        _wrap(_time, n, t_struct)

    def t_fmt(c, real, fmt, t=None):
        return real(fmt, REAL['time.localtime'](c.world.clock()) if t is None else t)
    _wrap(_time, 'strftime', t_fmt)
    _wrap(_time, 'asctime', lambda c, real, t=None: real(REAL['time.localtime'](c.world.clock()) if t is None else t))

    def t_mono(c, real):
        c.world.clock()
        return c.world.mono
    for n in ('monotonic', 'perf_counter', 'process_time'):
        _wrap(_time, n, t_mono)

    def t_sleep(c, real, s):
        if c.world.sched is not None:
            c.world.sched.point()
        c.world.event('sleep', '%g' % s)
        c.world.advance(s)
    _wrap(_time, 'sleep', t_sleep)
    RealDT, RealD = _datetime.datetime, _datetime.date
    REAL['datetime'] = RealDT

    class MetaDT(type(RealDT)):
        def __instancecheck__(cls, x):
            return isinstance(x, RealDT)

    class datetime(RealDT, metaclass=MetaDT):
        @classmethod
        def now(cls, tz=None):
            c = ctx()
            return RealDT.now(tz) if c is None else RealDT.fromtimestamp(c.world.clock(), tz)

        @classmethod
        def today(cls):
            c = ctx()
            return RealDT.today() if c is None else RealDT.fromtimestamp(c.world.clock())

        @classmethod
        def utcnow(cls):
            c = ctx()
            t = REAL['time.time']() if c is None else c.world.clock()
            return RealDT.fromtimestamp(t, _datetime.timezone.utc).replace(tzinfo=None)

    class MetaD(type(RealD)):
        def __instancecheck__(cls, x):
            return isinstance(x, RealD)

    class date(RealD, metaclass=MetaD):
        @classmethod
        def today(cls):
            c = ctx()
            return RealD.today() if c is None else RealD.fromtimestamp(c.world.clock())
    _datetime.datetime, _datetime.date = datetime, date


class SimLock:
    """A lock of the code under test: waiting for it is the scheduler's business."""

    def __init__(self, reentrant):
        self.re, self.owner, self.n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        c = ctx()
        me = (c.proc, c.thread) if c else None
        spins = 0
        while self.owner is not None and not (self.re and self.owner == me):
            s = c.world.sched if c else None
            if not blocking:
                return False
            spins += 1
            if s is None or spins > 10000:
                raise HarnessError('deadlock in the code under test')
            s.block()
        self.owner = me or (None, -1)
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _install_threading():
    _wrap(threading, 'Lock', lambda c, real: SimLock(False))
    _wrap(threading, 'RLock', lambda c, real: SimLock(True))


class Sched:
    """One thread runs at a time; who does is decided at every scheduling point.

    switches: {point number: thread} to follow, or None to draw them from rnd (and record them)."""

    def __init__(self, world, n, switches=None, rnd=None, p=0.1):
        self.w, self.n = world, n
        self.given = None if switches is None else {int(k): v for k, v in switches}
        self.rnd, self.p = rnd, p
        self.taken = []
        self.count = 0
        self.cur = 0
        self.alive = [True] * n
        self.sem = [REAL['threading.Lock']() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.main = REAL['threading.Lock']()
        self.main.acquire()
        self.order_crc = 0
        self.busy = False
        self.failed = []

    def _to(self, t):
        me, self.cur = self.cur, t
        self.order_crc = zlib.crc32(b'%d:%d' % (self.count, t), self.order_crc)
        self.sem[t].release()
        self.sem[me].acquire()

    def others(self):
        return [i for i in range(self.n) if self.alive[i] and i != self.cur]

    def point(self):
        c = ctx()
        if c is None or self.busy:
            return
        self.count += 1
        t = None
        if self.given is not None:
            t = self.given.get(self.count)
            if t is not None and (t == self.cur or t >= self.n or not self.alive[t]):
                t = None
        elif self.rnd.random() < self.p:
            o = self.others()
            if o:
                t = self.rnd.choice(o)
        if t is not None:
            self.taken.append([self.count, t])
            self._to(t)

    def block(self):
        """The current thread cannot go on: let another one run."""
        o = self.others()
        if not o:
            raise HarnessError('deadlock in the code under test')
        # round robin, not part of the schedule
        nxt = min([i for i in o if i > self.cur] or o)
        self._to(nxt)

    def run(self, fns):
        """Runs the functions as threads, the first one first; returns when all are done."""
        def body(i):
            self.sem[i].acquire()
            try:
                fns[i]()
            except BaseException as e:      # noqa
                self.failed.append((i, e))
            self.alive[i] = False
            rest = [j for j in range(self.n) if self.alive[j]]
            if rest:
                self.count += 1
                t = rest[0]
                if self.given is not None:
                    if self.given.get(self.count) in rest:
                        t = self.given[self.count]
                elif self.rnd is not None:
                    t = self.rnd.choice(rest)
                    if t != rest[0]:
                        self.taken.append([self.count, t])
                self.cur = t
                self.order_crc = zlib.crc32(b'%d:end:%d' % (self.count, t), self.order_crc)
                self.sem[t].release()
            else:
                self.main.release()
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.sem[0].release()
        self.main.acquire()
        for t in ths:
            t.join()


bypass = []         # accesses to the simulated disk that went around the simulator


def install():
    if REAL:
        return
    REAL['open'] = builtins.open
    REAL['FileIO'] = io.FileIO
    builtins.open = _d_open
    io.open = _d_open
    io.FileIO = _DFileIOMeta('FileIO', (), {})
    io.TextIOWrapper = _Text
    _install_os()
    _install_time()
    _install_threading()
    import tempfile
    tempfile.tempdir = '/tmp'
    sys.unraisablehook = lambda u: None

    def audit(ev, args):
        if ev in ('open', 'os.remove', 'os.rename', 'os.mkdir', 'os.truncate', 'os.listdir', 'os.rmdir', 'os.utime') and args:
            for p in args[:2]:
                if isinstance(p, (str, bytes)) and os.fsdecode(p).startswith(PREFIX) and _tl_in_op():
                    bypass.append((ev, os.fsdecode(p)))
    sys.addaudithook(audit)


def _tl_in_op():
    return getattr(_tl, 'ctx', None) is not None
