"""The seams: everything through which Python code meets the outside world.

`install()` must run before tempfile, shutil, pathlib and md_toc are imported.
While no world is active (`W is None`) all wrappers pass straight through.
While one is active every path is a path of the simulated file system, except
for a few read-only prefixes the interpreter itself needs; attempts to modify
something below those are refused and recorded.
"""
import builtins
import errno
import io
import os
import time

from . import vfs as V

W = None  # the active world

REAL_RO = ('/repo', '/verif', '/opt', '/usr', '/lib', '/lib64', '/bin',
           '/proc', '/dev', '/sys', '/etc')
real = {}
real_open = io.open
real_FileIO = io.FileIO


class Stall(BaseException):
    """The step budget is used up."""


class SimKill(BaseException):
    """The simulated process is dead."""


def is_real(path):
    if isinstance(path, int):
        return path < V.FD_BASE
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith('/'):
        return False
    top = '/' + path.lstrip('/').split('/', 1)[0]
    return top in REAL_RO


def _escape(what, path):
    W.escapes.append('%s %s' % (what, path))
    raise V.oserr(errno.EROFS, path)


def _wrap(name, simulated, paths=1, writes=False):
    """Replace os.<name>; the first `paths` arguments decide who serves it."""
    fn = getattr(os, name, None)
    if fn is None:
        return
    real[name] = fn

    def wrapper(*a, **k):
        if W is None:
            return fn(*a, **k)
        if a and all(is_real(x) for x in a[:paths]):
            dfd = k.get('dir_fd')
            if not (isinstance(dfd, int) and dfd >= V.FD_BASE):
                if writes and not (isinstance(a[0], int)):
                    _escape(name, a[0])
                return fn(*a, **k)
        return simulated(*a, **k)

    wrapper.__name__ = name
    wrapper.__qualname__ = name
    for group in (os.supports_dir_fd, os.supports_fd,
                  os.supports_follow_symlinks, os.supports_effective_ids,
                  os.supports_bytes_environ
                  if isinstance(os.supports_bytes_environ, set) else set()):
        if fn in group:
            group.add(wrapper)
    setattr(os, name, wrapper)


class SimRaw(io.RawIOBase):
    """An unbuffered file of the simulated file system (like io.FileIO)."""

    def __init__(self, file, mode='r', closefd=True, opener=None):
        self._fd = -1
        self._closefd = closefd
        self._w = W
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[mode[0]]
        if '+' in mode:
            flags = (flags & ~V.O_ACC) | os.O_RDWR
        flags |= os.O_CLOEXEC
        self._r = mode[0] == 'r' or '+' in mode
        self._wr = mode[0] != 'r' or '+' in mode
        self.name = file
        if isinstance(file, int):
            self._fd = file
            self._w.vfs._of(file)
        elif opener is not None:
            self._fd = opener(file, flags)
            if self._fd < 0:
                raise ValueError('opener returned %d' % self._fd)
        else:
            self._fd = os.open(file, flags, 0o666)
        if self._w.vfs._of(self._fd).inode.kind == 'd':
            if self._closefd and not isinstance(file, int):
                self._w.vfs.fds.pop(self._fd, None)
            self._fd = -1
            raise V.oserr(errno.EISDIR, file)
        if mode[0] == 'a':
            self._w.vfs.lseek(self._fd, 0, 2)
        self._mode = mode

    @property
    def mode(self):
        m = self._mode[0]
        if m == 'r':
            return 'rb+' if '+' in self._mode else 'rb'
        return m + 'b' + ('+' if '+' in self._mode else '')

    @property
    def closefd(self):
        return self._closefd

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        self._check()
        return False

    def readable(self):
        self._check()
        return self._r

    def writable(self):
        self._check()
        return self._wr

    def seekable(self):
        self._check()
        return True

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation('File not open for reading')
        m = memoryview(b).cast('B')
        data = self._w.vfs.read(self._fd, len(m))
        m[:len(data)] = data
        return len(data)

    def readall(self):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation('File not open for reading')
        out = bytearray()
        while True:
            of = self._w.vfs._of(self._fd)
            n = max(len(of.inode.data) - of.pos, 0) + 1
            data = self._w.vfs.read(self._fd, n)
            if not data:
                return bytes(out)
            out += data

    def read(self, n=-1):
        self._check()
        if n is None or n < 0:
            return self.readall()
        if not self._r:
            raise io.UnsupportedOperation('File not open for reading')
        return self._w.vfs.read(self._fd, n)

    def write(self, b):
        self._check()
        if not self._wr:
            raise io.UnsupportedOperation('File not open for writing')
        with memoryview(b) as m:
            return self._w.vfs.write(self._fd, m.cast('B'))

    def seek(self, off, how=0):
        self._check()
        return self._w.vfs.lseek(self._fd, off, how)

    def tell(self):
        self._check()
        return self._w.vfs.lseek(self._fd, 0, 1)

    def truncate(self, n=None):
        self._check()
        if n is None:
            n = self.tell()
        self._w.vfs.ftruncate(self._fd, n)
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fd, self._fd = self._fd, -1
                if self._closefd and fd >= 0 and fd in self._w.vfs.fds:
                    self._w.vfs.close(fd)

    def __repr__(self):
        return '<sim file %r>' % (self.name, )


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if W is None:
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    if not isinstance(file, (str, bytes, int)):
        raise TypeError('invalid file: %r' % file)
    if opener is None and is_real(file):
        if isinstance(file, int) and file in (0, 1, 2):
            return W.std_open(file, mode, buffering, encoding, errors,
                              newline, closefd)
        if not isinstance(file, int) and (set(mode) & set('wxa+')
                                          ) and file != '/dev/null':
            _escape('open', file)
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd)
    if not isinstance(mode, str):
        raise TypeError('invalid mode: %r' % (mode, ))
    m = set(mode)
    if m - set('axrwb+t') or len(mode) > len(m):
        raise ValueError('invalid mode: %r' % mode)
    text, binary = 't' in m, 'b' in m
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if len(m & set('axrw')) != 1:
        raise ValueError(
            'must have exactly one of create/read/write/append mode')
    if binary and (encoding is not None or errors is not None
                   or newline is not None):
        raise ValueError('binary mode takes no text arguments')
    kind = (m & set('axrw')).pop()
    raw = SimRaw(file, kind + ('+' if '+' in m else ''), closefd, opener)
    result = raw
    try:
        if buffering == 1 and binary:
            buffering = -1
        line_buffering = buffering == 1
        if buffering < 0 or buffering == 1:
            buffering = W.bufsize
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if '+' in m:
            buf = io.BufferedRandom(raw, buffering)
        elif kind == 'r':
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        result = buf
        if binary:
            return result
        if encoding is None:
            encoding = 'utf-8'
        txt = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        result = txt
        txt._CHUNK_SIZE = W.chunk
        txt.mode = mode
        return result
    except BaseException:
        result.close()
        raise


class _FileIOMeta(type):

    def __instancecheck__(cls, obj):
        return isinstance(obj, (real_FileIO, SimRaw))

    def __call__(cls, file, mode='r', closefd=True, opener=None):
        if W is None or (opener is None and is_real(file)):
            return real_FileIO(file, mode, closefd, opener)
        return SimRaw(file, mode.replace('b', '').replace('t', ''), closefd,
                      opener)


class SimFileIO(metaclass=_FileIOMeta):
    pass


class DirEntry:
    __slots__ = ('name', 'path', '_node', '_dfd')

    def __init__(self, name, path, node, dfd):
        self.name, self.path, self._node, self._dfd = name, path, node, dfd

    def inode(self):
        return self._node.ino

    def _follow(self, follow):
        if not follow or self._node.kind != 'l':
            return self._node
        try:
            return W.vfs._find(self.path, True)[2]
        except OSError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        n = self._follow(follow_symlinks)
        return n is not None and n.kind == 'd'

    def is_file(self, *, follow_symlinks=True):
        n = self._follow(follow_symlinks)
        return n is not None and n.kind == 'f'

    def is_symlink(self):
        return self._node.kind == 'l'

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        n = self._follow(follow_symlinks)
        if n is None:
            raise V.oserr(errno.ENOENT, self.path)
        return W.vfs._stat(n)

    def __fspath__(self):
        return self.path


class ScanDir:

    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._it = iter(())

    def close(self):
        self._it = iter(())


def standard(v):
    """Calls on the descriptors 0, 1 and 2, which stay inside as well."""

    def std(name, fn2):
        fn = getattr(os, name)

        def wrapper(fd, *a, **k):
            if W is not None and isinstance(fd, int) and 0 <= fd <= 2:
                return fn2(fd, *a, **k)
            return fn(fd, *a, **k)

        wrapper.__name__ = name
        setattr(os, name, wrapper)

    def read(fd, n):
        b = bytearray(n)
        return bytes(b[:W.raw(fd).readinto(b)])

    std('read', read)
    std('write', lambda fd, b: W.raw(fd).write(b))
    std('close', lambda fd: W.redirected.__setitem__(fd, 'closed'))
    std('fsync', lambda fd: None)
    std('isatty', lambda fd: False)

    def dup(fd):
        raise V.oserr(errno.EMFILE)

    std('dup', dup)
    real_dup2 = os.dup2

    def dup2(fd, fd2, inheritable=True):
        if W is None:
            return real_dup2(fd, fd2, inheritable)
        if 0 <= fd2 <= 2:
            # /dev/null, or a file of the simulated world
            W.redirected[fd2] = 'null' if 2 < fd < V.FD_BASE else fd
            return fd2
        raise V.oserr(errno.EBADF)

    os.dup2 = dup2


def install():
    def v():
        return W.vfs

    def s_open(path, flags, mode=0o777, *, dir_fd=None):
        return v().open(path, flags, mode, dir_fd)

    fn_open = os.open

    def open_wrapper(path, flags, mode=0o777, *, dir_fd=None):
        if W is None:
            return fn_open(path, flags, mode, dir_fd=dir_fd)
        if is_real(path) and not (isinstance(dir_fd, int)
                                  and dir_fd >= V.FD_BASE):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                        | os.O_TRUNC) and path != '/dev/null':
                _escape('open', path)
            return fn_open(path, flags, mode, dir_fd=dir_fd)
        return s_open(path, flags, mode, dir_fd=dir_fd)

    real['open'] = fn_open
    os.supports_dir_fd.add(open_wrapper)
    os.open = open_wrapper

    def s_stat(path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return v().fstat(path)
        return v().stat(path, follow_symlinks, dir_fd)

    _wrap('stat', s_stat)
    _wrap('lstat', lambda path, *, dir_fd=None: v().stat(path, False, dir_fd))
    _wrap('fstat', lambda fd: v().fstat(fd))
    _wrap('close', lambda fd: v().close(fd))
    _wrap('read', lambda fd, n: v().read(fd, n))
    _wrap('write', lambda fd, b: v().write(fd, b))
    _wrap('pread', lambda fd, n, off: v().read(fd, n, off))
    _wrap('pwrite', lambda fd, b, off: v().write(fd, b, off))

    def s_readv(fd, bufs):
        total = 0
        for b in bufs:
            m = memoryview(b).cast('B')
            d = v().read(fd, len(m))
            m[:len(d)] = d
            total += len(d)
            if len(d) < len(m):
                break
        return total

    _wrap('readv', s_readv)
    _wrap('writev',
          lambda fd, bufs: v().write(fd, b''.join(bytes(b) for b in bufs)))
    _wrap('lseek', lambda fd, off, how: v().lseek(fd, off, how))
    _wrap('fsync', lambda fd: v().fsync(
        fd if isinstance(fd, int) else fd.fileno()))
    _wrap('fdatasync', lambda fd: v().fsync(
        fd if isinstance(fd, int) else fd.fileno()))
    real_sync = os.sync
    os.sync = lambda: real_sync() if W is None else v().sync()
    _wrap('ftruncate', lambda fd, n: v().ftruncate(fd, n), writes=True)
    _wrap('truncate',
          lambda p, n: v().ftruncate(p, n)
          if isinstance(p, int) else v().truncate(p, n), writes=True)

    def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return v().fchmod(path, mode)
        return v().chmod(path, mode, follow_symlinks, dir_fd)

    _wrap('chmod', s_chmod, writes=True)
    _wrap('fchmod', lambda fd, mode: v().fchmod(fd, mode), writes=True)

    def s_chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return v().fchown(path, uid, gid)
        return v().chown(path, uid, gid, follow_symlinks, dir_fd)

    _wrap('chown', s_chown, writes=True)
    _wrap('lchown', lambda p, u, g: v().chown(p, u, g, False), writes=True)
    _wrap('fchown', lambda fd, u, g: v().fchown(fd, u, g), writes=True)

    def s_utime(path, times=None, *, ns=None, dir_fd=None,
                follow_symlinks=True):
        if ns is None:
            if times is None:
                t = W.now()
                ns = (t, t)
            else:
                ns = tuple(int(x * 10**9) for x in times)
        v().utime(path, ns, follow_symlinks)

    _wrap('utime', s_utime, writes=True)

    def s_rename(a, b, *, src_dir_fd=None, dst_dir_fd=None):
        if is_real(a) or is_real(b):
            _escape('rename', '%s -> %s' % (a, b))
        v().rename(a, b, src_dir_fd, dst_dir_fd)

    _wrap('rename', s_rename, 2, True)
    _wrap('replace', s_rename, 2, True)

    def s_link(a, b, *, src_dir_fd=None, dst_dir_fd=None,
               follow_symlinks=True):
        if is_real(a) or is_real(b):
            _escape('link', '%s -> %s' % (a, b))
        v().link(a, b, src_dir_fd, dst_dir_fd, False)

    _wrap('link', s_link, 2, True)

    fn_symlink = os.symlink

    def s_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        if W is None:
            return fn_symlink(src, dst, target_is_directory, dir_fd=dir_fd)
        if is_real(dst):
            _escape('symlink', dst)
        v().symlink(src, dst, dir_fd)

    os.supports_dir_fd.add(s_symlink)
    os.symlink = s_symlink
    _wrap('readlink', lambda p, *, dir_fd=None: v().readlink(p, dir_fd))
    _wrap('unlink', lambda p, *, dir_fd=None: v().unlink(p, dir_fd),
          writes=True)
    _wrap('remove', lambda p, *, dir_fd=None: v().unlink(p, dir_fd),
          writes=True)
    _wrap('mkdir',
          lambda p, mode=0o777, *, dir_fd=None: v().mkdir(p, mode, dir_fd),
          writes=True)
    _wrap('rmdir', lambda p, *, dir_fd=None: v().rmdir(p, dir_fd), writes=True)

    def _nopath(name):
        # these take an optional path
        fn = getattr(os, name)

        def wrapper(path='.'):
            if W is None or (path is not None and is_real(path)):
                return fn(path)
            if path is None:
                path = '.'
            items = v().listdir(path)
            names = [n for n, _ in items]
            if name == 'listdir':
                if isinstance(path, bytes):
                    return [os.fsencode(n) for n in names]
                return names
            if isinstance(path, int):
                return ScanDir([DirEntry(n, n, i, path) for n, i in items])
            p = os.fspath(path)
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            return ScanDir(
                [DirEntry(n, os.path.join(p, n), i, None) for n, i in items])

        wrapper.__name__ = name
        if fn in os.supports_fd:
            os.supports_fd.add(wrapper)
        setattr(os, name, wrapper)

    _nopath('listdir')
    _nopath('scandir')

    def s_access(path, mode, *, dir_fd=None, effective_ids=False,
                 follow_symlinks=True):
        return v().access(path, mode, follow_symlinks, dir_fd)

    _wrap('access', s_access)
    real_getcwd, real_chdir = os.getcwd, os.chdir
    os.getcwd = lambda: real_getcwd() if W is None else v().cwd
    real_getcwdb = os.getcwdb
    os.getcwdb = lambda: real_getcwdb() if W is None else os.fsencode(v().cwd)
    os.chdir = lambda p: real_chdir(p) if W is None else v().chdir(p)
    real_fchdir = os.fchdir
    os.fchdir = lambda p: real_fchdir(p) if W is None else v().chdir(p)
    real_umask = os.umask

    def umask(m):
        if W is None:
            return real_umask(m)
        old, v().umask = v().umask, m
        return old

    os.umask = umask
    _wrap('dup', lambda fd: v().dup(fd))
    standard(v)
    _wrap('isatty', lambda fd: False)
    _wrap('get_inheritable', lambda fd: False)
    _wrap('set_inheritable', lambda fd, x: None)
    _wrap('get_blocking', lambda fd: True)
    _wrap('set_blocking', lambda fd, x: None)
    _wrap('posix_fadvise', lambda *a: None)
    _wrap('posix_fallocate', lambda *a: None)
    _wrap('lockf', lambda *a: None)

    def s_fdopen(fd, mode='r', buffering=-1, encoding=None, *a, **k):
        if not isinstance(fd, int):
            raise TypeError('invalid fd type')
        return io.open(fd, mode, buffering, encoding, *a, **k)

    os.fdopen = s_fdopen

    def s_sendfile(out, in_, offset, count):
        if offset is None:
            data = v().read(in_, min(count, 1 << 20))
        else:
            data = v().read(in_, min(count, 1 << 20), offset)
        if not data:
            return 0
        return v().write(out, data)

    real['sendfile'] = os.sendfile
    real_sendfile = os.sendfile
    os.sendfile = lambda *a, **k: real_sendfile(
        *a, **k) if W is None else s_sendfile(*a, **k)

    def s_cfr(src, dst, count, offset_src=None, offset_dst=None):
        data = v().read(src, count, offset_src)
        return v().write(dst, data, offset_dst) if data else 0

    _wrap('copy_file_range', s_cfr)

    def enotsup(*a, **k):
        raise V.oserr(errno.ENOTSUP)

    _wrap('listxattr', lambda *a, **k: [])
    _wrap('getxattr', enotsup)
    _wrap('setxattr', enotsup)
    _wrap('removexattr', enotsup)

    def s_statvfs(path):
        return os.statvfs_result((4096, 4096, 10**6, 10**6, 10**6, 10**6,
                                  10**6, 10**6, 0, 255))

    _wrap('statvfs', s_statvfs)

    # processes: nothing may leave the simulation
    for name in ('fork', 'forkpty', 'system', 'execv', 'execve', 'posix_spawn',
                 'posix_spawnp', 'popen', 'kill', 'killpg', 'mkfifo', 'mknod',
                 'chroot'):
        fn = getattr(os, name, None)
        if fn is None:
            continue

        def blocked(*a, _fn=fn, _n=name, **k):
            if W is None:
                return _fn(*a, **k)
            W.escapes.append(_n)
            raise V.oserr(errno.EPERM)

        real[name] = fn
        setattr(os, name, blocked)

    # identity, time and randomness
    real_getpid, real_urandom = os.getpid, os.urandom
    os.getpid = lambda: real_getpid() if W is None else W.pid
    os.urandom = lambda n: real_urandom(n) if W is None else W.rnd.randbytes(n)
    for name, scale in (('time', 1e-9), ('monotonic', 1e-9),
                        ('perf_counter', 1e-9), ('process_time', 1e-9),
                        ('time_ns', 0), ('monotonic_ns', 0),
                        ('perf_counter_ns', 0)):
        fn = getattr(time, name)

        def clock(_fn=fn, _s=scale):
            if W is None:
                return _fn()
            t = W.now()
            return t * _s if _s else t

        real['time.' + name] = fn
        setattr(time, name, clock)
    real_sleep = time.sleep

    def sleep(s):
        if W is None:
            return real_sleep(s)
        W.sleep(s)

    time.sleep = sleep

    io.open = sim_open
    io.FileIO = SimFileIO
    builtins.open = sim_open
    import fcntl
    for name in ('flock', 'lockf', 'fcntl', 'ioctl'):
        fn = getattr(fcntl, name)

        def locked(fd, *a, _fn=fn, **k):
            n = fd if isinstance(fd, int) else fd.fileno()
            return _fn(fd, *a, **k) if n < V.FD_BASE else 0

        setattr(fcntl, name, locked)
