"""A simulated machine: file system, clock, processes, standard streams, faults.

One `World` is one machine.  Simulated processes (CLI runs or a program that
calls the API) run in it one after the other, or, with `Sched`, as threads of
which exactly one runs at a time.  Every choice is data of the scenario.
"""
from . import seam

seam.install()  # before the modules below bring in tempfile, shutil, pathlib

import errno  # noqa: E402
import gc
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import pickle
import random
import signal
import sys
import _thread

from . import vfs as V
from .seam import SimKill, Stall

REALSTD = (sys.stdin, sys.stdout, sys.stderr)
START = 1_700_000_000_000_000_000

# errors a real system gives, by kind of system call
ERRNOS = {
    'open': ('EIO', 'EMFILE', 'ENFILE', 'EACCES', 'ENOMEM'),
    'creat': ('ENOSPC', 'EMFILE', 'EACCES', 'EIO', 'EDQUOT', 'ENOENT'),
    'read': ('EIO', 'ESTALE'),
    'write': ('ENOSPC', 'EIO', 'EDQUOT'),
    'fsync': ('EIO', 'ENOSPC'),
    'close': ('EIO', 'ENOSPC'),
    'rename': ('EIO', 'ENOSPC', 'EACCES', 'ENOENT'),
    'unlink': ('EIO', 'EACCES'),
    'chmod': ('EPERM', 'EIO'),
    'mkdir': ('ENOSPC', 'EACCES', 'EIO'),
    'rmdir': ('EIO', 'EBUSY'),
    'listdir': ('EIO', ),
    'truncate': ('EIO', ),
    'link': ('EPERM', 'EIO'),
    'symlink': ('EACCES', 'EIO'),
}
STDERRNOS = {
    ('write', '<stdout>'): ('EPIPE', 'ENOSPC', 'EIO'),
    ('read', '<stdin>'): ('EIO', ),
}
TICK = {
    'read': 60_000,
    'write': 90_000,
    'fsync': 4_000_000,
    'rename': 120_000,
}


class StdRaw(io.RawIOBase):

    def __init__(self, world, fd):
        self._w, self._n, self._p = world, fd, world.pid

    def readable(self):
        return self._n == 0

    def writable(self):
        return self._n != 0

    def seekable(self):
        return False

    def isatty(self):
        return False

    def fileno(self):
        return self._n

    def readinto(self, b):
        m = memoryview(b).cast('B')
        w = self._w
        if self._n in w.redirected:
            return 0
        d = w.gate('read', '<stdin>', None, len(m))
        n = len(m)
        if d and d[0] == 'cap':
            n = min(n, max(1, d[1]))
        if w.stdin_cuts:
            n = min(n, w.stdin_cuts[w.stdin_reads % len(w.stdin_cuts)])
        w.stdin_reads += 1
        data = w.stdin_data[w.stdin_pos:w.stdin_pos + n]
        w.stdin_pos += len(data)
        m[:len(data)] = data
        return len(data)

    def write(self, b):
        data = bytes(b)
        w = self._w
        if w.pid != self._p:
            return len(data)  # buffer of a process that has ended
        to = w.redirected.get(self._n)
        if to == 'null':
            return len(data)
        if to == 'closed':
            raise V.oserr(errno.EBADF)
        if to is not None:
            return w.raw(to).write(b) if to <= 2 else w.vfs.write(to, data)
        if self._n == 2:
            if w.spec.get('stderr') == 'full':
                raise V.oserr(errno.ENOSPC)
            if not w.dead:
                w.err += data
            return len(data)
        d = w.gate('write', '<stdout>', None, len(data))
        if w.pipe_broken:
            w.broken_pipe()
        if d and d[0] == 'cap':
            data = data[:max(1, d[1])]
        elif d and d[0] == 'torn':
            w.out += data[:d[1]]
            if w.pipe_broken:
                w.broken_pipe()
            raise d[2]
        w.out += data
        return len(data)


class World:

    def __init__(self, spec):
        spec = spec or {}
        self.spec = spec
        self.vfs = v = V.VFS()
        self.clock_ns = START + int(spec.get('clock', 0)) * 10**9
        self.pid = 1000 + int(spec.get('pid', 0))
        v.clock = lambda: self.clock_ns
        v.creator = self.call_site
        v.mkdirs('/tmp', 0o777, dev=2 if spec.get('tmpdev') else None)
        v.mkdirs('/var/tmp', 0o777)
        v.mkdirs('/home/u')
        v.mkdirs('/w')
        v.cwd = '/w'
        v.umask = spec.get('umask', 0o022)
        v.fd_limit = spec.get('fd_limit', 1024)
        for f in spec.get('files', ()):
            v.put(self.path(f['path']), tobytes(f), f.get('mode', 0o644),
                  f.get('owner'))
        for name, target in spec.get('links', ()):
            v.put_link(self.path(name), target)
        for name, other in spec.get('hard', ()):
            v.put_hard(self.path(name), self.path(other))
        for d in spec.get('dirs', ()):
            v.mkdirs(self.path(d))
        v.seal()
        v.gate = self.gate
        self.bufsize = spec.get('buf', 8192)
        self.chunk = spec.get('chunk', 8192)
        self.rnd = random.Random(spec.get('entropy', 0))
        self.escapes = []
        self.dead = False
        self.observers = []
        self.sched = None
        self.log = hashlib.sha1()
        self.events = 0
        self.trace = None
        self.ops = 0
        self.armed = {}
        self.fired = []
        self.raised = set()
        self.struck = set()
        self.lines = 0
        self.line_faults = {}
        self.jumps = 0
        self.jump_limit = None
        self.syscalls = 0
        self.syscall_limit = None
        self.out = bytearray()
        self.redirected, self.pipe_broken = {}, None
        self.err = bytearray()
        self.stdin_data = b''
        self.stdin_pos = 0
        self.stdin_reads = 0
        self.stdin_cuts = None
        self.md = None
        self.loading = False
        self.opkinds = None
        self.saved_rofs = False
        self.power = False
        self.power_sel = 0
        self.stuck = []

    @staticmethod
    def path(p):
        return p if p.startswith('/') else '/w/' + p

    def now(self):
        self.clock_ns += 1000
        return self.clock_ns

    def sleep(self, s):
        self.clock_ns += int(s * 1e9)
        if self.sched:
            self.sched.point('sleep')

    def call_site(self):
        """Who creates a file: the innermost frame outside of libraries."""
        f = sys._getframe(2)
        names = []
        while f is not None:
            m = f.f_globals.get('__name__', '')
            if m.startswith(('md_toc', 'fpyutils')):
                names.append(m + '.' + f.f_code.co_name)
            f = f.f_back
        return names[0] if names else ''

    # -- the gate every system call passes ---------------------------------

    def gate(self, kind, path, inode, n):
        if self.dead:
            raise SimKill
        self.syscalls += 1
        self.clock_ns += TICK.get(kind, 20_000)
        if self.syscall_limit is not None and \
                self.syscalls > self.syscall_limit:
            raise Stall('more than %d system calls' % self.syscall_limit)
        for ob in self.observers:
            ob(kind, path, n)
        if self.sched:
            self.sched.point(kind)
            if self.dead:
                raise SimKill
        self.log.update(('%s %s %d\n' % (kind, path, n)).encode(
            'utf-8', 'backslashreplace'))
        self.events += 1
        if self.trace is not None:
            self.trace.append('%s %s%s' % (kind, path, ' %d' % n if n else ''))
        if kind not in ERRNOS:
            return None
        self.ops += 1
        if self.opkinds is not None:
            self.opkinds.append((kind, path, n))
        for k, where, num in self.stuck:
            if k == kind and path.startswith(where) and not (
                    inode is not None and inode.kind == 'd'
                    and kind == 'open'):
                self.mark(kind, inode)
                raise V.oserr(num, path)
        fault = self.armed.get(self.ops)
        if fault is None:
            return None
        return self.fire(fault, kind, path, inode, n)

    def fire(self, fault, kind, path, inode, n):
        fk, sel = fault['kind'], fault.get('sel', 0)
        dev = inode.dev if inode is not None else 1
        if fk == 'err':
            names = STDERRNOS.get((kind, path), ERRNOS[kind])
            num = names[sel % len(names)]
            self.note('err:%s:%s' % (kind, num))
            self.mark(kind, inode)
            e = V.oserr(getattr(errno, num), path)
            if (num == 'EPIPE' or num == 'ENOSPC' and sel % 4) and \
                    path == '<stdout>':
                self.pipe_broken = e  # it stays so
            if kind == 'write' and n > 1 and sel % 2:
                return ('torn', 1 + sel % (n - 1), e)
            raise e
        if fk == 'stay':
            # fails from now on, here or everywhere
            names = STDERRNOS.get((kind, path), ERRNOS[kind])
            num = names[sel % len(names)]
            self.note('stay:%s:%s' % (kind, num))
            self.mark(kind, inode)
            where = path if path[0] == '<' else '' if sel % 3 == 0 else \
                path.rsplit('/', 1)[0]
            # (tempfile.TemporaryDirectory recurses until the interpreter's
            # limit if it can never remove what it made)
            if kind not in ('unlink', 'rmdir', 'listdir', 'chmod') and not (
                    kind == 'open' and inode is not None
                    and inode.kind == 'd'):
                self.stuck.append((kind, where, getattr(errno, num)))
            raise V.oserr(getattr(errno, num), path)
        if fk == 'short':
            if kind in ('read', 'write') and n > 1:
                self.note('short:' + kind)
                return ('cap', 1 + sel % (n - 1))
            return None
        if fk == 'full':
            self.note('full')
            self.vfs.space[dev] = sel % 40
            return None
        if fk == 'rofs':
            self.note('rofs')
            self.saved_rofs = True
            self.vfs.rofs.add(dev)
            return None
        if fk == 'emfile':
            self.note('emfile')
            self.vfs.fd_limit = len(self.vfs.fds) + sel % 2
            return None
        if fk in ('kill', 'power'):
            self.note(fk + ':' + kind)
            self.dead = True
            self.power = fk == 'power'
            self.power_sel = sel
            if kind == 'write' and n > 1 and sel % 3:
                return ('torn', 1 + sel % (n - 1), SimKill())
            raise SimKill
        if fk == 'intr':
            self.note('intr:' + kind)
            self.mark(kind, inode)
            raise KeyboardInterrupt
        if fk == 'nomem':
            self.note('nomem:' + kind)
            self.mark(kind, inode)
            raise MemoryError
        if fk == 'jump':
            self.note('clock')
            self.clock_ns += (sel - 500) * 10**9
            return None
        raise AssertionError(fk)

    def mark(self, kind, inode):
        self.raised.add(kind)
        if self.sched is not None:
            self.struck.add(self.sched.cur)
        if kind == 'open' and inode is not None and inode.kind == 'd':
            self.raised.add('open-dir')

    def note(self, what):
        self.fired.append(what)
        self.log.update(what.encode())
        if self.trace is not None:
            self.trace.append('FAULT ' + what)

    def arm(self, faults):
        """Faults of the next step: {'at': index of system call | 'line': n}"""
        self.ops = 0
        self.lines = 0
        self.fired = []
        self.raised = set()
        self.armed = {}
        self.line_faults = {}
        self.power = False
        for f in faults or ():
            if 'line' in f:
                self.line_faults[f['line']] = f
            else:
                self.armed[f['at']] = f

    def lift(self):
        """Faults stop: the disk has space again and so on."""
        self.armed = {}
        self.line_faults = {}
        self.stuck = []
        self.vfs.space = {}
        self.vfs.rofs = set()
        self.pipe_broken = None
        self.vfs.fd_limit = self.spec.get('fd_limit', 1024)

    def on_line(self):
        if self.loading:
            return
        self.lines += 1
        f = self.line_faults.get(self.lines)
        if f is not None:
            self.note('%s@line' % f['kind'])
            if f['kind'] == 'intr':
                raise KeyboardInterrupt
            if f['kind'] == 'nomem':
                raise MemoryError
            if f['kind'] in ('kill', 'power'):
                self.dead = True
                self.power = f['kind'] == 'power'
                self.power_sel = f.get('sel', 0)
                raise SimKill

    # -- processes -------------------------------------------------------------

    def start(self, stdin=b'', cuts=None):
        """A new process: fresh code, fresh streams, nothing in memory."""
        self.dead = False
        self.pid += 1
        self.vfs.restart()
        self.vfs.cwd = '/w'
        self.vfs.umask = self.spec.get('umask', 0o022)
        self.raised = set()
        import tempfile
        tempfile.tempdir = None
        tempfile._name_sequence = Names(self)
        random.seed(self.rnd.getrandbits(64))
        self.streams(stdin, cuts)
        self.loading = True
        self.md = fresh()
        self.loading = False

    def streams(self, stdin=b'', cuts=None):
        self.out, self.err = bytearray(), bytearray()
        self.redirected, self.pipe_broken = {}, None
        if signal.getsignal(signal.SIGPIPE) != signal.SIG_IGN:
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        self.stdin_data, self.stdin_pos = stdin, 0
        self.stdin_reads, self.stdin_cuts = 0, cuts
        i = io.TextIOWrapper(
            io.BufferedReader(StdRaw(self, 0), self.bufsize), 'utf-8',
            'strict')
        i._CHUNK_SIZE = self.chunk
        i.mode = 'r'
        # a terminal, or python -u; a locale that does not know everything
        how = self.spec.get('out')
        o = io.TextIOWrapper(io.BufferedWriter(StdRaw(self, 1)),
                             self.spec.get('out_enc', 'utf-8'), 'strict',
                             line_buffering=how == 'line',
                             write_through=how == 'through')
        e = io.TextIOWrapper(io.BufferedWriter(StdRaw(self, 2)), 'utf-8',
                             'backslashreplace', line_buffering=True)
        self.std = (i, o, e)
        self.enter()

    def enter(self):
        sys.stdin, sys.stdout, sys.stderr = self.std
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = self.std
        seam.W = self

    def leave(self):
        seam.W = None
        self.std = (sys.stdin, sys.stdout, sys.stderr)
        sys.stdin, sys.stdout, sys.stderr = REALSTD
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = REALSTD

    def raw(self, fd):
        return StdRaw(self, fd)

    def broken_pipe(self):
        if self.pipe_broken.errno == errno.EPIPE and \
                signal.getsignal(signal.SIGPIPE) == signal.SIG_DFL:
            self.dead = True
            raise SimKill
        raise V.oserr(self.pipe_broken.errno, '<stdout>')

    def std_open(self, fd, mode, buffering, encoding, errors, newline,
                 closefd):
        raw = StdRaw(self, fd)
        buf = io.BufferedReader(raw, self.bufsize) if fd == 0 \
            else io.BufferedWriter(raw)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
        t._CHUNK_SIZE = self.chunk
        return t

    def cli(self, argv, stdin=b'', cuts=None):
        """Run the command in a new process."""
        seam.W = self
        try:
            self.start(stdin, cuts)
            saved_argv, sys.argv = sys.argv, ['md_toc'] + list(argv)
            r = Result()
            try:
                self.md['md_toc.__main__'].main()
                r.code = 0
            except SystemExit as e:
                c = e.code
                r.code = 0 if c is None else c if isinstance(c, int) else 1
            except KeyboardInterrupt:
                r.code = 130
            except SimKill:
                r.died = True
            except Stall as e:
                r.stalled = str(e) or 'stalled'
                self.dead = True
            except BaseException as e:
                r.code = 1
                r.exc = type(e).__name__
            if not self.dead:
                mine = self.std[1]
                for s in (sys.stdout, mine):
                    try:
                        if s is not None and not s.closed:
                            s.flush()
                    except SimKill:
                        r.died = True
                    except BaseException:
                        # an object nobody refers to any more fails silently
                        if s is sys.stdout:
                            r.code = 120
            if self.dead:
                r.died = True
                r.code = None
            else:
                r.code &= 0xff
            r.out, r.err = bytes(self.out), bytes(self.err)
            self.dead = True  # nothing of this process may act any more
            self.drop()
            sys.argv = saved_argv
            return r
        finally:
            self.leave()

    def call(self, name, *a, **k):
        """Call a function of the API in the current process."""
        if self.sched is not None:
            return self.call_here(name, *a, **k)
        self.enter()
        try:
            return self.call_here(name, *a, **k)
        finally:
            self.leave()

    def call_here(self, name, *a, **k):
        r = Result()
        try:
            mod, fn = name.rsplit('.', 1) if '.' in name else ('api', name)
            r.value = getattr(self.md['md_toc.' + mod], fn)(*a, **k)
            r.ok = True
        except (KeyboardInterrupt, Exception) as e:
            r.exc = type(e).__name__
            r.msg = str(e)
            e.__traceback__ = None
            e.__context__ = e.__cause__ = None
        except SystemExit as e:
            r.exc = 'SystemExit'
            r.msg = str(e.code)
        except SimKill:
            r.died = True
        except Stall as e:
            r.stalled = str(e) or 'stalled'
            self.dead = True
        if self.dead and not r.stalled:
            r.died = True
            r.ok = False
        return r

    def begin(self, stdin=b'', cuts=None):
        seam.W = self
        try:
            self.start(stdin, cuts)
        finally:
            self.leave()

    def feed(self, text, cuts=None):
        """More comes in on standard input, after an end of input."""
        self.stdin_data = text.encode('utf-8', 'surrogateescape')
        self.stdin_pos, self.stdin_reads, self.stdin_cuts = 0, 0, cuts

    def drop(self):
        for s in (sys.stdin, sys.stdout, sys.stderr):
            try:
                s.detach().detach()
            except BaseException:
                pass

    def end(self):
        """The process that called the API exits."""
        self.enter()
        self.dead = True
        self.drop()
        self.leave()

    def settle(self, rng_seed=0):
        """After a crash: what a reboot finds (only for power loss)."""
        if self.power:
            states = list(
                self.vfs.crash_states(random.Random(rng_seed), 2))
            desc, contents, names = states[self.power_sel % len(states)]
            self.vfs.adopt(names, contents)
            self.note('reboot:' + desc)
        self.power = False
        self.vfs.restart()

    def peek(self, p):
        return self.vfs.peek(self.path(p))

    def save(self, p, data):
        self.vfs.save(self.path(p), data)
        self.clock_ns += 10**9

    def stamp(self, p):
        """A program that keeps time stamps wrote this document."""
        self.vfs.utime(self.path(p), (START, START))

    def leaked(self):
        """Descriptors open now (call between operations)."""
        return [
            '%s (opened by %s)' % (o.path, o.opener)
            for o in self.vfs.fds.values()
        ]


class Result:
    __slots__ = ('code', 'out', 'err', 'died', 'stalled', 'exc', 'msg', 'ok',
                 'value')

    def __init__(self):
        self.code = self.exc = self.msg = self.value = None
        self.out = self.err = b''
        self.died = self.ok = False
        self.stalled = None

    def key(self):
        """What the caller can see."""
        if self.ok:
            return ['value', self.value]
        return ['raised', self.exc]


class Names:
    """Names of temporary files: decided by the simulator."""

    def __init__(self, world):
        self.w = world

    def __iter__(self):
        return self

    def __next__(self):
        return '%08x' % self.w.rnd.getrandbits(32)


def tobytes(f):
    if 'hex' in f:
        return bytes.fromhex(f['hex'])
    if 'lines' in f:
        return f.get('nl', '\n').join(f['lines']).encode(
            'utf-8', 'surrogateescape')
    return f.get('text', '').encode('utf-8', 'surrogateescape')


# -- fresh copies of the code under test ------------------------------------

_codes = {}
_order = []
_tool = 3
_line_on = False
_pristine = True


class CachedLoader(importlib.abc.Loader):

    def __init__(self, code, path, is_pkg):
        self.code, self.path, self.is_pkg = code, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        blob = _blobs.get(module.__name__)
        if blob is not None:
            module.__dict__.update(blob[1])
            module.__dict__.update(pickle.loads(blob[0]))
            return
        exec(self.code, module.__dict__)


_blobs = {}


def _plain(x):
    if type(x) in (list, tuple, set, frozenset):
        return all(_plain(y) for y in x)
    if type(x) is dict:
        return all(_plain(k) and _plain(y) for k, y in x.items())
    return x is None or type(x) in (str, bytes, int, float, bool)


def snapshot_module(name):
    """A module of nothing but constants is copied instead of run again."""
    keep, data = {}, {}
    for k, x in vars(sys.modules[name]).items():
        if k.startswith('__') and k.endswith('__'):
            continue
        if type(x) is type(sys):
            keep[k] = x
        elif _plain(x):
            data[k] = x
        else:
            return
    _blobs[name] = (pickle.dumps(data, -1), keep)


class CachedFinder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path=None, target=None):
        c = _codes.get(name)
        if c is None:
            return None
        code, fpath, is_pkg = c
        spec = importlib.machinery.ModuleSpec(
            name, CachedLoader(code, fpath, is_pkg), origin=fpath,
            is_package=is_pkg)
        spec.has_location = True
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(fpath)]
        return spec


def load_code(root='/repo'):
    """Compile the package from the current working tree."""
    base = os.path.join(root, 'md_toc')
    for d, dirs, names in os.walk(base):
        dirs.sort()
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
        for n in sorted(names):
            if not n.endswith('.py'):
                continue
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)[:-3].replace('/', '.')
            pkg = rel.endswith('.__init__')
            if pkg:
                rel = rel[:-len('.__init__')]
            with open(p, 'rb') as f:
                src = f.read()
            _codes[rel] = (compile(src, p, 'exec', dont_inherit=True), p, pkg)
    sys.meta_path.insert(0, CachedFinder())
    import md_toc.__main__  # noqa: F401
    for name in list(_codes):
        if name not in sys.modules:
            try:
                importlib.import_module(name)
            except Exception:
                _codes.pop(name)
    snapshot_module('md_toc.constants')
    import fpyutils.filelines
    for name, (code, _, _) in _codes.items():
        _watch(code)
    for f in vars(fpyutils.filelines).values():
        if hasattr(f, '__code__'):
            _watch(f.__code__)


_watched = []


def _watch(code):
    for c in code.co_consts:
        if hasattr(c, 'co_consts'):
            _watched.append(c)
            _watch(c)


CHANGES = {'append', 'add', 'pop', 'clear', 'update', 'setdefault', 'extend',
           'insert', 'remove', 'popitem', 'discard', 'write', 'seek'}
_hot = None


def hot_lines():
    """Lines that seem to change what all threads share, and the next ones.

    This only directs the search to some places of the code.
    """
    global _hot
    if _hot is not None:
        return _hot
    import dis
    _hot = set()
    of_file = {p: sys.modules[n].__dict__ for n, (_, p, _) in _codes.items()
               if n in sys.modules}
    for code in _watched:
        known = of_file.get(code.co_filename, {})
        lines, n = {}, None
        for i in dis.get_instructions(code):
            n = i.positions.lineno if i.positions.lineno else n
            lines.setdefault(n, []).append((i.opname, i.argval))
        order = sorted(x for x in lines if x)
        for k, n in enumerate(order):
            ops = {a for a, _ in lines[n]}
            used = {b for a, b in lines[n] if a == 'LOAD_ATTR'}
            shared = any(a == 'LOAD_GLOBAL' and not callable(
                known.get(b, len)) and not hasattr(known[b], '__loader__')
                for a, b in lines[n])
            if ops & {'STORE_GLOBAL', 'DELETE_GLOBAL'} or shared and (
                        ops & {'STORE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR'}
                        or used & CHANGES):
                _hot.update((code.co_name, x) for x in order[k:k + 3])
    return _hot


def fresh():
    """Import the package anew; returns {module name: module}."""
    global _pristine
    if _pristine:
        # the first process after the fork of this worker
        _pristine = False
        return modules()
    for name in [n for n in sys.modules if n == 'md_toc'
                 or n.startswith('md_toc.')]:
        del sys.modules[name]
    importlib.import_module('md_toc.__main__')
    for name in _codes:
        if name not in sys.modules:
            importlib.import_module(name)
    return modules()


def modules():
    return {
        n: m
        for n, m in sys.modules.items()
        if n == 'md_toc' or n.startswith('md_toc.')
    }


def monitor():
    mon = sys.monitoring
    mon.use_tool_id(_tool, 'sim')

    def jump(code, src, dst):
        w = seam.W
        if w is not None and w.jump_limit is not None:
            w.jumps += 1
            if w.jumps > w.jump_limit:
                raise Stall('more than %d steps' % w.jump_limit)

    def line(code, n):
        w = seam.W
        if w is None:
            return
        if w.dead:
            raise SimKill
        if w.sched is not None:
            w.sched.point('line', (code.co_name, n))
            if w.dead:
                raise SimKill
        w.on_line()

    mon.register_callback(_tool, mon.events.JUMP, jump)
    mon.register_callback(_tool, mon.events.LINE, line)
    watch_lines(False)


def watch_lines(on):
    global _line_on
    mon = sys.monitoring
    ev = mon.events.JUMP | (mon.events.LINE if on else 0)
    for c in _watched:
        mon.set_local_events(_tool, c, ev)
    _line_on = on


# -- threads --------------------------------------------------------------------


class Sched:
    """Runs functions as threads, one at a time.

    `switches`: {step: thread}; or `rng` and `rate` to draw them.  The switches
    that were taken are recorded in `taken`, which replays the run exactly.
    """

    def __init__(self, world, fns, switches=None, rng=None, rate=0.0,
                 limit=400000):
        self.w = world
        self.fns = fns
        self.n = len(fns)
        self.switches = switches
        self.rng, self.rate = rng, rate
        self.step = 0
        self.limit = limit
        self.taken = []
        self.cur = 0
        self.alive = set(range(self.n))
        self.locks = [_thread.allocate_lock() for _ in fns]
        for x in self.locks:
            x.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.ids = {}
        self.results = [None] * self.n
        self.spin = 0
        self.places = None  # or {(thread, place): some of its steps}
        self.order = hashlib.sha1()

    def run(self):
        self.w.sched = self
        for i in range(self.n):
            _thread.start_new_thread(self._body, (i, ))
        self.locks[0].release()
        self.done.acquire()
        self.w.sched = None
        return self.results

    def _body(self, i):
        self.locks[i].acquire()
        self.ids[_thread.get_ident()] = i
        try:
            self.results[i] = self.fns[i]()
        except BaseException as e:  # noqa: B036
            self.results[i] = e
        self.alive.discard(i)
        if self.alive:
            self.cur = min(self.alive)
            self.locks[self.cur].release()
        else:
            self.done.release()

    def point(self, kind, where=None):
        i = self.ids.get(_thread.get_ident())
        if i is None:
            return
        self.step += 1
        if self.places is not None:
            at = self.places.setdefault((i, where or kind), [])
            if len(at) < 8:
                at.append(self.step)
            else:
                at[3 + self.step % 5] = self.step
        self.spin = 0
        if self.step > self.limit:
            raise Stall('schedule too long')
        to = None
        if self.switches is not None:
            to = self.switches.get(self.step)
        elif self.rng is not None and self.rng.random() < self.rate:
            to = self.rng.randrange(self.n)
        if to is None or to == i or to not in self.alive:
            return
        self.taken.append([self.step, to])
        self.order.update(b'%d:%d;' % (self.step, to))
        self._switch(i, to)

    def blocked(self):
        """The running thread waits for a lock."""
        i = self.ids.get(_thread.get_ident())
        self.spin += 1
        if i is None or self.spin > 4 * self.n:
            raise Stall('deadlock')
        others = sorted(self.alive - {i})
        if not others:
            raise Stall('deadlock')
        later = [o for o in others if o > i]
        self._switch(i, (later or others)[0])

    def _switch(self, i, to):
        self.cur = to
        self.locks[to].release()
        self.locks[i].acquire()


class SimLock:
    """A lock whose waiters give way to the scheduler."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        while not self._l.acquire(False):
            if not blocking:
                return False
            w = seam.W
            if w is None:
                return self._l.acquire(True, timeout)
            if w.sched is None:
                raise Stall('deadlock')
            w.sched.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):

    def __init__(self):
        super().__init__()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not super().acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        self._count -= 1
        if self._count == 0:
            self._owner = None
            super().release()


def warm():
    """Fill the caches of the standard library, then import anew."""
    global _pristine
    w = World({'files': [{'path': 'a.md', 'text': '# *A* <b> `c`\n<!--TOC-->\n'}]})
    w.jump_limit, w.syscall_limit = 10**6, 10**4
    for p in ('github', 'gitlab', 'redcarpet', 'goldmark'):
        w.cli(['-p', p, 'a.md'])
        w.cli([p, 'missing.md'])
    _pristine = False
    fresh()
    _pristine = True


def boot(root='/repo'):
    """Prepare this interpreter.  Call once."""
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p] + [
        '/opt/venv/lib/python3.12/site-packages'
    ]
    os.environ['HOME'] = '/home/u'
    os.environ['COLUMNS'] = '80'
    for k in ('TMPDIR', 'TEMP', 'TMP', 'XDG_CACHE_HOME'):
        os.environ.pop(k, None)
    import argparse  # noqa: F401
    import contextlib  # noqa: F401
    import functools  # noqa: F401
    import importlib.metadata as im
    import shutil  # noqa: F401
    import tempfile
    import threading
    import traceback  # noqa: F401
    random._urandom = os.urandom
    tempfile._once_lock = SimLock()
    real_names = tempfile._RandomNameSequence
    tempfile._RandomNameSequence = lambda: Names(
        seam.W) if seam.W is not None else real_names()
    threading.Lock, threading.RLock = SimLock, SimRLock
    memo = {}
    real_distribution = im.distribution

    def distribution(name):
        if name not in memo:
            w, seam.W = seam.W, None
            try:
                memo[name] = ('ok', real_distribution(name))
            except im.PackageNotFoundError as e:
                memo[name] = ('no', e)
            finally:
                seam.W = w
        kind, x = memo[name]
        if kind == 'ok':
            return x
        raise x

    im.distribution = distribution
    sys.unraisablehook = lambda u: None
    load_code(root)
    monitor()
    warm()
    gc.collect()
    gc.freeze()
    gc.disable()
