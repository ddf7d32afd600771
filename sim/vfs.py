"""A simulated file system at the level of system calls.

Everything is in memory.  Time, inode numbers, descriptor numbers and faults
are decided by the simulator; nothing here draws random numbers except from a
`random.Random` handed in by the caller (crash sampling).

Durability model (used for simulated power loss):

* data of a file becomes durable at fsync/fdatasync of that file; before that
  any prefix of the writes since then, or zeros, may be what survives;
* changes of the name space and of modes (create, link, unlink, rename, chmod,
  mkdir, ...) are journalled in order; after a power loss some prefix of them
  survives; fsync of a directory makes all the earlier ones durable.
"""
import errno
import os
import stat as S

O_ACC = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
UID = GID = 1000
FD_BASE = 100000
MAXLINKS = 16


class Inode:
    __slots__ = ('ino', 'dev', 'kind', 'mode', 'data', 'entries', 'target',
                 'nlink', 'mtime', 'atime', 'ctime', 'durable', 'pending',
                 'creator', 'uid', 'gid')

    def __init__(self, ino, dev, kind, mode):
        self.ino = ino
        self.dev = dev
        self.kind = kind  # 'f', 'd', 'l'
        self.mode = mode
        self.data = bytearray() if kind == 'f' else None
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.nlink = 0
        self.mtime = self.atime = self.ctime = 0
        self.durable = b''
        self.pending = []
        self.creator = ''
        self.uid = UID
        self.gid = GID

    @property
    def bits(self):
        """What the (only) user of the machine may do with it."""
        return self.mode >> (6 if self.uid == UID else 3 if self.gid == GID
                             else 0) & 7


class OpenFile:
    __slots__ = ('fd', 'inode', 'flags', 'pos', 'path', 'wrote', 'opener')

    def __init__(self, fd, inode, flags, path, opener=''):
        self.fd = fd
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.path = path
        self.wrote = False
        self.opener = opener

    @property
    def can_read(self):
        return (self.flags & O_ACC) in (os.O_RDONLY, os.O_RDWR)

    @property
    def can_write(self):
        return (self.flags & O_ACC) in (os.O_WRONLY, os.O_RDWR)


def oserr(num, path=None, path2=None):
    if path2 is not None:
        return OSError(num, os.strerror(num), path, None, path2)
    if path is not None:
        return OSError(num, os.strerror(num), path)
    return OSError(num, os.strerror(num))


class VFS:
    """The file system.  `gate(kind, path, inode, n)` is called at the start of
    every system call; it may raise (error, crash, interrupt) or return a
    directive: None or ('cap', k) = transfer at most k bytes."""

    def __init__(self, tmp_other_device=False):
        self.gate = lambda kind, path, inode, n: None
        self.clock = lambda: 0
        self.creator = lambda: ''
        self.next_ino = 1
        self.fds = {}
        self.cwd = '/'
        self.umask = 0o022
        self.fd_limit = 1024
        self.dirs_refused = 0
        self.max_fds = 0
        self.space = {}  # dev -> remaining bytes, absent: unlimited
        self.rofs = set()
        self.journal = []  # atomic groups of primitive name-space operations
        self.jbase = None
        self.root = self._new('d', 1, 0o755)
        self.root.nlink = 1
        self.inodes = {self.root.ino: self.root}
        self.tmp_dev = 2 if tmp_other_device else 1
        self.quiet = 0
        self.mutations = 0

    # -- set-up without faults, journal or clock --------------------------

    def mkdirs(self, path, mode=0o755, dev=None):
        node = self.root
        for part in [p for p in path.split('/') if p]:
            if part not in node.entries:
                d = self._new('d', dev or node.dev, mode)
                d.nlink = 1
                self.inodes[d.ino] = d
                node.entries[part] = d.ino
            node = self.inodes[node.entries[part]]
            if dev and node.dev != dev and part == path.split('/')[-1]:
                node.dev = dev
        return node

    def put(self, path, data, mode=0o644, owner=None):
        d, name = path.rsplit('/', 1)
        node = self.mkdirs(d)
        f = self._new('f', node.dev, mode)
        f.nlink = 1
        f.data[:] = data
        f.durable = bytes(data)
        if owner:
            f.uid, f.gid = owner
        self.inodes[f.ino] = f
        node.entries[name] = f.ino

    def put_hard(self, path, other):
        d, name = path.rsplit('/', 1)
        node = self._resolve(other, True)[2]
        if node is None:
            return
        self.mkdirs(d).entries[name] = node.ino
        node.nlink += 1

    def put_link(self, path, target):
        d, name = path.rsplit('/', 1)
        node = self.mkdirs(d)
        link = self._new('l', node.dev, 0o777)
        link.nlink = 1
        link.target = target
        self.inodes[link.ino] = link
        node.entries[name] = link.ino

    def seal(self):
        """The present state becomes the durable one."""
        self.journal = []
        self.jbase = self._names()
        for i in self.inodes.values():
            if i.kind == 'f':
                i.durable = bytes(i.data)
                i.pending = []

    def _names(self):
        return {
            i.ino: (i.kind, i.mode,
                    dict(i.entries) if i.kind == 'd' else None, i.target)
            for i in self.inodes.values()
        }

    def _new(self, kind, dev, mode):
        i = Inode(self.next_ino, dev, kind, mode)
        self.next_ino += 1
        i.mtime = i.atime = i.ctime = self.clock()
        return i

    # -- direct inspection (no faults) --------------------------------------

    def peek(self, path):
        """Bytes of the file at path, following links; None if missing."""
        try:
            node = self._resolve(path, True)[2]
        except OSError:
            return None
        return bytes(node.data) if node is not None and node.kind == 'f' else None

    def snapshot(self):
        """{path: (kind, mode, content or target)} of the whole tree."""
        out = {}

        def walk(prefix, node):
            for name in sorted(node.entries):
                c = self.inodes[node.entries[name]]
                p = prefix + '/' + name
                if c.kind == 'd':
                    out[p] = ('d', c.mode, None)
                    walk(p, c)
                elif c.kind == 'f':
                    out[p] = ('f', c.mode, bytes(c.data))
                else:
                    out[p] = ('l', c.mode, c.target)

        walk('', self.root)
        return out

    def creator_of(self, path):
        node = self._resolve(path, False)[2]
        return node.creator if node else ''

    # -- crash ---------------------------------------------------------------

    def crash_states(self, rng, samples=3):
        """Yield (description, {ino: content}, names) for power loss now."""
        n = len(self.journal)
        pend = [i for i in self.inodes.values() if i.kind == 'f' and i.pending]
        for k in range(n, -1, -1):
            names = self._apply(k)
            yield ('journal %d/%d, no unsynced data' % (k, n),
                   {i.ino: i.durable for i in pend}, names)
            if pend:
                yield ('journal %d/%d, all data' % (k, n), {}, names)
                for s in range(samples):
                    yield ('journal %d/%d, sample' % (k, n),
                           {i.ino: self._sample(i, rng) for i in pend}, names)

    def _apply(self, k):
        names = {
            ino: (kind, mode, dict(ent) if ent is not None else None, tgt)
            for ino, (kind, mode, ent, tgt) in self.jbase.items()
        }
        for group in self.journal[:k]:
            for op in group:
                if op[0] == 'new':
                    names[op[1]] = (op[2], op[3], {} if op[2] == 'd' else None,
                                    op[4])
                elif op[0] == 'link':
                    names[op[1]][2][op[2]] = op[3]
                elif op[0] == 'unlink':
                    names[op[1]][2].pop(op[2], None)
                elif op[0] == 'mode':
                    kind, _, ent, tgt = names[op[1]]
                    names[op[1]] = (kind, op[2], ent, tgt)
        return names

    def _sample(self, inode, rng):
        k = rng.randrange(len(inode.pending) + 1)
        data = bytearray(inode.durable)
        for n, (what, a, b) in enumerate(inode.pending):
            if n > k:
                break
            if what == 't':
                if n < k:
                    self._trunc(data, a)
            else:
                if n == k:  # torn
                    b = b[:rng.randrange(len(b) + 1)]
                elif rng.random() < 0.15:
                    b = bytes(len(b))
                if len(data) < a:
                    data.extend(bytes(a - len(data)))
                data[a:a + len(b)] = b
        return bytes(data)

    def lookup_in(self, names, contents, path):
        """Content of path in a crash state (follows links); None if missing."""
        for _ in range(MAXLINKS):
            node = names[self.root.ino]
            parts = [p for p in path.split('/') if p]
            ino = self.root.ino
            for n, part in enumerate(parts):
                if node[0] != 'd' or part not in node[2]:
                    return None
                ino = node[2][part]
                node = names.get(ino)
                if node is None:
                    return None
                if node[0] == 'l':
                    rest = '/'.join(parts[n + 1:])
                    base = '/' + '/'.join(parts[:n])
                    path = os.path.join(base, node[3], rest).rstrip('/')
                    path = os.path.normpath(path)
                    break
            else:
                if node[0] != 'f':
                    return None
                return contents.get(ino, bytes(self.inodes[ino].data))
        return None

    def adopt(self, names, contents):
        """Continue from a crash state: it becomes the live and durable one."""
        nodes = {}
        for ino, (kind, mode, ent, tgt) in names.items():
            i = self.inodes[ino]
            i.mode = mode
            i.target = tgt
            if kind == 'd':
                i.entries = dict(ent)
            elif kind == 'f':
                if ino in contents:
                    i.data = bytearray(contents[ino])
            nodes[ino] = i
        # names of files whose inode did not survive
        for i in nodes.values():
            if i.kind == 'd':
                i.entries = {n: o for n, o in i.entries.items() if o in nodes}
        self.inodes = nodes
        self.restart()
        self.seal()

    def restart(self):
        self.fds = {}

    def save(self, path, data):
        """Another program saves a new version of a document atomically."""
        parent, name, node, canon = self._resolve(path, True)
        new = self._new('f', parent.dev, node.mode if node else 0o644)
        new.nlink = 1
        new.data[:] = data
        new.durable = bytes(data)
        self.inodes[new.ino] = new
        if node is not None:
            node.nlink -= 1
        parent.entries[name] = new.ino
        self._log(('new', new.ino, 'f', new.mode, None),
                  ('link', parent.ino, name, new.ino))

    # -- path resolution -------------------------------------------------------

    def abspath(self, path, dir_fd=None):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith('/'):
            base = self.cwd if dir_fd is None else self.fds[dir_fd].path
            path = base.rstrip('/') + '/' + path
        return path

    def _resolve(self, path, follow, depth=0):
        """-> (parent inode, name, inode or None, canonical path)"""
        if depth > MAXLINKS:
            raise oserr(errno.ELOOP, path)
        trailing = path.endswith('/') and path != '/'
        stack = [self.root]
        names = []
        parts = [p for p in path.split('/') if p and p != '.']
        n = 0
        while n < len(parts):
            part = parts[n]
            cur = stack[-1]
            if cur.kind != 'd':
                raise oserr(errno.ENOTDIR, path)
            if part == '..':
                if len(stack) > 1:
                    stack.pop()
                    names.pop()
                n += 1
                continue
            last = n == len(parts) - 1
            if not cur.bits & 1:
                raise oserr(errno.EACCES, path)
            ino = cur.entries.get(part)
            if ino is None:
                if last:
                    return cur, part, None, '/' + '/'.join(names + [part])
                raise oserr(errno.ENOENT, path)
            node = self.inodes[ino]
            if node.kind == 'l' and (not last or follow or trailing):
                rest = '/'.join(parts[n + 1:])
                base = '/' + '/'.join(names)
                new = node.target if node.target.startswith(
                    '/') else base.rstrip('/') + '/' + node.target
                return self._resolve(new + ('/' + rest if rest else ''),
                                     follow, depth + 1)
            if last:
                if trailing and node.kind != 'd':
                    raise oserr(errno.ENOTDIR, path)
                return cur, part, node, '/' + '/'.join(names + [part])
            stack.append(node)
            names.append(part)
            n += 1
        node = stack[-1]
        return (stack[-2] if len(stack) > 1 else node,
                names[-1] if names else '', node, '/' + '/'.join(names))

    def _find(self, path, follow=True, dir_fd=None):
        path = self.abspath(path, dir_fd)
        r = self._resolve(path, follow)
        if r[2] is None:
            raise oserr(errno.ENOENT, path)
        return r

    def _log(self, *ops):
        self.mutations += 1
        self.journal.append(list(ops))

    def _writable_dir(self, d, path):
        if d.dev in self.rofs:
            raise oserr(errno.EROFS, path)
        if d.bits & 3 != 3:
            raise oserr(errno.EACCES, path)

    # -- system calls ------------------------------------------------------------

    def open(self, path, flags, mode=0o777, dir_fd=None):
        shown = path
        path = self.abspath(path, dir_fd)
        wants_write = (flags & O_ACC) != os.O_RDONLY
        mutating = bool(flags & (os.O_CREAT | os.O_TRUNC)) or wants_write
        parent, name, node, canon = self._resolve(
            path, not (flags & os.O_NOFOLLOW) and not (flags & os.O_EXCL))
        self.gate('creat' if flags & os.O_CREAT and node is None else 'open',
                  canon, node or parent, 0)
        # things may have changed while the gate let others run
        parent, name, node, canon = self._resolve(
            path, not (flags & os.O_NOFOLLOW) and not (flags & os.O_EXCL))
        if len(self.fds) >= self.fd_limit:
            if node is not None and node.kind == 'd':
                self.dirs_refused += 1
            raise oserr(errno.EMFILE, shown)
        if node is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, shown)
            self._writable_dir(parent, shown)
            node = self._new('f', parent.dev, mode & ~self.umask & 0o7777)
            node.nlink = 1
            node.creator = self.creator()
            self.inodes[node.ino] = node
            parent.entries[name] = node.ino
            parent.mtime = self.clock()
            self._log(('new', node.ino, 'f', node.mode, None),
                      ('link', parent.ino, name, node.ino))
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, shown)
            if node.kind == 'l':
                raise oserr(errno.ELOOP, shown)
            if node.kind == 'd':
                if mutating:
                    raise oserr(errno.EISDIR, shown)
            elif flags & os.O_DIRECTORY:
                raise oserr(errno.ENOTDIR, shown)
            else:
                if (flags & O_ACC) != os.O_WRONLY and not node.bits & 4:
                    raise oserr(errno.EACCES, shown)
                if wants_write and not node.bits & 2:
                    raise oserr(errno.EACCES, shown)
                if mutating and wants_write and node.dev in self.rofs:
                    raise oserr(errno.EROFS, shown)
                if flags & os.O_TRUNC and wants_write:
                    self._truncate(node, 0)
        fd = FD_BASE
        while fd in self.fds:
            fd += 1
        self.fds[fd] = OpenFile(fd, node, flags, canon, self.creator())
        self.max_fds = max(self.max_fds, len(self.fds))
        return fd

    def _of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise oserr(errno.EBADF)
        return of

    def close(self, fd):
        of = self._of(fd)
        try:
            self.gate('close' if of.wrote else 'close-ro', of.path, of.inode, 0)
        finally:
            self.fds.pop(fd, None)

    def dup(self, fd):
        of = self._of(fd)
        new = FD_BASE
        while new in self.fds:
            new += 1
        self.fds[new] = OpenFile(new, of.inode, of.flags, of.path, of.opener)
        self.fds[new].pos = of.pos
        return new

    def read(self, fd, n, offset=None):
        of = self._of(fd)
        if not of.can_read:
            raise oserr(errno.EBADF)
        if of.inode.kind == 'd':
            raise oserr(errno.EISDIR)
        d = self.gate('read', of.path, of.inode, n)
        if d and d[0] == 'cap':
            n = min(n, max(1, d[1]))
        pos = of.pos if offset is None else offset
        out = bytes(of.inode.data[pos:pos + n])
        if offset is None:
            of.pos += len(out)
        return out

    def write(self, fd, buf, offset=None):
        of = self._of(fd)
        if not of.can_write:
            raise oserr(errno.EBADF)
        buf = bytes(buf)
        d = self.gate('write', of.path, of.inode, len(buf))
        after = None
        if d and d[0] == 'cap':
            buf = buf[:max(1, d[1])]
        elif d and d[0] == 'torn':
            buf = buf[:d[1]]
            after = d[2]
        dev = of.inode.dev
        if dev in self.rofs:
            raise oserr(errno.EROFS, of.path)
        if dev in self.space:
            if self.space[dev] <= 0 and buf:
                raise oserr(errno.ENOSPC)
            buf = buf[:self.space[dev]]
            self.space[dev] -= len(buf)
        node = of.inode
        if of.flags & os.O_APPEND:
            of.pos = len(node.data)
        pos = of.pos if offset is None else offset
        if len(node.data) < pos:
            node.data.extend(bytes(pos - len(node.data)))
        node.data[pos:pos + len(buf)] = buf
        node.pending.append(('w', pos, buf))
        node.mtime = node.ctime = self.clock()
        of.wrote = True
        self.mutations += 1
        if offset is None:
            of.pos += len(buf)
        if after is not None:
            raise after
        return len(buf)

    def lseek(self, fd, off, how=0):
        of = self._of(fd)
        if how == 0:
            new = off
        elif how == 1:
            new = of.pos + off
        else:
            new = len(of.inode.data or b'') + off
        if new < 0:
            raise oserr(errno.EINVAL)
        of.pos = new
        return new

    def fsync(self, fd):
        of = self._of(fd)
        self.gate('fsync', of.path, of.inode, 0)
        if of.inode.kind == 'd':
            self.jbase = self._apply(len(self.journal))
            self.journal = []
        else:
            of.inode.durable = bytes(of.inode.data)
            of.inode.pending = []

    def sync(self):
        self.gate('sync', '/', self.root, 0)
        self.jbase = self._apply(len(self.journal))
        self.journal = []
        for i in self.inodes.values():
            if i.kind == 'f':
                i.durable = bytes(i.data)
                i.pending = []

    @staticmethod
    def _trunc(data, n):
        if len(data) > n:
            del data[n:]
        else:
            data.extend(bytes(n - len(data)))

    def _truncate(self, node, n):
        self._trunc(node.data, n)
        node.pending.append(('t', n, None))
        node.mtime = node.ctime = self.clock()
        self.mutations += 1

    def ftruncate(self, fd, n):
        of = self._of(fd)
        if not of.can_write:
            raise oserr(errno.EINVAL)
        self.gate('truncate', of.path, of.inode, 0)
        of.wrote = True
        self._truncate(of.inode, n)

    def truncate(self, path, n):
        _, _, node, canon = self._find(path)
        self.gate('truncate', canon, node, 0)
        if node.kind != 'f':
            raise oserr(errno.EISDIR, path)
        if not node.bits & 2:
            raise oserr(errno.EACCES, path)
        self._truncate(node, n)

    def _stat(self, node):
        kind = {'f': S.S_IFREG, 'd': S.S_IFDIR, 'l': S.S_IFLNK}[node.kind]
        size = len(node.data) if node.kind == 'f' else (
            len(node.target) if node.kind == 'l' else 4096)
        a, m, c = node.atime, node.mtime, node.ctime
        return os.stat_result(
            (kind | node.mode, node.ino, node.dev, node.nlink, node.uid,
             node.gid, size, int(a // 10**9), int(m // 10**9),
             int(c // 10**9)), {
                 'st_atime': a / 1e9,
                 'st_mtime': m / 1e9,
                 'st_ctime': c / 1e9,
                 'st_atime_ns': a,
                 'st_mtime_ns': m,
                 'st_ctime_ns': c,
                 'st_blksize': 4096,
                 'st_blocks': (size + 511) // 512,
                 'st_rdev': 0
             })

    def stat(self, path, follow=True, dir_fd=None):
        p = self.abspath(path, dir_fd)
        self.gate('stat', p, None, 0)
        node = self._resolve(p, follow)[2]
        if node is None:
            raise oserr(errno.ENOENT, path)
        return self._stat(node)

    def fstat(self, fd):
        return self._stat(self._of(fd).inode)

    def chmod(self, path, mode, follow=True, dir_fd=None):
        _, _, node, canon = self._find(path, follow, dir_fd)
        self.gate('chmod', canon, node, 0)
        self._chmod(node, mode)

    def fchmod(self, fd, mode):
        of = self._of(fd)
        self.gate('chmod', of.path, of.inode, 0)
        self._chmod(of.inode, mode)

    def _chmod(self, node, mode):
        if node.dev in self.rofs:
            raise oserr(errno.EROFS)
        if node.uid != UID:
            raise oserr(errno.EPERM)
        node.mode = mode & 0o7777
        node.ctime = self.clock()
        self._log(('mode', node.ino, node.mode))

    def chown(self, node_path, uid, gid, follow=True, dir_fd=None):
        _, _, node, canon = self._find(node_path, follow, dir_fd)
        self.gate('chown', canon, node, 0)
        self._chown(node, uid, gid)

    def fchown(self, fd, uid, gid):
        of = self._of(fd)
        self.gate('chown', of.path, of.inode, 0)
        self._chown(of.inode, uid, gid)

    def _chown(self, node, uid, gid):
        if (uid not in (-1, node.uid)) or (gid not in (-1, node.gid)):
            raise oserr(errno.EPERM)

    def utime(self, path, ns, follow=True):
        if isinstance(path, int):
            node, canon = self._of(path).inode, self._of(path).path
        else:
            _, _, node, canon = self._find(path, follow)
        self.gate('utime', canon, node, 0)
        node.atime, node.mtime = ns

    def rename(self, src, dst, src_dir_fd=None, dst_dir_fd=None):
        a, b = self.abspath(src, src_dir_fd), self.abspath(dst, dst_dir_fd)
        node = self._resolve(a, False)[2]
        self.gate('rename', a + ' -> ' + b, node, 0)
        sp, sn, node, ca = self._resolve(a, False)
        dp, dn, old, cb = self._resolve(b, False)
        if node is None:
            raise oserr(errno.ENOENT, src, dst)
        self._writable_dir(sp, src)
        self._writable_dir(dp, dst)
        if sp.dev != dp.dev or node.dev != dp.dev:
            raise oserr(errno.EXDEV, src, dst)
        if old is not None:
            if old is node:
                return
            if old.kind == 'd':
                if node.kind != 'd':
                    raise oserr(errno.EISDIR, src, dst)
                if old.entries:
                    raise oserr(errno.ENOTEMPTY, src, dst)
            elif node.kind == 'd':
                raise oserr(errno.ENOTDIR, src, dst)
            old.nlink -= 1
        del sp.entries[sn]
        dp.entries[dn] = node.ino
        node.ctime = self.clock()
        self._log(('unlink', sp.ino, sn), ('link', dp.ino, dn, node.ino))

    def link(self, src, dst, src_dir_fd=None, dst_dir_fd=None, follow=False):
        _, _, node, ca = self._find(src, follow, src_dir_fd)
        b = self.abspath(dst, dst_dir_fd)
        self.gate('link', ca + ' -> ' + b, node, 0)
        dp, dn, old, cb = self._resolve(b, False)
        if old is not None:
            raise oserr(errno.EEXIST, src, dst)
        self._writable_dir(dp, dst)
        if node.dev != dp.dev:
            raise oserr(errno.EXDEV, src, dst)
        dp.entries[dn] = node.ino
        node.nlink += 1
        self._log(('link', dp.ino, dn, node.ino))

    def symlink(self, target, path, dir_fd=None):
        b = self.abspath(path, dir_fd)
        dp, dn, old, cb = self._resolve(b, False)
        self.gate('symlink', cb, dp, 0)
        if old is not None:
            raise oserr(errno.EEXIST, target, path)
        self._writable_dir(dp, path)
        node = self._new('l', dp.dev, 0o777)
        node.target = os.fspath(target)
        node.nlink = 1
        node.creator = self.creator()
        self.inodes[node.ino] = node
        dp.entries[dn] = node.ino
        self._log(('new', node.ino, 'l', 0o777, node.target),
                  ('link', dp.ino, dn, node.ino))

    def readlink(self, path, dir_fd=None):
        p = self.abspath(path, dir_fd)
        self.gate('stat', p, None, 0)
        node = self._resolve(p, False)[2]
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind != 'l':
            raise oserr(errno.EINVAL, path)
        return node.target

    def unlink(self, path, dir_fd=None):
        p = self.abspath(path, dir_fd)
        _, _, node, canon = self._resolve(p, False)
        self.gate('unlink', canon, node, 0)
        parent, name, node, canon = self._resolve(p, False)
        if node is None:
            raise oserr(errno.ENOENT, path)
        self._writable_dir(parent, path)
        if node.kind == 'd':
            raise oserr(errno.EISDIR, path)
        del parent.entries[name]
        node.nlink -= 1
        self._log(('unlink', parent.ino, name))

    def mkdir(self, path, mode=0o777, dir_fd=None):
        p = self.abspath(path, dir_fd)
        parent, name, node, canon = self._resolve(p, True)
        self.gate('mkdir', canon, parent, 0)
        if node is not None:
            raise oserr(errno.EEXIST, path)
        self._writable_dir(parent, path)
        node = self._new('d', parent.dev, mode & ~self.umask & 0o7777)
        node.nlink = 1
        node.creator = self.creator()
        self.inodes[node.ino] = node
        parent.entries[name] = node.ino
        self._log(('new', node.ino, 'd', node.mode, None),
                  ('link', parent.ino, name, node.ino))

    def rmdir(self, path, dir_fd=None):
        p = self.abspath(path, dir_fd)
        parent, name, node, canon = self._resolve(p, False)
        self.gate('rmdir', canon, node, 0)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        if node.entries:
            raise oserr(errno.ENOTEMPTY, path)
        self._writable_dir(parent, path)
        del parent.entries[name]
        self._log(('unlink', parent.ino, name))

    def listdir(self, path):
        if isinstance(path, int):
            node, canon = self._of(path).inode, self._of(path).path
        else:
            _, _, node, canon = self._find(path)
        self.gate('listdir', canon, node, 0)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        if not node.bits & 4:
            raise oserr(errno.EACCES, path)
        return [(n, self.inodes[i]) for n, i in sorted(node.entries.items())]

    def access(self, path, mode, follow=True, dir_fd=None):
        p = self.abspath(path, dir_fd)
        self.gate('stat', p, None, 0)
        try:
            node = self._resolve(p, follow)[2]
        except OSError:
            return False
        if node is None:
            return False
        bits = node.bits
        if mode & os.W_OK and node.dev in self.rofs:
            return False
        return (mode & bits & 7) == mode

    def chdir(self, path):
        if isinstance(path, int):
            self.cwd = self._of(path).path
            return
        _, _, node, canon = self._find(path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        self.cwd = canon
