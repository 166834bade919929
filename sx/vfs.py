"""In-memory POSIX file system (names and contents may be symbolic)."""
import errno as _errno
import os as _os
import stat as _stat
from . import core, text
from .core import Unsupported, Crash, SInt
from .containers import SymDict
from .text import Seq, SStr, SBytes, Tok, mk_str, mk_bytes, els


class Junk(Tok):
    """content that is neither a zip file nor a json document nor valid utf-8"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def eq(self, o):
        return type(o) is Junk and o.n == self.n

    def length(self):
        return 7


class Node:
    ino = 0

    def __init__(self, mode):
        self.mode = mode
        self.parent = None
        Node.ino += 1
        self.ino = Node.ino
        self.mtime = 1_700_000_000
        self.nlink = 1


class File(Node):
    kind = _stat.S_IFREG

    def __init__(self, content=b'', mode=0o644, special=None):
        super().__init__(mode)
        self.content = content
        self.special = special
        self.fault = None        # (OSError number, how many openings still work)

    def size(self):
        c = self.content
        return c.sx_len() if isinstance(c, Seq) else len(c)


class Dir(Node):
    kind = _stat.S_IFDIR

    def __init__(self, mode=0o755):
        super().__init__(mode)
        self.entries = SymDict()
        self.deleted = False

    def size(self):
        return 4096


class Link(Node):
    kind = _stat.S_IFLNK

    def __init__(self, target):
        super().__init__(0o777)
        self.target = target

    def size(self):
        return len(els(self.target))


def oserr(no, path=None, path2=None):
    e = OSError(no, _os.strerror(no), path) if path is not None else OSError(no, _os.strerror(no))
    e.sx_filename = path
    return e


class VFS:
    def __init__(self):
        self.root = Dir(0o755)
        self.root.parent = self.root
        self.cwd = self.root
        self.listing_reversed = False
        self.meanwhile = None    # meanwhile(kind, path): lets another process run
        self.hook = None         # hook(kind, path): counts mutations, injects faults and crashes
        self.tmp_counter = 0
        self.opened = 0
        self.open_files = []

    # -- names -----------------------------------------------------------
    def text_of(self, p):
        if isinstance(p, (str, Seq)):
            if isinstance(p, SBytes):
                p = p.decode()
            return p
        if isinstance(p, bytes):
            return _os.fsdecode(p)
        f = getattr(type(p), '__fspath__', None)
        if f is None:
            raise TypeError(f'expected str, bytes or os.PathLike object, not {type(p).__name__}')
        return self.text_of(f(p))

    def split(self, p):
        """(absolute, components, trailing slash)"""
        t = self.text_of(p)
        if isinstance(t, Seq) and type(t) is not SStr:
            t = mk_str(t.e)
        if len(els(t)) == 0:
            raise oserr(_errno.ENOENT, t)
        if text.contains(t, '\0'):
            raise ValueError('embedded null byte')
        ab = bool(t.startswith('/'))
        comps = []
        raw = t.split('/')
        for c in raw:
            if len(els(c)) == 0:
                continue
            if len(els(c)) == 1 and c == '.':
                continue
            if type(c) is str and len(c) > 80 and len(c.encode('utf-8', 'surrogateescape')) > 255:
                raise oserr(_errno.ENAMETOOLONG, t)
            comps.append(c)
        trailing = len(els(raw[-1])) == 0 or (len(raw) > 1 and len(els(raw[-1])) == 1 and bool(raw[-1] == '.'))
        return ab, comps, trailing, t

    def may(self, node, bit):
        return bool(node.mode & (bit << 6))

    def walk(self, p, follow=True, depth=0, parent=False):
        """resolve to node; with parent=True to (dir, last name, node or None)"""
        if core.E.dead:
            raise Crash()
        if isinstance(p, int):
            raise Unsupported('file descriptor used as path')
        ab, comps, trailing, t = self.split(p)
        cur = self.root if ab else self.cwd
        if not comps:
            if not ab and cur is self.cwd and self.cwd is not self.root and self.cwd.deleted:
                # '.' of a deleted directory
                if parent:
                    return cur, '.', cur
                return cur
            if parent:
                return cur, '.', cur
            return cur
        return self._walk(cur, comps, t, follow or trailing, depth, parent, trailing)

    def _walk(self, cur, comps, t, follow, depth, parent, trailing):
        if depth > 40:
            raise oserr(_errno.ELOOP, t)
        n = len(comps)
        for i, c in enumerate(comps):
            last = i == n - 1
            if not isinstance(cur, Dir):
                raise oserr(_errno.ENOTDIR, t)
            if not self.may(cur, 1):
                raise oserr(_errno.EACCES, t)
            if len(els(c)) == 2 and c == '..':
                if cur.deleted:
                    raise oserr(_errno.ENOENT, t)
                nxt = cur.parent
                if last and parent:
                    return cur, '..', nxt
                cur = nxt
                continue
            nxt = cur.entries.get(c)
            if last and parent and not (isinstance(nxt, Link) and follow):
                return cur, c, nxt
            if nxt is None:
                raise oserr(_errno.ENOENT, t)
            if isinstance(nxt, Link) and (not last or follow):
                ab, comps2, trail2, _ = self.split(nxt.target)
                start = self.root if ab else cur
                rest = comps2 + comps[i + 1:]
                if not rest:
                    if parent:
                        return start, '.', start
                    return start
                return self._walk(start, rest, t, follow, depth + 1, parent, trailing)
            cur = nxt
        if trailing and not isinstance(cur, Dir) and not parent:
            raise oserr(_errno.ENOTDIR, t)
        return cur

    # -- mutation plumbing ---------------------------------------------------
    def point(self, kind, path):
        """another process may run here"""
        if self.meanwhile is not None:
            self.meanwhile(kind, path)

    def event(self, kind, path):
        if core.E.dead:
            raise Crash()
        if kind != 'flush':
            self.point(kind, path)
        if self.hook is not None:
            self.hook(kind, path)

    def need_w(self, d, p):
        if not self.may(d, 2) or not self.may(d, 1):
            raise oserr(_errno.EACCES, self.text_of(p))

    # -- queries -------------------------------------------------------------
    def stat(self, p, follow=True):
        return self.walk(p, follow)

    def exists(self, p, follow=True):
        try:
            self.walk(p, follow)
            return True
        except (OSError, ValueError):
            return False

    def listdir(self, p='.'):
        self.point('list', p)
        d = self.walk(p)
        if not isinstance(d, Dir):
            raise oserr(_errno.ENOTDIR, self.text_of(p))
        if not self.may(d, 4):
            raise oserr(_errno.EACCES, self.text_of(p))
        names = list(d.entries)
        if self.listing_reversed:
            names = names[::-1]
        return names

    def path_of(self, node):
        """absolute path text of a directory"""
        parts = []
        while node is not self.root:
            if getattr(node, 'deleted', False):
                raise oserr(_errno.ENOENT)
            for k, v in node.parent.entries.items():
                if v is node:
                    parts.append(k)
                    break
            else:
                raise oserr(_errno.ENOENT)
            node = node.parent
        return text.sx_join('', ['/', text.sx_join('/', parts[::-1])])

    # -- mutations -------------------------------------------------------------
    def mkdir(self, p, mode=0o777):
        t = self.text_of(p)
        self.event('mkdir', t)
        d, name, node = self.walk(p, follow=False, parent=True)
        if node is not None:
            raise oserr(_errno.EEXIST, t)
        if d.deleted:
            raise oserr(_errno.ENOENT, t)
        self.need_w(d, p)
        n = Dir(mode & ~0o022)
        n.parent = d
        d.entries[name] = n

    def chmod(self, p, mode, follow=True):
        self.event('chmod', self.text_of(p))
        n = self.walk(p, follow)
        n.mode = int(mode) & 0o7777

    def unlink(self, p):
        t = self.text_of(p)
        self.event('remove', t)
        d, name, node = self.walk(p, follow=False, parent=True)
        if node is None:
            raise oserr(_errno.ENOENT, t)
        if isinstance(node, Dir):
            raise oserr(_errno.EISDIR, t)
        self.need_w(d, p)
        del d.entries[name]

    def rmdir(self, p):
        t = self.text_of(p)
        self.event('rmdir', t)
        d, name, node = self.walk(p, follow=False, parent=True)
        if node is None:
            raise oserr(_errno.ENOENT, t)
        if not isinstance(node, Dir):
            raise oserr(_errno.ENOTDIR, t)
        if isinstance(name, str) and name in ('.', '..') or node is self.root:
            raise oserr(_errno.EINVAL, t)
        self.need_w(d, p)
        if len(node.entries):
            raise oserr(_errno.ENOTEMPTY, t)
        del d.entries[name]
        node.deleted = True

    def rename(self, a, b):
        ta, tb = self.text_of(a), self.text_of(b)
        self.event('rename', ta)
        d1, n1, x = self.walk(a, follow=False, parent=True)
        if x is None:
            raise oserr(_errno.ENOENT, ta, tb)
        d2, n2, y = self.walk(b, follow=False, parent=True)
        self.need_w(d1, a)
        self.need_w(d2, b)
        if x is y:
            return
        if isinstance(x, Dir):
            z = d2
            while True:
                if z is x:
                    raise oserr(_errno.EINVAL, ta, tb)
                if z is self.root:
                    break
                z = z.parent
            if not self.may(x, 2) and d1 is not d2:
                raise oserr(_errno.EACCES, ta, tb)
        if y is not None:
            if isinstance(x, Dir) and not isinstance(y, Dir):
                raise oserr(_errno.ENOTDIR, ta, tb)
            if not isinstance(x, Dir) and isinstance(y, Dir):
                raise oserr(_errno.EISDIR, ta, tb)
            if isinstance(y, Dir) and len(y.entries):
                raise oserr(_errno.ENOTEMPTY, ta, tb)
            del d2.entries[n2]
            if isinstance(y, Dir):
                y.deleted = True
        del d1.entries[n1]
        x.parent = d2
        d2.entries[n2] = x

    def symlink(self, target, p):
        t = self.text_of(p)
        self.event('symlink', t)
        d, name, node = self.walk(p, follow=False, parent=True)
        if node is not None:
            raise oserr(_errno.EEXIST, t)
        self.need_w(d, p)
        n = Link(self.text_of(target))
        n.parent = d
        d.entries[name] = n

    def link(self, a, b, follow=True):
        t = self.text_of(b)
        self.event('link', t)
        x = self.walk(a, follow)
        if isinstance(x, Dir):
            raise oserr(_errno.EPERM, t)
        d, name, node = self.walk(b, follow=False, parent=True)
        if node is not None:
            raise oserr(_errno.EEXIST, t)
        self.need_w(d, b)
        x.nlink += 1
        d.entries[name] = x

    def open_node(self, p, read, write, create, excl, trunc, mode=0o666):
        t = self.text_of(p)
        if write:
            self.event('open-w', t)
        elif read:
            self.point('open-r', t)
        d, name, node = self.walk(p, follow=not excl, parent=True)
        if node is None:
            if not create:
                raise oserr(_errno.ENOENT, t)
            if d.deleted:
                raise oserr(_errno.ENOENT, t)
            if t.endswith('/'):
                raise oserr(_errno.EISDIR, t)
            self.need_w(d, p)
            node = File(b'', mode & ~0o022)
            node.parent = d
            d.entries[name] = node
            return node
        if isinstance(node, Link):
            if excl:
                raise oserr(_errno.EEXIST, t)
            node = self.walk(p)
        if excl:
            raise oserr(_errno.EEXIST, t)
        if isinstance(node, Dir):
            if write:
                raise oserr(_errno.EISDIR, t)
            raise oserr(_errno.EISDIR, t)
        if t.endswith('/'):
            raise oserr(_errno.ENOTDIR, t)
        if write and not self.may(node, 2) or read and not self.may(node, 4):
            raise oserr(_errno.EACCES, t)
        if read and not write and node.fault:
            n, skip = node.fault
            if skip <= 0:
                node.fault = (n, -1)
                raise oserr(n, t) if n > 0 else KeyboardInterrupt
            node.fault = (n, skip - 1)
        if node.special and not write:
            if node.special == 'fifo':
                raise Unsupported('reading a fifo blocks')
        if trunc and write:
            node.content = b''
        return node


class StatResult:
    def __init__(self, node):
        self.st_mode = node.kind | node.mode
        if getattr(node, 'special', None) == 'fifo':
            self.st_mode = _stat.S_IFIFO | node.mode
        self.st_ino = node.ino
        self.st_dev = 1
        self.st_nlink = node.nlink
        self.st_uid = 65534
        self.st_gid = 65534
        self.st_size = node.size()
        self.st_atime = self.st_mtime = self.st_ctime = core.to_float(node.mtime)
        self.st_mtime_ns = self.st_atime_ns = self.st_ctime_ns = node.mtime * 10 ** 9
        self.st_blocks = 8
        self.st_flags = 0

    _f = ('st_mode', 'st_ino', 'st_dev', 'st_nlink', 'st_uid', 'st_gid', 'st_size', 'st_atime', 'st_mtime', 'st_ctime')

    def __getitem__(self, k):
        return getattr(self, self._f[k])

    def __iter__(self):
        return iter([getattr(self, f) for f in self._f])


class VFile:
    """file object (text or binary) on a node; writes become visible at flush/close"""

    def __init__(self, fs, node, name, mode, binary, read, write, append, newline=None, encoding='utf-8'):
        self.fs = fs
        self.node = node
        self.name = name
        self.mode = mode
        self.binary = binary
        self._r = read
        self._w = write
        self.append = append
        self.closed = False
        self.encoding = encoding or 'utf-8'
        self.newline = newline
        self.pending = []
        self.pos = 0
        self._text = None
        self._view = None
        fs.open_files.append(self)
        if append:
            self.base = node.content
        else:
            self.base = b'' if write and not read else node.content

    # -- helpers
    def _chk(self):
        if core.E.dead:
            raise Crash()
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def fileno(self):
        return FD(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    def _content(self):
        c = self.node.content if not self.pending else self._merged()
        return c

    def _merged(self):
        out = []
        for p in self.pending:
            if isinstance(p, (str, SStr)):
                p = p.encode(self.encoding)
            out.append(p)
        base = self.base
        if self._r and self._w and not self.append:
            # r+ style: overwrite from position (only whole-content rewrites are modelled)
            base = self.base
        return text.sx_join_bytes([base] + out)

    def _rest(self):
        c = self._content()
        if self.binary:
            return c
        if self._text is None:
            if any(isinstance(x, Junk) for x in els(c)):
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
            t = c.decode(self.encoding)
            if self.newline is None and text.contains(t, '\r'):
                t = t.replace('\r\n', '\n').replace('\r', '\n')
            self._text = t
        return self._text

    def read(self, n=-1):
        self._chk()
        if not self._r:
            raise _unsupported_op('not readable')
        c = self._rest()
        e = els(c)
        if self._view is not None and self._view[0] is c:
            e = self._view[1]
        mk = mk_bytes if self.binary else mk_str
        if n is None or (isinstance(n, int) and n < 0):
            r = mk(e[self.pos:])
            self.pos = len(e)
            return r
        if isinstance(n, SInt):
            n = n.__index__()
        rest = e[self.pos:]
        if all(type(x) is int or type(x) is text.Ch for x in rest):
            r = mk(rest[:n])
            self.pos += len(els(r))
            return r
        if len(rest) == 1 and isinstance(rest[0], text.Tok) and text.el_width(rest[0]) is None:
            if mk(rest).sx_len() <= n:
                self.pos = len(e)
                return mk(rest)
        parts = text.split_at(rest, n)
        if parts is None:
            if mk(rest).sx_len() <= n:
                self.pos = len(e)
                return mk(rest)
            raise Unsupported('partial read of opaque content')
        self._view = (c, e[:self.pos] + parts[0] + parts[1])
        self.pos += len(parts[0])
        return mk(parts[0])

    def readinto(self, b):
        return b.fill(self.read(b.sx_len()))
    readinto1 = readinto

    def readline(self, n=-1):
        self._chk()
        c = self._rest()
        e = els(c)
        if self._view is not None and self._view[0] is c:
            e = self._view[1]
        i = self.pos
        while i < len(e):
            x = e[i]
            i += 1
            if type(x) in (int, text.Ch) and text.el_eq(x, 10):
                break
        mk = mk_bytes if self.binary else mk_str
        r = mk(e[self.pos:i])
        self.pos = i
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(els(l)) == 0:
                return
            yield l

    def write(self, data):
        self._chk()
        if not self._w:
            raise _unsupported_op('not writable')
        if self.binary:
            if isinstance(data, (str, SStr)):
                raise TypeError("a bytes-like object is required, not 'str'")
            if isinstance(data, (bytearray, memoryview)):
                data = bytes(data)
        elif not isinstance(data, (str, SStr)):
            raise TypeError(f'write() argument must be str, not {type(data).__name__}')
        if not self.binary:
            data = text.encode_for_write(data, self.encoding)
        self.pending.append(data)
        return text.sx_len_of(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def seek(self, pos, whence=0):
        self._chk()
        if pos == 0 and whence == 0:
            self.pos = 0
            return 0
        self._view = None
        if whence == 2 and pos == 0:
            self.pos = len(els(self._rest()))
            return self._sz(self.pos)
        if whence == 0:
            c = self._rest()
            e = els(c)
            if all(type(x) is int or type(x) is text.Ch for x in e):
                self.pos = int(pos)
                return self.pos
        raise Unsupported('seek')

    def _sz(self, k):
        c = self._rest()
        e = els(c)
        if self._view is not None and self._view[0] is c:
            e = self._view[1]
        e = e[:k]
        n = 0
        for x in e:
            n = n + text.el_len(x)
        return n

    def tell(self):
        if self._w and not self._r:
            return text.sx_len_of(self._merged())
        return self._sz(self.pos)

    def truncate(self, size=None):
        self._chk()
        if size == 0 or size is None and self.pos == 0:
            self.pending = []
            self.base = b''
            self.node.content = b''
            return 0
        raise Unsupported('truncate')

    def _commit(self):
        if self._w and self.pending:
            self.base = self._merged()
            self.pending = []
            self.node.content = self.base
            self._text = None

    def flush(self):
        self._chk()
        if self._w and self.pending:
            self.fs.event('flush', self.name)
            self._commit()

    def close(self):
        if self.closed:
            return
        self.closed = True
        if core.E.dead:
            return
        if self in self.fs.open_files:
            self.fs.open_files.remove(self)
        if self._w:
            self.fs.event('close-w', self.fs.text_of(self.name))
            self._commit()

    def detach(self):
        return self

    @property
    def buffer(self):
        return self


class FD(int):
    def __new__(cls, f):
        o = int.__new__(cls, 100)
        o.file = f
        return o


def _unsupported_op(msg):
    import io
    return io.UnsupportedOperation(msg)


def parse_mode(mode):
    if any(c not in 'rwxabt+' for c in mode) or sum(c in 'rwxa' for c in mode) != 1:
        raise ValueError(f"invalid mode: {mode!r}")
    return dict(
        binary='b' in mode,
        read='r' in mode or '+' in mode,
        write='w' in mode or 'a' in mode or 'x' in mode or '+' in mode,
        create='w' in mode or 'a' in mode or 'x' in mode,
        excl='x' in mode,
        trunc='w' in mode,
        append='a' in mode)


def vopen(fs, p, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if core.E.dead:
        raise Crash()
    m = parse_mode(mode)
    if m['binary'] and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if isinstance(p, FD):
        f = p.file
        f.binary = m['binary']
        return f
    if isinstance(p, int):
        raise Unsupported('open of a file descriptor')
    if opener is not None:
        raise Unsupported('open with opener')
    node = fs.open_node(p, m['read'], m['write'], m['create'], m['excl'], m['trunc'])
    return VFile(fs, node, p, mode, m['binary'], m['read'], m['write'], m['append'], newline, encoding)
