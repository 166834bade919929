"""os, posixpath, genericpath, fnmatch, pathlib, shutil, io, tempfile on the in-memory file system."""
import ast
import errno as _errno
import io as _rio
import os as _os
import stat as _stat
import sys as _sys
import types
from .. import core, text, loader, vfs
from ..containers import SymDict
from ..core import Unsupported, Crash, SInt
from ..text import SStr, SBytes, Seq, els, mk_str, mk_bytes

STDLIB = _os.path.dirname(_os.__file__)


class World:
    """the state of the simulated machine on the current path"""
    fs = None


W = World()


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    loader.STUBS[name] = m
    return m


def fspath(p):
    if isinstance(p, (str, bytes, Seq)):
        return p
    f = getattr(type(p), '__fspath__', None)
    if f is None:
        raise TypeError(f'expected str, bytes or os.PathLike object, not {type(p).__name__}')
    r = f(p)
    if isinstance(r, (str, bytes, Seq)):
        return r
    raise TypeError('expected __fspath__() to return str or bytes')


class DirEntry:
    def __init__(self, d, name, base, node):
        self.name = name
        self.path = text.sx_join('', [base, name]) if els(base)[-1:] == (47,) else text.sx_join('', [base, '/', name])
        self._n = node
        self._d = d

    def _node(self, follow):
        if follow and isinstance(self._n, vfs.Link):
            return W.fs.walk(self.path)
        return self._n

    def _is(self, kind, follow):
        try:
            return isinstance(self._node(follow), kind)
        except FileNotFoundError:
            return False

    def is_dir(self, *, follow_symlinks=True):
        return self._is(vfs.Dir, follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        try:
            n = self._node(follow_symlinks)
        except FileNotFoundError:
            return False
        return isinstance(n, vfs.File) and not n.special

    def is_symlink(self):
        return isinstance(self._n, vfs.Link)

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return vfs.StatResult(self._node(follow_symlinks))

    def inode(self):
        return self._n.ino

    def __fspath__(self):
        return self.path


class ScanDir:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def scandir(path='.'):
    p = fspath('.' if path is None else path)
    fs = W.fs
    names = fs.listdir(p)
    d = fs.walk(p)
    return ScanDir([DirEntry(d, n, p, d.entries[n]) for n in names])


def stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, vfs.FD):
        return vfs.StatResult(path.file.node)
    return vfs.StatResult(W.fs.walk(path, follow_symlinks))


def lstat(path, *, dir_fd=None):
    return vfs.StatResult(W.fs.walk(path, False))


def readlink(path, *, dir_fd=None):
    n = W.fs.walk(path, False)
    if not isinstance(n, vfs.Link):
        raise vfs.oserr(_errno.EINVAL, path)
    return n.target


def access(path, mode, **k):
    try:
        n = W.fs.walk(path)
    except OSError:
        return False
    bits = n.mode >> 6 & 7
    return (bits & mode) == mode


def unlink(path, *, dir_fd=None):
    W.fs.unlink(path)


def remove(path, *, dir_fd=None):
    W.fs.unlink(path)


def rmdir(path, *, dir_fd=None):
    W.fs.rmdir(path)


def mkdir(path, mode=0o777, *, dir_fd=None):
    W.fs.mkdir(path, mode)


def chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, vfs.FD):
        path.file.node.mode = int(mode) & 0o7777
        return
    W.fs.chmod(path, mode, follow_symlinks)


def rename(src, dst, **k):
    W.fs.rename(src, dst)


def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    W.fs.symlink(src, dst)


def link(src, dst, *, follow_symlinks=True, **k):
    W.fs.link(src, dst, follow_symlinks)


def utime(path, times=None, *, ns=None, **k):
    n = W.fs.walk(path)
    if times is not None:
        n.mtime = core.floor(times[1]) if isinstance(times[1], (float, core.SFloat)) else times[1]
    elif ns is not None:
        n.mtime = ns[1] // 1000000000
    else:
        n.mtime = W.clock.us // 1000000


def getcwd():
    if W.fs.cwd.deleted:
        raise FileNotFoundError(_errno.ENOENT, 'No such file or directory')
    return W.fs.path_of(W.fs.cwd)


def chdir(path):
    n = W.fs.walk(path)
    if not isinstance(n, vfs.Dir):
        raise vfs.oserr(_errno.ENOTDIR, path)
    if not W.fs.may(n, 1):
        raise vfs.oserr(_errno.EACCES, path)
    W.fs.cwd = n


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    acc = flags & (_os.O_RDONLY | _os.O_WRONLY | _os.O_RDWR)
    w = acc in (_os.O_WRONLY, _os.O_RDWR)
    r = acc in (_os.O_RDONLY, _os.O_RDWR)
    n = W.fs.walk(path) if not w and W.fs.exists(path) else None
    if isinstance(n, vfs.Dir):
        f = vfs.VFile(W.fs, vfs.File(b''), path, 'rb', True, True, False, False)
        f.node = n
        return vfs.FD(f)
    node = W.fs.open_node(path, r, w, bool(flags & _os.O_CREAT), bool(flags & _os.O_EXCL and flags & _os.O_CREAT),
                          bool(flags & _os.O_TRUNC), mode)
    return vfs.FD(vfs.VFile(W.fs, node, path, 'r+b' if w and r else 'wb' if w else 'rb', True, r, w, bool(flags & _os.O_APPEND)))


def os_close(fd):
    if isinstance(fd, vfs.FD):
        fd.file.close()


def os_write(fd, data):
    return fd.file.write(data)


def os_read(fd, n):
    return fd.file.read(n)


def fsync(fd):
    if not isinstance(fd, vfs.FD):
        fd = fd.fileno()


def fdopen(fd, mode='r', *a, **k):
    return vopen(fd, mode, *a, **k)


def vopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(mode, Seq):
        mode = mode.conc
    return vfs.vopen(W.fs, file, mode, buffering, encoding, errors, newline, closefd, opener)


def fsencode(p):
    p = fspath(p)
    return p.encode('utf-8', 'surrogateescape') if isinstance(p, (str, SStr)) else p


def fsdecode(p):
    p = fspath(p)
    return p if isinstance(p, (str, SStr)) else p.decode('utf-8', 'surrogateescape')


environ = SymDict()


def getenv(k, default=None):
    return environ.get(k, default)


def load_std(name, file, keep=None, ns=None, patch=None):
    """instrument a pure Python module of the standard library"""
    path = _os.path.join(STDLIB, file)
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read(), path)
    if keep is not None:
        tree.body = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in keep]
    tree = loader.Rewrite('std.' + name, record=False).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    m = types.ModuleType(name)
    if ns is not None:
        m = ns
    m.__dict__['__builtins__'] = loader.BUILTINS
    m.__dict__['__name__'] = name
    loader.STUBS[name] = m
    exec(code, m.__dict__)
    return m


class _NoAudit:
    def __call__(self, *a):
        pass


def install():
    import posixpath as _rpp
    o = mod('os', **{k: v for k, v in vars(_os).items() if k.startswith(('O_', 'EX_', 'SEEK_', 'F_', 'R_', 'W_', 'X_'))})
    o.__dict__.update(
        name='posix', sep='/', linesep='\n', curdir='.', pardir='..', extsep='.', altsep=None, pathsep=':', defpath='/bin:/usr/bin', devnull='/dev/null',
        error=OSError, PathLike=_os.PathLike, fspath=fspath, fsencode=fsencode, fsdecode=fsdecode,
        listdir=lambda p='.': W.fs.listdir('.' if p is None else p), scandir=scandir, stat=stat, lstat=lstat, readlink=readlink, access=access,
        unlink=unlink, remove=remove, rmdir=rmdir, mkdir=mkdir, chmod=chmod, rename=rename, replace=rename,
        symlink=symlink, link=link, utime=utime, getcwd=getcwd, chdir=chdir, open=os_open, close=os_close, write=os_write,
        read=os_read, fsync=fsync, fdatasync=fsync, fdopen=fdopen, environ=environ, getenv=getenv,
        getpid=lambda: 4242, getuid=lambda: 65534, geteuid=lambda: 65534, getgid=lambda: 65534, umask=lambda m: 0o022,
        cpu_count=lambda: 1, stat_result=vfs.StatResult, DirEntry=DirEntry, urandom=lambda n: bytes(range(n)), sync=lambda: None,
        supports_dir_fd=set(), supports_fd=set(), supports_follow_symlinks={stat, chmod, link}, supports_effective_ids=set(),
        isatty=lambda fd: False, get_terminal_size=lambda *a: _os.terminal_size((80, 24)), fstat=lambda fd: stat(fd),
        strerror=_os.strerror, kill=None, system=None, getlogin=lambda: 'u', terminal_size=_os.terminal_size,
    )
    for bad in ('kill', 'system'):
        delattr(o, bad)
    loader.BUILTINS['open'] = vopen
    mod('posix')
    # generic path code of the standard library, instrumented
    gp = load_std('genericpath', 'genericpath.py')
    pp = load_std('posixpath', 'posixpath.py')
    o.path = pp
    mod('os.path').__dict__.update(pp.__dict__)
    loader.STUBS['os.path'] = pp
    load_std('os', 'os.py', keep={'makedirs', 'removedirs', 'renames', 'walk', 'get_exec_path'}, ns=o)
    o.__dict__['st'] = _stat
    o.__dict__['path'] = pp
    o.__dict__['_walk_symlinks_as_files'] = object()
    # os.walk of 3.12 refers to module level helpers
    o.__dict__['sys'] = _sys
    o.__dict__['fspath'] = fspath
    install_fnmatch()
    install_io()
    load_std('shutil', 'shutil.py')
    sh = loader.STUBS['shutil']
    sh._use_fd_functions = False
    sh.get_terminal_size = lambda fallback=(80, 24): _os.terminal_size(fallback)
    pl = load_std('pathlib', 'pathlib.py')
    from ..containers import SYM, ckey

    def path_key(self):
        c = ckey(self._str_normcase)
        return SYM if c is SYM else ('path', c)
    pl.PurePath.sx_ckey = path_key
    pl.PurePath.__deepcopy__ = lambda self, memo: self
    loader.PATHCLS = pl.PurePath
    pl.Path.owner = lambda self: 'u'
    install_tempfile()
    load_std('shlex', 'shlex.py')
    load_std('glob', 'glob.py')


class GlobPat(text.Tok):
    """regular expression equivalent of a glob pattern that contains symbolic text"""
    __slots__ = ('pat',)

    def __init__(self, pat):
        self.pat = pat

    def eq(self, o):
        return type(o) is GlobPat and text.elems_eq(self.pat, o.pat)


def parse_glob(e):
    """items: ('lit', el) | ('?',) | ('*',) | ('set', negate, ranges)"""
    from ..text import Ch, char_in
    out = []
    i, n = 0, len(e)
    while i < n:
        c = e[i]
        i += 1
        if type(c) not in (int, Ch):
            out.append(('lit', c))
            continue
        if type(c) is Ch and not char_in(c, ((42, 42), (63, 63), (91, 91))):
            out.append(('lit', c))
            continue
        if text.el_eq(c, 42):
            if not out or out[-1][0] != '*':
                out.append(('*',))
        elif text.el_eq(c, 63):
            out.append(('?',))
        elif text.el_eq(c, 91):
            j = i
            if j < n and text.el_eq(e[j], 33):
                j += 1
            if j < n and text.el_eq(e[j], 93):
                j += 1
            while j < n and not text.el_eq(e[j], 93):
                j += 1
            if j >= n:
                out.append(('lit', 91))
            else:
                body = list(e[i:j])
                neg = bool(body and text.el_eq(body[0], 33))
                if neg:
                    body = body[1:]
                items = []
                k = 0
                while k < len(body):
                    if k + 2 < len(body) and text.el_eq(body[k + 1], 45):
                        items.append((body[k], body[k + 2]))
                        k += 3
                    else:
                        items.append((body[k], body[k]))
                        k += 1
                out.append(('set', neg, items))
                i = j + 1
        else:
            out.append(('lit', c))
    return out


def glob_match(items, e):
    """whole text match; bool"""
    from ..text import Ch
    from ..core import band, bor, bnot, ix

    def one(it, c):
        if it[0] == 'lit':
            return text.el_eq(it[1], c)
        if type(c) not in (int, Ch):
            return False
        if it[0] == '?':
            return True
        cx = c if type(c) is int else c.x
        conds = []
        for lo, hi in it[2]:
            l = lo if type(lo) is int else lo.x
            h = hi if type(hi) is int else hi.x
            if type(cx) is int and type(l) is int and type(h) is int:
                conds.append(l <= cx <= h)
            else:
                conds.append(band(core.mk_bool(core.z3.IntVal(l) <= cx if type(l) is int else l <= cx),
                                  core.mk_bool(cx <= (core.z3.IntVal(h) if type(h) is int else h))))
        r = bor(*conds) if conds else False
        return bnot(r) if it[1] else r

    def go(i, j):
        if i == len(items):
            return j == len(e)
        if items[i][0] == '*':
            for k in range(j, len(e) + 1):
                if go(i + 1, k):
                    return True
            return False
        if j >= len(e):
            return False
        if not one(items[i], e[j]):
            return False
        return go(i + 1, j + 1)
    # cheap rejection: fixed tail
    return bool(go(0, 0))


def install_fnmatch():
    import fnmatch as _fn

    def translate(pat):
        if isinstance(pat, Seq):
            c = pat.conc
            if c is None:
                return text.SStr._mk((GlobPat(pat.e),))
            pat = c
        return _fn.translate(pat)

    def fnmatchcase(name, pat):
        return glob_match(parse_glob(els(pat)), els(name))

    def filter_(names, pat):
        items = parse_glob(els(pat))
        return [n for n in names if glob_match(items, els(n))]

    mod('fnmatch', translate=translate, fnmatch=fnmatchcase, fnmatchcase=fnmatchcase, filter=filter_)


# ---------------------------------------------------------------------------
class TextIOWrapper:
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False):
        self.buffer = buffer
        self.encoding = encoding or 'utf-8'
        self.closed_ = False
        self.pending = []
        self._text = None
        self.pos = 0

    @property
    def closed(self):
        return self.closed_ or getattr(self.buffer, 'closed', False)

    def _load(self):
        if self._text is None:
            raw = self.buffer.read()
            if any(isinstance(x, vfs.Junk) for x in els(raw)):
                raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
            t = raw.decode(self.encoding)
            if text.contains(t, '\r'):
                t = t.replace('\r\n', '\n').replace('\r', '\n')
            self._text = t
        return els(self._text)

    def read(self, n=-1):
        e = self._load()
        r = mk_str(e[self.pos:]) if n is None or n < 0 else mk_str(e[self.pos:self.pos + n])
        self.pos += len(els(r))
        return r

    def readline(self):
        e = self._load()
        i = self.pos
        while i < len(e):
            x = e[i]
            i += 1
            if type(x) in (int, text.Ch) and text.el_eq(x, 10):
                break
        r = mk_str(e[self.pos:i])
        self.pos = i
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(els(l)):
                return
            yield l

    def write(self, s):
        if not isinstance(s, (str, SStr)):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        if getattr(self.buffer, 'closed', False):
            raise ValueError('I/O operation on closed file.')
        d = text.encode_for_write(s, self.encoding)
        # a text layer that is dropped without flush flushes when it is collected;
        # CPython does that at once by reference counting
        self.buffer.write(d)
        return text.sx_len_of(s)

    def flush(self):
        if hasattr(self.buffer, 'flush'):
            self.buffer.flush()

    def detach(self):
        return self.buffer

    def close(self):
        if not self.closed_:
            self.closed_ = True
            self.buffer.close()

    def readable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class MemIO:
    def __init__(self, initial=None, newline='\n'):
        self.data = list(els(initial)) if initial else []
        self.pos = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, d):
        self._chk()
        e = els(d)
        if not self.binary and not isinstance(d, (str, SStr)):
            raise TypeError(f'string argument expected, got {type(d).__name__!r}')
        if self.binary and isinstance(d, (str, SStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.data[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        return text.sx_len_of(d)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, n=-1):
        self._chk()
        if n is None or n < 0:
            r = self.data[self.pos:]
        else:
            n = int(n)
            r = self.data[self.pos:self.pos + n]
            if any(type(x) not in (int, text.Ch) for x in r):
                rest = tuple(self.data[self.pos:])
                parts = text.split_at(rest, n)
                if parts is not None:
                    self.data[self.pos:] = parts[0] + parts[1]
                    r = parts[0]
                elif self._mk(rest).sx_len() <= n:
                    r = rest
                else:
                    raise Unsupported('partial read of opaque content')
        self.pos += len(r)
        return self._mk(tuple(r))

    read1 = read

    def readline(self, n=-1):
        i = self.pos
        while i < len(self.data):
            x = self.data[i]
            i += 1
            if type(x) in (int, text.Ch) and text.el_eq(x, 10):
                break
        r = self._mk(tuple(self.data[self.pos:i]))
        self.pos = i
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(els(l)):
                return
            yield l

    def getvalue(self):
        self._chk()
        return self._mk(tuple(self.data))

    def seek(self, p, whence=0):
        self.pos = int(p) if whence == 0 else self.pos + int(p) if whence == 1 else len(self.data) + int(p)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else int(n)
        del self.data[n:]
        return n

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return True
    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StringIO(MemIO):
    binary = False
    _mk = staticmethod(mk_str)


class BytesIO(MemIO):
    binary = True
    _mk = staticmethod(mk_bytes)

    def getbuffer(self):
        return self.getvalue()


def install_io():
    mod('io', open=vopen, open_code=lambda p: vopen(p, 'rb'), TextIOWrapper=TextIOWrapper, StringIO=StringIO, BytesIO=BytesIO,
        UnsupportedOperation=_rio.UnsupportedOperation, text_encoding=lambda e, *a: 'utf-8' if e is None else e,
        SEEK_SET=0, SEEK_CUR=1, SEEK_END=2, DEFAULT_BUFFER_SIZE=8192, IOBase=_rio.IOBase, RawIOBase=_rio.RawIOBase,
        BufferedIOBase=_rio.BufferedIOBase, TextIOBase=_rio.TextIOBase, BlockingIOError=BlockingIOError)


def install_tempfile():
    import contextlib

    def gettempdir():
        return '/tmp'

    def _name(prefix, suffix, dir):
        W.fs.tmp_counter += 1
        n = text.sx_join('', [prefix if prefix is not None else 'tmp', f'sx{W.fs.tmp_counter:08d}', suffix or ''])
        d = gettempdir() if dir is None else dir
        pp = loader.STUBS['posixpath']
        return pp.abspath(pp.join(d, n))

    def mkdtemp(suffix=None, prefix=None, dir=None):
        p = _name(prefix, suffix, dir)
        mkdir(p, 0o700)
        return p

    def mkstemp(suffix=None, prefix=None, dir=None, text=False):
        p = _name(prefix, suffix, dir)
        fd = os_open(p, _os.O_RDWR | _os.O_CREAT | _os.O_EXCL, 0o600)
        fd.file.mode = 'r+b'
        return fd, p

    def mktemp(suffix='', prefix='tmp', dir=None):
        return _name(prefix, suffix, dir)

    class TemporaryDirectory:
        def __init__(self, suffix=None, prefix=None, dir=None, ignore_cleanup_errors=False, *, delete=True):
            self.name = mkdtemp(suffix, prefix, dir)

        def cleanup(self):
            loader.STUBS['shutil'].rmtree(self.name)

        def __enter__(self):
            return self.name

        def __exit__(self, *a):
            self.cleanup()

    class _Named:
        def __init__(self, f, name, delete):
            self.file = f
            self.name = name
            self.delete = delete

        def __getattr__(self, n):
            return getattr(self.file, n)

        def close(self):
            if not self.file.closed:
                self.file.close()
                if self.delete and W.fs.exists(self.name):
                    unlink(self.name)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __iter__(self):
            return iter(self.file)

    def NamedTemporaryFile(mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, *, errors=None, delete_on_close=True):
        fd, p = mkstemp(suffix, prefix, dir)
        f = vopen(fd, mode, encoding=encoding)
        return _Named(f, p, delete and delete_on_close)

    mod('tempfile', mkdtemp=mkdtemp, mkstemp=mkstemp, mktemp=mktemp, TemporaryDirectory=TemporaryDirectory,
        NamedTemporaryFile=NamedTemporaryFile, gettempdir=gettempdir, TemporaryFile=NamedTemporaryFile, tempdir=None)
