"""zipfile, json, argparse"""
import argparse as _ap
import json as _json
import struct
import warnings
import zipfile as _zf
import zlib
from .. import core, text, loader, vfs
from ..containers import SymDict, sx_eq
from ..core import Unsupported, Crash, SInt, SBool, band, bor, bnot
from ..text import SStr, SBytes, Seq, Tok, els, mk_str, mk_bytes, Ch
from . import osmod
from .osmod import mod, W, vopen, fspath, TextIOWrapper


# ---------------------------------------------------------------------------
class Entry:
    __slots__ = ('name', 'content', 'damaged', 'is_dir', 'date')

    def __init__(self, name, content, damaged=False, date=(2020, 1, 1, 0, 0, 0)):
        self.name = name
        self.content = content
        self.damaged = damaged
        self.date = date


class ZipTok(Tok):
    """bytes of a zip archive"""
    __slots__ = ('entries', 'comment')

    def __init__(self, entries, comment=b''):
        self.entries = tuple(entries)
        self.comment = comment

    def eq(self, o):
        if type(o) is not ZipTok or len(o.entries) != len(self.entries):
            return False
        return band(sx_eq(self.comment, o.comment),
                    *[band(sx_eq(a.name, b.name), sx_eq(a.content, b.content), a.damaged == b.damaged) for a, b in zip(self.entries, o.entries)])

    def length(self):
        return text.tok_len(self, 'zip')


class ZipInfo:
    def __init__(self, filename='NoName', date_time=(1980, 1, 1, 0, 0, 0)):
        self.orig_filename = filename
        if text.contains(filename, '\0'):
            filename = filename.partition('\0')[0]
        self.filename = filename
        self.date_time = date_time
        self.compress_type = _zf.ZIP_STORED
        self.comment = b''
        self.extra = b''
        self.external_attr = 0
        self.create_system = 3
        self.file_size = 0
        self.compress_size = 0
        self.CRC = 0
        self.flag_bits = 0
        self.header_offset = 0
        self._e = None

    def is_dir(self):
        return bool(sx_endswith(self.filename, '/'))

    @classmethod
    def from_file(cls, filename, arcname=None, *, strict_timestamps=True):
        os = loader.STUBS['os']
        st = os.stat(filename)
        n = W.fs.walk(filename)
        isdir = isinstance(n, vfs.Dir)
        local = n.mtime + W.clock.offset(n.mtime)[0]
        if strict_timestamps and local < 315532800:
            raise ValueError('ZIP does not support timestamps before 1980')
        if arcname is None:
            arcname = fspath(filename)
        arcname = os.path.normpath(os.path.splitdrive(fspath(arcname))[1])
        while arcname[0] == '/':
            arcname = arcname[1:]
        if isdir:
            arcname = arcname + '/'
        z = cls(arcname)
        z._too_late = strict_timestamps and local >= 4354819200
        z.file_size = 0 if isdir else st.st_size
        z.external_attr = (st.st_mode & 0xFFFF) << 16
        return z

    def __repr__(self):
        return f'<ZipInfo {self.filename!r}>'


def sx_endswith(s, x):
    return s.endswith(x)


class ZipExtFile:
    def __init__(self, zf, info, e):
        self._zf = zf
        self.name = info.filename
        self.mode = 'r'
        self._io = osmod.BytesIO(e.content)
        self._damaged = e.damaged
        self.closed = False
        self.newlines = None

    def _chk(self):
        if self.closed:
            raise ValueError('read from closed file.')
        if core.E.dead:
            raise Crash()

    def read(self, n=-1):
        self._chk()
        if self._damaged == 'deflate':
            raise zlib.error('Error -3 while decompressing data: invalid block type')
        if self._damaged:
            raise _zf.BadZipFile(f"Bad CRC-32 for file {text.sx_repr(self.name)}")
        return self._io.read(n)
    read1 = read

    def readinto(self, b):
        return b.fill(self.read(b.sx_len()))
    readinto1 = readinto

    def readline(self, n=-1):
        self._chk()
        return self._io.readline()

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(els(l)):
                return
            yield l

    def peek(self, n=1):
        p = self._io.pos
        r = self._io.read(n)
        self._io.pos = p
        return r

    def seek(self, p, w=0):
        return self._io.seek(p, w)

    def tell(self):
        return self._io.tell()

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return True

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ZipWriteFile:
    def __init__(self, zf, info):
        self._zf = zf
        self._info = info
        self.parts = []
        self.closed = False

    def write(self, d):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if core.E.dead:
            raise Crash()
        if isinstance(d, (str, SStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.parts.append(bytes(d) if isinstance(d, (bytearray, memoryview)) else d)
        return text.sx_len_of(d)

    def writable(self):
        return True

    def readable(self):
        return False

    seekable = readable

    def flush(self):
        pass

    def tell(self):
        raise Unsupported('tell')

    def close(self):
        if self.closed:
            return
        self.closed = True
        self._zf._add(self._info, text.sx_join_bytes(self.parts))
        self._zf._writing = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ZipFile:
    fp = None

    def __init__(self, file, mode='r', compression=_zf.ZIP_STORED, allowZip64=True, compresslevel=None, *, strict_timestamps=True, metadata_encoding=None):
        if isinstance(mode, Seq):
            mode = mode.conc
        if mode not in ('r', 'w', 'x', 'a'):
            raise ValueError("ZipFile requires mode 'r', 'w', 'x', or 'a'")
        if compression not in (_zf.ZIP_STORED, _zf.ZIP_DEFLATED, _zf.ZIP_BZIP2, _zf.ZIP_LZMA):
            raise NotImplementedError('That compression method is not supported')
        self.mode = mode
        self.compression = compression
        self._comment = b''
        self.filelist = []
        self.NameToInfo = SymDict()
        self._writing = False
        self._strict = strict_timestamps
        self._did_modify = False
        self.debug = 0
        self.pwd = None
        if hasattr(type(file), '__fspath__'):
            file = fspath(file)
        if isinstance(file, (str, bytes, Seq)):
            self._passed = False
            self.filename = file
            if mode == 'r':
                self.fp = vopen(file, 'rb')
            elif mode == 'w':
                self.fp = vopen(file, 'w+b')
            elif mode == 'x':
                self.fp = vopen(file, 'x+b')
            else:
                try:
                    self.fp = vopen(file, 'r+b')
                except OSError:
                    self.fp = vopen(file, 'w+b')
        else:
            self._passed = True
            self.fp = file
            self.filename = getattr(file, 'name', None)
        try:
            if mode == 'r':
                self._load()
            elif mode in 'wx':
                self._did_modify = True
            else:
                try:
                    self._load()
                except _zf.BadZipFile:
                    self._did_modify = True
        except BaseException:
            fp, self.fp = self.fp, None
            if not self._passed:
                fp.close()
            raise
        W.zips_open += 1
        W.zips_peak = max(W.zips_peak, W.zips_open)

    def _load(self):
        data = self.fp.read()
        e = els(data)
        if len(e) != 1 or not isinstance(e[0], ZipTok):
            raise _zf.BadZipFile('File is not a zip file')
        self._comment = e[0].comment
        for en in e[0].entries:
            z = ZipInfo(en.name, en.date)
            z.file_size = text.sx_len_of(en.content)
            z.compress_size = z.file_size
            z._e = en
            self.filelist.append(z)
            self.NameToInfo[z.filename] = z

    @property
    def comment(self):
        return self._comment

    @comment.setter
    def comment(self, c):
        if not isinstance(c, (bytes, SBytes)):
            raise TypeError('comment: expected bytes, got %s' % type(c))
        self._comment = c
        self._did_modify = True

    def namelist(self):
        return [z.filename for z in self.filelist]

    def infolist(self):
        return self.filelist

    def getinfo(self, name):
        z = self.NameToInfo.get(name)
        if z is None:
            raise KeyError('There is no item named %r in the archive' % (text.sx_repr(name),))
        return z

    def _open_check(self):
        if core.E.dead:
            raise Crash()
        if not self.fp:
            raise ValueError('Attempt to use ZIP archive that was already closed')

    def open(self, name, mode='r', pwd=None, *, force_zip64=False):
        if mode not in ('r', 'w'):
            raise ValueError('open() requires mode "r" or "w"')
        self._open_check()
        if isinstance(name, ZipInfo):
            z = name
        elif mode == 'w':
            z = ZipInfo(name)
            z.compress_type = self.compression
        else:
            z = self.getinfo(name)
        if mode == 'w':
            return self._open_to_write(z)
        if self._writing:
            raise ValueError("Can't read from the ZIP file while there is an open writing handle on it.")
        if z._e is None:
            raise KeyError(z.filename)
        if self.mode == 'r' and getattr(self.fp, '_fault', None):
            raise vfs.oserr(self.fp._fault)
        if z._e.damaged == 'encryption':
            raise RuntimeError('File %r is encrypted, password required for extraction' % (text.sx_repr(z.filename),))
        if z._e.damaged == 'compression':
            raise NotImplementedError('That compression method is not supported')
        return ZipExtFile(self, z, z._e)

    def _open_to_write(self, z):
        if self.mode == 'r':
            raise ValueError("write() requires mode 'w', 'x', or 'a'")
        if self._writing:
            raise ValueError("Can't write to the ZIP file while there is another write handle open on it.")
        if self.NameToInfo.get(z.filename) is not None:
            warnings.warn('Duplicate name', stacklevel=3)
        check_utf8(z.filename)
        self._did_modify = True
        if getattr(z, '_too_late', False):
            raise struct.error('ushort format requires 0 <= number <= 65535')
        self._writing = True
        return ZipWriteFile(self, z)

    def _add(self, z, content):
        z._e = Entry(z.filename, content)
        z.file_size = text.sx_len_of(content)
        self.filelist.append(z)
        self.NameToInfo[z.filename] = z

    def read(self, name, pwd=None):
        with self.open(name) as f:
            return f.read()

    def write(self, filename, arcname=None, compress_type=None, compresslevel=None):
        if not self.fp:
            raise ValueError('Attempt to write to ZIP archive that was already closed')
        if self._writing:
            raise ValueError("Can't write to ZIP archive while an open writing handle exists")
        z = ZipInfo.from_file(filename, arcname, strict_timestamps=self._strict)
        if z.is_dir():
            self._open_to_write(z)
            self._writing = False
            self._add(z, b'')
            return
        with vopen(filename, 'rb') as src, self.open(z, 'w') as dest:
            loader.STUBS['shutil'].copyfileobj(src, dest, 1024 * 8)

    def writestr(self, z, data, compress_type=None, compresslevel=None):
        if isinstance(data, (str, SStr)):
            data = data.encode('utf-8')
        if not isinstance(z, ZipInfo):
            z = ZipInfo(z)
        if not self.fp:
            raise ValueError('Attempt to write to ZIP archive that was already closed')
        if self._writing:
            raise ValueError("Can't write to ZIP archive while an open writing handle exists.")
        with self.open(z, 'w') as d:
            d.write(data)

    def mkdir(self, name, mode=511):
        if not name.endswith('/'):
            name = name + '/'
        self._open_to_write(ZipInfo(name))
        self._writing = False
        self._add(ZipInfo(name), b'')

    def testzip(self):
        for z in self.filelist:
            try:
                self.read(z)
            except _zf.BadZipFile:
                return z.filename
        return None

    def extract(self, member, path=None, pwd=None):
        os = loader.STUBS['os']
        path = os.getcwd() if path is None else fspath(path)
        if not isinstance(member, ZipInfo):
            member = self.getinfo(member)
        parts = [p for p in member.filename.split('/') if len(els(p)) and not (p == '.') and not (p == '..')]
        target = os.path.normpath(os.path.join(path, text.sx_join('/', parts)))
        up = os.path.dirname(target)
        if len(els(up)) and not os.path.exists(up):
            os.makedirs(up)
        if member.is_dir():
            if not os.path.isdir(target):
                os.mkdir(target)
            return target
        with self.open(member) as src, vopen(target, 'wb') as dst:
            loader.STUBS['shutil'].copyfileobj(src, dst)
        return target

    def extractall(self, path=None, members=None, pwd=None):
        for m in (self.namelist() if members is None else members):
            self.extract(m, path)

    def setpassword(self, pwd):
        self.pwd = pwd

    def printdir(self, file=None):
        pass

    def close(self):
        if self.fp is None:
            return
        if core.E.dead:
            return
        if self._writing:
            raise ValueError("Can't close the ZIP file while there is an open writing handle on it. Close the writing handle before closing the zip.")
        fp, self.fp = self.fp, None
        W.zips_open -= 1
        if self.mode in ('w', 'x', 'a') and self._did_modify:
            tok = mk_bytes((ZipTok([z._e for z in self.filelist], self._comment),))
            if isinstance(fp, vfs.VFile):
                fp.pending = [tok]
                fp.base = b''
            else:
                fp.write(tok)
        if not self._passed:
            fp.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return '<ZipFile>'


def check_utf8(name):
    for x in els(name):
        if type(x) in (int, Ch) and text.char_in(x, ((0xd800, 0xdfff),)):
            raise UnicodeEncodeError('utf-8', '\udc80', 0, 1, 'surrogates not allowed')


def is_zipfile(f):
    try:
        d = vopen(f, 'rb').read() if isinstance(f, (str, Seq)) or hasattr(type(f), '__fspath__') else f.read()
    except OSError:
        return False
    e = els(d)
    return len(e) == 1 and isinstance(e[0], ZipTok)


def install_zip():
    m = mod('zipfile')
    for k in ('ZIP_STORED', 'ZIP_DEFLATED', 'ZIP_BZIP2', 'ZIP_LZMA', 'BadZipFile', 'BadZipfile', 'LargeZipFile', 'error'):
        setattr(m, k, getattr(_zf, k))
    m.ZipFile = ZipFile
    m.ZipInfo = ZipInfo
    m.ZipExtFile = ZipExtFile
    m.is_zipfile = is_zipfile


# ---------------------------------------------------------------------------
class JsonTok(Tok):
    __slots__ = ('v', 'opts', 'trunc')

    def __init__(self, v, opts):
        self.v = v
        self.opts = opts

    def eq(self, o):
        if type(o) is not JsonTok:
            return False
        r = json_eq(self.v, o.v, self.opts[1] and o.opts[1])
        if r is False:
            return False
        if self.opts == o.opts:
            return r
        # the same structure in another layout
        if self.opts[0] != o.opts[0] or self.opts[3] != o.opts[3]:
            if isinstance(self.v, (list, SymDict)) and len(self.v):
                return False
        if self.opts[1] != o.opts[1] or self.opts[2] != o.opts[2]:
            raise Unsupported('comparison of json texts written with different options')
        return r

    def length(self):
        return text.tok_len(self, 'json')


def json_eq(a, b, unordered):
    if isinstance(a, SymDict):
        if not isinstance(b, SymDict) or len(a) != len(b):
            return False
        if unordered:
            return _dict_eq(a, b)
        conj = []
        for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
            r = band(sx_eq(k1, k2), json_eq(v1, v2, unordered))
            if r is False:
                return False
            conj.append(r)
        return band(*conj)
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        return band(*[json_eq(x, y, unordered) for x, y in zip(a, b)])
    if isinstance(b, (SymDict, list)):
        return False
    sa, sb = isinstance(a, (str, Seq)), isinstance(b, (str, Seq))
    if sa or sb:
        return sx_eq(a, b) if sa and sb else False
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def _dict_eq(a, b):
    # exists a bijection: keys within one dict are distinct on this path
    conj = []
    bi = list(b.items())
    for k, v in a.items():
        alts = []
        for k2, v2 in bi:
            r = sx_eq(k, k2)
            if r is False:
                continue
            r = band(r, json_eq(v, v2, True))
            if r is not False:
                alts.append(r)
        if not alts:
            return False
        conj.append(bor(*alts))
    return band(*conj)


def to_struct(o, default, seen=0):
    if seen > 40:
        raise ValueError('Circular reference detected')
    if o is None or o is True or o is False:
        return o
    if isinstance(o, SBool):
        return bool(o)
    if isinstance(o, (str, SStr)):
        return mk_str(els(o))
    if isinstance(o, (bytes, SBytes)):
        pass
    elif isinstance(o, (int, SInt)):
        return o
    elif isinstance(o, (float, core.SFloat)):
        return o
    elif isinstance(o, (list, tuple)):
        return [to_struct(x, default, seen + 1) for x in o]
    elif isinstance(o, (dict, SymDict)):
        d = SymDict()
        for k, v in o.items():
            if k is True:
                k = 'true'
            elif k is False:
                k = 'false'
            elif k is None:
                k = 'null'
            elif isinstance(k, (int, SInt, float)):
                k = text.sx_str(k)
            elif not isinstance(k, (str, SStr)):
                raise TypeError(f'keys must be str, int, float, bool or None, not {type(k).__name__}')
            d[mk_str(els(k))] = to_struct(v, default, seen + 1)
        return d
    if default is not None:
        return to_struct(default(o), default, seen + 1)
    raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')


def dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    if cls is not None:
        enc = cls(skipkeys=skipkeys, ensure_ascii=ensure_ascii, indent=indent, sort_keys=sort_keys, default=default, **kw)
        default = enc.default
    s = to_struct(obj, default)
    return mk_str((JsonTok(s, (indent, bool(sort_keys), bool(ensure_ascii), separators)),))


def dump(obj, fp, **kw):
    fp.write(dumps(obj, **kw))


def bad(msg='Expecting value'):
    raise _json.JSONDecodeError(msg, '', 0)


def build(v, hook, pairs_hook=None):
    if isinstance(v, SymDict):
        items = [(k, build(x, hook, pairs_hook)) for k, x in v.items()]
        if pairs_hook is not None:
            return pairs_hook(items)
        d = SymDict()
        for k, x in items:
            d[k] = x
        return hook(d) if hook is not None else d
    if isinstance(v, list):
        return [build(x, hook, pairs_hook) for x in v]
    return v


def native_to_struct(v):
    if isinstance(v, dict):
        d = SymDict()
        for k, x in v.items():
            d[k] = native_to_struct(x)
        return d
    if isinstance(v, list):
        return [native_to_struct(x) for x in v]
    return v


def loads(s, *, cls=None, object_hook=None, parse_float=None, parse_int=None, parse_constant=None, object_pairs_hook=None, **kw):
    if isinstance(s, (bytes, SBytes)):
        s = s.decode('utf-8')
    elif not isinstance(s, (str, SStr)):
        raise TypeError(f'the JSON object must be str, bytes or bytearray, not {type(s).__name__}')
    e = els(s)
    ws = (32, 9, 10, 13)
    i, j = 0, len(e)
    while i < j and type(e[i]) is int and e[i] in ws:
        i += 1
    while j > i and type(e[j - 1]) is int and e[j - 1] in ws:
        j -= 1
    e = e[i:j]
    if len(e) == 1 and isinstance(e[0], JsonTok):
        return build(e[0].v, object_hook, object_pairs_hook)
    if text.is_conc(e):
        v = native_to_struct(_json.loads(''.join(map(chr, e))))
        return build(v, object_hook, object_pairs_hook)
    if any(isinstance(x, text.Ch) for x in e):
        raise Unsupported('json text with symbolic characters')
    bad()


def load(fp, **kw):
    return loads(fp.read(), **kw)


def install_json():
    class JSONEncoder:
        def __init__(self, **kw):
            self.kw = kw

        def default(self, o):
            d = self.kw.get('default')
            if d is not None:
                return d(o)
            raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')

        def encode(self, o):
            kw = {k: v for k, v in self.kw.items() if k != 'default'}
            return dumps(o, default=self.default, **kw)
    m = mod('json', dumps=dumps, dump=dump, loads=loads, load=load, JSONDecodeError=_json.JSONDecodeError, JSONEncoder=JSONEncoder)
    m.decoder = mod('json.decoder', JSONDecodeError=_json.JSONDecodeError)
    m.encoder = mod('json.encoder', JSONEncoder=JSONEncoder)


# ---------------------------------------------------------------------------
PH = 0xf500


class Placeholders:
    def __init__(self):
        self.vals = []

    def put(self, s):
        if not isinstance(s, Seq):
            return str(s)
        c = s.conc
        if c is not None:
            return c
        first = s.e[0]
        if type(first) is Ch and text.el_eq(first, 45):
            raise Unsupported('command line argument starting with a dash')
        for i, v in enumerate(self.vals):
            if v is s:
                return chr(PH + i)
        self.vals.append(s)
        return chr(PH + len(self.vals) - 1)

    def get(self, t):
        if not isinstance(t, str):
            return t
        if not any(PH <= ord(c) < PH + len(self.vals) for c in t):
            return t
        out = []
        for c in t:
            o = ord(c)
            if PH <= o < PH + len(self.vals):
                out.append(self.vals[o - PH])
            else:
                out.append(c)
        return text.sx_join('', out)


def install_argparse():
    m = mod('argparse')
    m.__dict__.update({k: v for k, v in vars(_ap).items() if not k.startswith('__')})

    class ArgumentParser(_ap.ArgumentParser):
        def __init__(self, prog=None, *a, **k):
            super().__init__('bead' if prog is None else prog, *a, **k)

        def _get_value(self, action, arg_string):
            type_func = self._registry_get('type', action.type, action.type)
            value = W.ph.get(arg_string)
            try:
                return type_func(value)
            except _ap.ArgumentTypeError as err:
                raise _ap.ArgumentError(action, text_native(err))
            except (TypeError, ValueError) as e:
                if loader.proxy_error(e):
                    raise Unsupported(str(e))
                name = getattr(action.type, '__name__', repr(action.type))
                raise _ap.ArgumentError(action, f'invalid {name} value: {arg_string!r}')

        def parse_args(self, args=None, namespace=None):
            if args is not None:
                args = [W.ph.put(a) for a in args]
            return super().parse_args(args, namespace)

        def parse_known_args(self, args=None, namespace=None):
            if args is not None:
                args = [W.ph.put(a) for a in args]
            return super().parse_known_args(args, namespace)

        def _print_message(self, message, file=None):
            if message:
                s = loader.STUBS['sys']
                (s.stdout if file is _ap._sys.stdout else s.stderr).write(W.ph.get(message))

        def print_help(self, file=None):
            try:
                t = self.format_help()
            except (TypeError, AttributeError) as e:
                t = 'usage: help'
            self._print_message(t, _ap._sys.stdout if file is None else file)
    m.ArgumentParser = ArgumentParser


def text_native(e):
    return ' '.join(str(a) for a in e.args)


def install():
    install_zip()
    install_json()
    install_argparse()
