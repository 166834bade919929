"""Concrete side: runs a harness natively against the real code, real files, real SQLite and real zip files.

Run as   /opt/venv/bin/python concrete.py SCRATCH   by an unprivileged user;
reads one json job per line and answers with one json line.
"""
import builtins
import datetime as _dt
import io
import json
import os
import shutil
import signal
import sys
import time
import traceback

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# -- clock --------------------------------------------------------------------
class Clk:
    us = None


_real_dt = _dt.datetime
_real_time, _real_ns, _real_local, _real_gm = time.time, time.time_ns, time.localtime, time.gmtime


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_dt)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_dt)


class FakeDatetime(_real_dt, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if Clk.us is None:
            return _real_dt.now(tz)
        sec, us = divmod(Clk.us, 1000000)
        return _real_dt.fromtimestamp(sec, tz).replace(microsecond=us)

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    def __new__(cls, *a, **k):
        return _real_dt.__new__(_real_dt, *a, **k)


for _n in ('fromtimestamp', 'strptime', 'combine', 'fromisoformat', 'utcfromtimestamp', 'fromordinal', 'fromisocalendar'):
    setattr(FakeDatetime, _n, staticmethod(getattr(_real_dt, _n)))
FakeDatetime.min, FakeDatetime.max, FakeDatetime.resolution = _real_dt.min, _real_dt.max, _real_dt.resolution


class FakeDate(_dt.date):
    @classmethod
    def today(cls):
        return FakeDatetime.now().date()


def install_clock():
    _dt.datetime = FakeDatetime
    time.time = lambda: _real_time() if Clk.us is None else Clk.us / 1e6
    time.time_ns = lambda: _real_ns() if Clk.us is None else Clk.us * 1000
    time.localtime = lambda s=None: _real_local(Clk.us // 1000000 if s is None and Clk.us is not None else s)
    time.gmtime = lambda s=None: _real_gm(Clk.us // 1000000 if s is None and Clk.us is not None else s)


# -- directory order ---------------------------------------------------------
class Order:
    mode = 'ino'        # ino | rev | name | os


_real_listdir, _real_scandir = os.listdir, os.scandir


def _key(base):
    def k(n):
        try:
            return os.lstat(os.path.join(base, n)).st_ino
        except OSError:
            return 0
    return k


def _arrange(names, base, get):
    if Order.mode == 'os':
        return names
    if Order.mode == 'name':
        return sorted(names, key=get)
    names = sorted(names, key=lambda n: _key(base)(get(n)))
    return names[::-1] if Order.mode == 'rev' else names


def listdir(path='.'):
    r = _real_listdir(path)
    if isinstance(path, int):
        return r
    return _arrange(r, path if path is not None else '.', lambda n: n)


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def scandir(path='.'):
    if isinstance(path, int):
        return _real_scandir(path)
    with _real_scandir(path) as it:
        r = list(it)
    return _Scan(_arrange(r, path if path is not None else '.', lambda e: e.name))


def install_order():
    os.listdir = listdir
    os.scandir = scandir


# -- mutation events ------------------------------------------------------------
class Ev:
    on = False
    n = 0
    crash_at = fault_at = None
    errno = 28
    log = []
    faults = {}
    sql = None


class _Fault(OSError):
    pass


def event(kind, path):
    if not Ev.on or str(path).startswith('/dev/null'):
        return
    n = Ev.n
    Ev.n += 1
    Ev.log.append((kind, str(path)))
    if Ev.crash_at is not None and Ev.crash_at == n:
        Ev.on = False
        os._exit(99)
    if Ev.fault_at is not None and Ev.fault_at == n:
        if Ev.errno is None:
            raise KeyboardInterrupt
        raise OSError(Ev.errno, os.strerror(Ev.errno), path)


def read_fault(path, mode, flags):
    if isinstance(path, int) or not isinstance(flags, int) or flags & (os.O_WRONLY | os.O_RDWR | os.O_DIRECTORY):
        return
    f = Ev.faults.get(os.path.abspath(os.fsdecode(path)))
    if f:
        if f[1] <= 0:
            f[1] = -1
            if f[0] < 0:
                raise KeyboardInterrupt
            raise OSError(f[0], os.strerror(f[0]), path)
        f[1] -= 1


# -- another process ---------------------------------------------------------------
class Mw:
    m = None            # what meanwhile() asked for
    on = False          # in the command, that is to be interrupted
    conns = None


def point(kind, path):
    m = Mw.m
    if not Mw.on or m['ran'] or any(c.in_transaction for c in Mw.conns if not c.sx_closed) or m['kinds'] is not None and kind not in m['kinds']:
        return
    if isinstance(path, int):
        return
    t = os.path.join(os.getcwd(), os.fsdecode(path))
    if m['under'] is not None and not t.startswith(m['under']):
        return
    m['n'] += 1
    if m['n'] <= m['at']:
        return
    m['ran'] = True
    Mw.on = False
    on, Ev.on = Ev.on, False
    os.write(m['go'], b'g')
    b = os.read(m['done'], 10)
    if b:
        Clk.us = int.from_bytes(b, 'little', signed=True)
    Ev.on = on
    Mw.on = True


KINDS = {'os.mkdir': 'mkdir', 'os.chmod': 'chmod', 'os.remove': 'remove', 'os.rmdir': 'rmdir', 'os.rename': 'rename', 'os.listdir': 'list', 'os.scandir': 'list',
         'sqlite3.connect': 'connect'}


def sql_fault(sql):
    import re
    f = Ev.sql
    if not Ev.on or f is None or sql is not None and not re.match(r'\s*(insert|replace|update|delete)\b', sql, re.I):
        return
    n, f['n'] = f['n'], f['n'] + 1
    if n == f['at'] or n > f['at'] and f['stays']:
        f['hit'] = True
        import sqlite3
        raise sqlite3.OperationalError(f['message'])


def install_sql():
    import sqlite3
    real = sqlite3.connect

    class Cursor(sqlite3.Cursor):
        def execute(self, sql, *a):
            c = self.connection
            if Mw.on and c.sx_path is not None and not c.in_transaction:
                point('sql', c.sx_path)
            sql_fault(sql)
            return super().execute(sql, *a)

        def executemany(self, sql, *a):
            c = self.connection
            if Mw.on and c.sx_path is not None and not c.in_transaction:
                point('sql', c.sx_path)
            sql_fault(sql)
            return super().executemany(sql, *a)

    class Connection(sqlite3.Connection):
        sx_path = None
        sx_closed = False

        def cursor(self, factory=Cursor):
            return super().cursor(factory)

        def execute(self, *a):
            return self.cursor().execute(*a)

        def executemany(self, *a):
            return self.cursor().executemany(*a)

        def commit(self):
            if self.in_transaction:
                sql_fault(None)
            super().commit()

        def __exit__(self, t, v, tb):
            if t is None:
                self.commit()
            else:
                self.rollback()

        def close(self):
            self.sx_closed = True
            return super().close()

    def connect(database, *a, **k):
        if not (Mw.on or Ev.on and Ev.sql) or database == ':memory:':
            return real(database, *a, **k)
        p = os.fsdecode(database)
        if k.get('uri') and p.startswith('file:'):
            from urllib.parse import unquote
            p = unquote(p[5:].split('?')[0])
            if p.startswith('//'):
                p = p[2:]
        point('connect', p)
        k.setdefault('factory', Connection)
        c = real(database, *a, **k)
        if isinstance(c, Connection):
            c.sx_path = p
            if Mw.on:
                Mw.conns.append(c)
        return c
    sqlite3.connect = sqlite3.dbapi2.connect = connect


def audit(name, args):
    if name == 'open' and Ev.faults:
        read_fault(*args)
    if Mw.on:
        if name == 'open':
            path, mode, flags = args
            if isinstance(flags, int) and not flags & os.O_DIRECTORY and str(path) != os.devnull:
                point('open-w' if flags & (os.O_WRONLY | os.O_RDWR) else 'open-r', path)
        elif name in KINDS and name != 'sqlite3.connect' and args[0] is not None:
            point(KINDS[name], args[0])
        elif name == 'os.symlink' or name == 'os.link':
            point(name[3:], args[1])
    if not Ev.on:
        return
    if name == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        if flags is None or not isinstance(flags, int):
            w = mode is not None and any(c in mode for c in 'wax+')
        else:
            w = bool(flags & (os.O_WRONLY | os.O_RDWR))
        if w:
            event('open-w', path)
    elif name == 'os.mkdir':
        event('mkdir', args[0])
    elif name == 'os.chmod':
        if not isinstance(args[0], int):
            event('chmod', args[0])
    elif name == 'os.remove':
        event('remove', args[0])
    elif name == 'os.rmdir':
        event('rmdir', args[0])
    elif name == 'os.rename':
        event('rename', args[0])
    elif name == 'os.symlink':
        event('symlink', args[1])
    elif name == 'os.link':
        event('link', args[1])


_real_open = io.open


def _closing(base):
    class F(base):
        _sx_w = True

        def close(self):
            if not self.closed and self._sx_w:
                self._sx_w = False
                point('close-w', getattr(self, 'name', '?'))
                event('close-w', getattr(self, 'name', '?'))
            return base.close(self)
    F.__name__ = base.__name__
    return F


_BW, _BR, _TW = _closing(io.BufferedWriter), _closing(io.BufferedRandom), _closing(io.TextIOWrapper)


def sx_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not Ev.on or not any(c in mode for c in 'wax+') or buffering == 0:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = io.FileIO(file, mode.replace('b', '').replace('t', ''), closefd, opener)
    buf = (_BR if '+' in mode else _BW)(raw)
    if 'b' in mode:
        return buf
    buf._sx_w = False
    t = _TW(buf, encoding or 'utf-8', errors, newline)
    t.mode = mode
    return t


def install_events():
    sys.addaudithook(audit)
    io.open = sx_open
    builtins.open = sx_open


# -- open zip files --------------------------------------------------------------
class Zips:
    open = peak = 0


def install_zips():
    import zipfile
    oi, oc = zipfile.ZipFile.__init__, zipfile.ZipFile.close

    def init(self, *a, **k):
        oi(self, *a, **k)
        Zips.open += 1
        Zips.peak = max(Zips.peak, Zips.open)

    def close(self):
        if self.fp is not None:
            Zips.open -= 1
        return oc(self)
    zipfile.ZipFile.__init__ = init
    zipfile.ZipFile.close = close


class Stop(BaseException):
    pass


class Result:
    def __init__(self, code, out, err, crashed):
        self.code, self.out, self.err, self.crashed = code, out, err, crashed

    @property
    def internal(self):
        return 'report this problem' in self.err

    def __repr__(self):
        return f'<Result {self.code} crashed={self.crashed} out={self.out!r} err={self.err!r}>'


def posix_tz(std, dst, trans):
    def off(s):
        s = -s
        sign = '-' if s < 0 else ''
        s = abs(s)
        t = f'{sign}{s // 3600}'
        if s % 3600:
            t += f':{s % 3600 // 60:02d}'
            if s % 60:
                t += f':{s % 60:02d}'
        return t
    if dst is None:
        return f'STD{off(std)}'
    # rules are given for the first year in trans; Jn form is the same in every non leap year
    rules = {}
    year = None
    for t, o, isdst in trans:
        kind = 'on' if isdst else 'off'
        if kind in rules:
            continue
        before = std if isdst else dst
        d = _real_dt.fromtimestamp(t + before, _dt.timezone.utc)
        yday = d.timetuple().tm_yday
        leap = d.year % 4 == 0 and (d.year % 100 != 0 or d.year % 400 == 0)
        if leap and yday > 60:
            yday -= 1
        rules[kind] = f'J{yday}/{d.hour}:{d.minute:02d}:{d.second:02d}'
    return f'STD{off(std)}DST{off(dst)},{rules["on"]},{rules["off"]}'


class ConcEnv:
    symbolic = False
    _mw = None
    _names = 'out', 'err'

    def __init__(self, inputs, root, fix=None):
        self.inputs = inputs
        self.root = root
        self.fix = fix or {}
        self.failures = []
        self.observed = []
        self.reached = []
        self.missing = []
        self._sub = []
        self._scratch = root
        Clk.us = 1_600_000_000_000_000
        os.environ['TZ'] = 'STD0'
        time.tzset()
        os.environ.pop('BEAD_ZIP_COMPRESSION', None)

    def _get(self, label, default):
        if label in self.fix:
            return self.fix[label]
        if label not in self.inputs:
            self.missing.append(label)
            return default
        return self.inputs[label]

    def flag(self, label):
        return bool(self._get(label, False))
    sbool = flag

    def int(self, label, lo, hi):
        return self._get(label, lo)
    num = int

    def pick(self, label, options):
        return options[self._get(label, 0)]

    def text(self, label, ranges, lo, hi):
        if hi > lo:
            self._get(label + '.len', lo)
        return self._get(label, ranges[0][0] * lo)

    def atom(self, label):
        return self._get(label, 'x%010d' % (len(self.missing) + 50000))

    def content(self, label, size=None):
        c = self.atom(label).encode('utf-8')
        if size is None:
            return c
        # contents of different sizes do not begin the same way
        return (b'%d:' % size + b''.join(c + b'%09d' % i for i in range(size // 20 + 1)))[:size]

    def assume(self, cond):
        if not cond:
            raise Stop('assume')

    def check(self, cond, label, detail=None):
        if not cond:
            self.failures.append(label)
            raise Stop('failed')

    def reach(self, label):
        self.reached.append(label)

    def observe(self, label, value):
        self.observed.append((label, norm(value)))

    def all(self, *c):
        return all(c)

    def any(self, *c):
        return any(c)

    def implies(self, a, b):
        return (not a) or b

    def iff(self, a, b):
        return bool(a) == bool(b)

    def neg(self, a):
        return not a

    def listing_reversed(self, flag):
        if Order.mode in ('ino', 'rev'):
            Order.mode = 'rev' if flag else 'ino'

    def set_now(self, us):
        Clk.us = us

    def now(self):
        return Clk.us

    def set_zone(self, std, dst=None, trans=()):
        os.environ['TZ'] = posix_tz(std, dst, trans)
        time.tzset()
        import importlib
        for n, m in list(sys.modules.items()):
            if (n == 'bead' or n.startswith('bead.') or n.startswith('bead_cli')) and any(v is time for v in list(vars(m).values())):
                importlib.reload(m)

    def setenv(self, k, v):
        os.environ[k] = v

    def fresh(self):
        for n in [n for n in sys.modules if n == 'bead' or n.startswith('bead.') or n.startswith('bead_cli')]:
            m = sys.modules[n]
            c = getattr(m, '_cache', None)
            if n == 'bead.zipopener' and c is not None:
                try:
                    m.close_all()
                except Exception:
                    pass
            for v in list(vars(m).values()):
                f = getattr(v, 'cache_clear', None)
                if callable(f):
                    f()

    def subprocess_log(self):
        return self._sub

    def zips(self):
        return Zips.open, Zips.peak

    def reset_peak(self):
        Zips.peak = Zips.open

    def meanwhile(self, fn, at, under=None, kinds=None):
        go_r, go_w = os.pipe()
        done_r, done_w = os.pipe()
        out = os.path.join(self._scratch, '..', 'meanwhile')
        pid = os.fork()
        if pid == 0:
            try:
                os.close(go_w)
                os.close(done_r)
                if os.read(go_r, 1) == b'g':
                    self._names = 'out2', 'err2'
                    v = fn()
                    with _real_open(out, 'w') as f:
                        json.dump([v, self.failures, self.observed, self.reached], f)
                    os.write(done_w, Clk.us.to_bytes(10, 'little', signed=True))
            except BaseException as e:
                with _real_open(out + '.err', 'w') as f:
                    f.write(f'{type(e).__name__}: {e}')
            finally:
                os._exit(0)
        os.close(go_r)
        os.close(done_w)
        self._mw = dict(at=at, under=None if under is None else os.fspath(under), kinds=kinds, n=0, ran=False, go=go_w, done=done_r, pid=pid, out=out)

    def meanwhile_ran(self, last=None):
        m, self._mw = self._mw, None
        os.close(m['go'])
        os.close(m['done'])
        os.waitpid(m['pid'], 0)
        if os.path.exists(m['out'] + '.err'):
            with _real_open(m['out'] + '.err') as f:
                raise RuntimeError(f.read())
        if not os.path.exists(m['out']):
            return False, None
        with _real_open(m['out']) as f:
            v, self.failures[:], self.observed[:], self.reached[:] = json.load(f)
        os.remove(m['out'])
        return True, v

    def _forked(self, fn, crash_at, fault_at, errno, capture, log=None):
        r, w = os.pipe()
        outp, errp = (os.path.join(self._scratch, '..', n) for n in self._names)
        sys.stdout.flush()
        sys.stderr.flush()
        cwd = os.getcwd()
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                os.close(r)
                if capture:
                    for p, fd in ((outp, 1), (errp, 2)):
                        f = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                        os.dup2(f, fd)
                        os.close(f)
                    sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), 'utf-8', 'surrogateescape', write_through=True)
                    sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), 'utf-8', 'surrogateescape', write_through=True)
                self.fresh()
                sub = []
                stub_externals(sub)
                Ev.n, Ev.crash_at, Ev.fault_at, Ev.errno, Ev.log = 0, crash_at, fault_at, errno, []
                if self._mw is not None:
                    Mw.m, Mw.conns = self._mw, []
                    Mw.on = True
                Ev.on = True
                try:
                    v = fn()
                    res = ['ok', v if isinstance(v, (str, int, float, bool, list, type(None))) else None]
                except SystemExit as e:
                    res = ['exit', e.code if isinstance(e.code, (int, type(None))) else 1]
                except KeyboardInterrupt:
                    res = ['error', 'KeyboardInterrupt']
                except BaseException as e:
                    res = ['error', type(e).__name__]
                Ev.on = Mw.on = False
                os.write(w, json.dumps([res, Ev.n, sub, Ev.log, Ev.faults, Ev.sql]).encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        crashed = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99
        if crashed:
            return ['crash', None]
        if not buf:
            return ['error', 'died']
        res, self.events, sub, lg, Ev.faults, Ev.sql = json.loads(buf)
        self._sub.extend(sub)
        if log is not None:
            log.extend(tuple(x) for x in lg)
        return res

    def guarded(self, fn, crash_at=None, fault_at=None, errno=28):
        st, v = self._forked(fn, crash_at, fault_at, errno, True)
        if st == 'exit':
            return 'error', 'SystemExit'
        return st, v

    def cli(self, *argv, cwd=None, crash_at=None, fault_at=None, errno=28, log=None):
        if cwd is not None:
            os.chdir(cwd)

        def go():
            import appdirs
            appdirs.user_config_dir = lambda *a, **k: os.path.join(self.root, 'config')
            sys.argv = ['bead'] + [str(a) for a in argv]
            import bead_cli.main
            bead_cli.main.main()
        st, v = self._forked(go, crash_at, fault_at, errno, True, log)

        def slurp(n):
            with _real_open(os.path.join(self._scratch, '..', n), 'rb') as f:
                return f.read().decode('utf-8', 'surrogateescape')
        code = None
        if st == 'exit':
            code = 0 if v is None else v & 255
        elif st == 'error':
            code = 1
        elif st == 'ok':
            code = 0
        return Result(code, slurp(self._names[0]), slurp(self._names[1]), st == 'crash')

    def junk_file(self, path, kind='junk'):
        with _real_open(path, 'wb') as f:
            f.write(b'\xff\xfe\x80jun')

    def damage_entry(self, path, name, way='data'):
        import zipfile
        if way != 'data':
            return self._damage_directory(path, name, way)
        with zipfile.ZipFile(path) as z:
            try:
                i = z.getinfo(name)
            except KeyError:
                return False
            fp = z.fp
            fp.seek(i.header_offset + 26)
            a, b = fp.read(2), fp.read(2)
            start = i.header_offset + 30 + int.from_bytes(a, 'little') + int.from_bytes(b, 'little')
            n = i.compress_size
        if n == 0:
            return False
        with _real_open(path, 'r+b') as f:
            f.seek(start + n // 2)
            c = f.read(1)[0]
            f.seek(start + n // 2)
            f.write(bytes([c ^ 0x55]))
        return True

    def _damage_directory(self, path, name, way):
        import zipfile
        with zipfile.ZipFile(path) as z:
            i = z.getinfo(name)
            fp = z.fp
            fp.seek(i.header_offset + 26)
            a, b = fp.read(2), fp.read(2)
            start = i.header_offset + 30 + int.from_bytes(a, 'little') + int.from_bytes(b, 'little')
            fp.seek(z.start_dir)
            tail = fp.read()
        at = 0
        while tail[at:at + 4] == b'PK\1\2':
            if int.from_bytes(tail[at + 42:at + 46], 'little') == i.header_offset:
                break
            at += 46 + sum(int.from_bytes(tail[at + k:at + k + 2], 'little') for k in (28, 30, 32))
        else:
            raise ValueError('no central directory')
        with _real_open(path, 'r+b') as f:
            def put(pos, value):
                f.seek(pos)
                f.write(value)
            if way == 'deflate':
                put(z.start_dir + at + 10, (8).to_bytes(2, 'little'))
                put(start, b'\xff')
            elif way == 'compression':
                put(z.start_dir + at + 10, (97).to_bytes(2, 'little'))
            else:
                put(z.start_dir + at + 8, (i.flag_bits | 1).to_bytes(2, 'little'))
        return True

    def truncate_file(self, path):
        n = os.path.getsize(path)
        os.truncate(path, n // 2)

    def sql_fault(self, at, message='database or disk is full', stays=True):
        old = Ev.sql
        Ev.sql = None if at is None else dict(at=at, message=message, stays=stays, n=0, hit=False)
        return bool(old and old['hit'])

    def read_fault(self, path, errno=5, skip=0):
        old = Ev.faults.pop(os.path.realpath(path), None)
        if errno:
            Ev.faults[os.path.realpath(path)] = [errno, skip]
        return bool(old) and old[1] < 0

    def same_file(self, a, b):
        return os.path.samefile(a, b)

    def fifo(self, path):
        os.mkfifo(path)


def stub_externals(sub):
    import subprocess
    import webbrowser

    class Done:
        returncode = 0
        stdout = stderr = b''

    def run(cmd, **k):
        i = k.get('input')
        sub.append([list(map(str, cmd)) if not isinstance(cmd, str) else cmd, i if isinstance(i, str) or i is None else i.decode()])
        return Done()
    subprocess.run = run
    subprocess.call = subprocess.check_call = lambda *a, **k: (run(*a, **k), 0)[1]
    subprocess.check_output = lambda *a, **k: (run(*a, **k), b'')[1]
    webbrowser.open = lambda u, *a: sub.append(['view', u]) or True


def norm(v):
    if isinstance(v, bytes):
        return v.decode('utf-8', 'surrogateescape')
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return ['dict'] + sorted([[norm(k), norm(x)] for k, x in v.items()], key=repr)
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted([norm(x) for x in v], key=repr)
    return '\0opaque'


def run_job(job, scratch):
    sys.path[:0] = [VERIF]
    out = dict(failures=[], observed=[], reached=[], stop=None, error=None, missing=[])
    Order.mode = job.get('order', 'ino')
    root = os.path.join(scratch, 'w')
    os.mkdir(root)
    os.chdir(root)
    env = None
    try:
        import importlib
        m = importlib.import_module('props.' + job['mod'])
        params = dict(job['params'])
        fix = params.pop('_fix', None)
        params.pop('_shard', None)
        env = ConcEnv(job['inputs'], root, fix)
        stub_externals(env._sub)
        getattr(m, job['func'])(env, **params)
    except Stop as e:
        out['stop'] = str(e)
    except BaseException as e:
        out['error'] = f'{type(e).__name__}: {e}'
        out['trace'] = traceback.format_exc()
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        inner = tb.tb_frame.f_code.co_filename
        if os.path.dirname(inner) in (os.path.join(VERIF, 'props'), os.path.join(VERIF, 'sx')) and isinstance(e, (ImportError, AttributeError, TypeError, NameError)):
            out['mismatch'] = True          # the harness does not fit the code: no verdict
        elif env is not None:
            env.failures.append('harness raised ' + type(e).__name__)
    if env is not None:
        out.update(failures=env.failures, observed=env.observed, reached=env.reached, missing=env.missing)
    return out


def rm_tree(p):
    for d, ds, fs in os.walk(p):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(p, ignore_errors=True)


def main():
    scratch = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    install_clock()
    install_order()
    install_events()
    install_zips()
    install_sql()
    import appdirs, argcomplete, attr, cached_property       # noqa: warm up
    import argparse, sqlite3, zipfile, tempfile, json.decoder, uuid, html, webbrowser, subprocess   # noqa
    if not os.path.isfile(os.path.join(REPO, 'bead', 'box.py')):
        sys.exit(1)
    print('ready', flush=True)
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        d = os.path.join(scratch, f'j{n}')
        os.mkdir(d)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setsid()
                signal.alarm(int(job.get('timeout', 60)))
                os.environ['HOME'] = d
                os.environ['TMPDIR'] = d
                import tempfile
                tempfile.tempdir = None
                o = os.open(os.devnull, os.O_RDWR)
                os.dup2(o, 0)
                os.dup2(o, 1)
                if not job.get('verbose'):
                    os.dup2(o, 2)
                res = run_job(job, d)
                data = json.dumps(res).encode()
                while data:
                    k = os.write(w, data)
                    data = data[k:]
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        rm_tree(d)
        sys.stdout.write((buf.decode() or json.dumps(dict(failures=[], observed=[], reached=[], stop='timeout', error='no answer', missing=[]))) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
