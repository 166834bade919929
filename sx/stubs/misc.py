"""sys, functools, collections, hashlib, uuid, time, datetime, json glue and small modules"""
import builtins
import collections as _coll
import copy as _copy
import functools as _ft
import itertools
import operator as _op
import sys as _sys
import time as _time
import types
import z3
from .. import core, text, loader, containers, vfs
from ..containers import SymDict, SymSet, DefaultDict, OrderedDict, ckey, SYM
from ..core import Unsupported, Crash, SInt, SBool, band, bor, bnot, mk_bool, mk_int, ix, bx, ite
from ..text import SStr, SBytes, Seq, Tok, els, mk_str, mk_bytes, Ch
from .osmod import mod, W, load_std, StringIO


# ---------------------------------------------------------------------------
class Stream:
    def __init__(self):
        self.parts = []
        self.closed = False
        self.encoding = 'utf-8'
        self.errors = 'strict'
        self.name = '<stdout>'

    def write(self, s):
        if core.E.dead:
            raise Crash()
        if not isinstance(s, (str, SStr)):
            raise TypeError(f'write() argument must be str, not {type(s).__name__}')
        self.parts.append(s)
        return len(els(s))

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no fileno')

    def getvalue(self):
        return text.sx_join('', self.parts)


def install_sys():
    def exit_(code=None):
        raise SystemExit(code)
    m = mod('sys')
    for k in ('platform', 'version_info', 'version', 'maxsize', 'byteorder', 'implementation', 'flags', 'float_info', 'hash_info', 'executable',
              'exc_info', 'getrecursionlimit', 'setrecursionlimit', 'getdefaultencoding', 'getfilesystemencoding', 'getfilesystemencodeerrors',
              'maxunicode', 'prefix', 'base_prefix', 'exec_prefix', 'path', 'api_version', 'hexversion', 'int_info', '_getframe', 'getsizeof', 'getrefcount'):
        setattr(m, k, getattr(_sys, k))
    m.intern = lambda s: s
    m.exit = exit_
    m.audit = lambda *a: None
    m.builtin_module_names = ('posix',)
    m.modules = SymDict()
    m.argv = ['bead']
    m.stdin = StringIO('')
    m.stdout = m.__stdout__ = Stream()
    m.stderr = m.__stderr__ = Stream()
    m.displayhook = m.excepthook = None
    m.warnoptions = []
    return m


# ---------------------------------------------------------------------------
class Memo:
    def __init__(self, f, maxsize=128, typed=False):
        self.f = f
        self.maxsize = maxsize
        _ft.update_wrapper(self, f)
        self.cache = SymDict()
        self.hits = self.misses = 0
        loader.CACHES.append(self.cache_clear)
        loader.MEMOS.append(self)

    def save(self):
        st = dict(self.cache.d), self.cache.nsym, self.hits, self.misses

        def back():
            self.cache.d, self.cache.nsym, self.hits, self.misses = dict(st[0]), st[1], st[2], st[3]
        return back

    def _key(self, a, k):
        return a + (('kw',),) + tuple(sorted(k.items())) if k else a

    def __call__(self, *a, **k):
        key = self._key(a, k)
        c = self.cache
        try:
            ik = c._find(key)
        except TypeError as e:
            raise TypeError(*e.args)
        if ik is not None:
            v = c.d.pop(ik)
            c.d[ik] = v
            self.hits += 1
            return v[1]
        r = self.f(*a, **k)
        self.misses += 1
        c[key] = r
        if self.maxsize is not None and len(c.d) > self.maxsize:
            first = next(iter(c.d))
            if isinstance(first, containers._K):
                c.nsym -= 1
            del c.d[first]
        return r

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.cache.d.clear()
        self.cache.nsym = 0

    def cache_info(self):
        return (self.hits, self.misses, self.maxsize, len(self.cache.d))


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return Memo(maxsize, 128)
    return lambda f: Memo(f, maxsize)


def single_dispatch(func, position=0):
    '''functools.singledispatch: the classes are told apart as the code's isinstance does'''
    registry = {object: func}

    def dispatch(o):
        from .. import loader
        best = object
        for c in registry:
            if c is not object and loader.sx_isinstance(o, c) and loader.sx_issubclass(c, best):
                best = c
        return registry[best]

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda f: register(cls, f)
            hints = getattr(cls, '__annotations__', {})
            if not hints:
                raise TypeError(f'Invalid first argument to `register()`: {cls!r}. '
                                'Use either `@register(some_class)` or plain `@register` on an annotated function.')
            f = cls
            hint = next(iter(hints.values()))
            # annotations are kept as source text
            cls = eval(hint, f.__globals__) if isinstance(hint, str) else hint
            if isinstance(cls, types.UnionType):
                for c in cls.__args__:
                    registry[c] = f
                return f
        registry[cls] = f
        return f

    def wrapper(*a, **k):
        if len(a) <= position:
            raise TypeError(f'{func.__name__} requires at least 1 positional argument')
        return dispatch(a[position])(*a, **k)
    _ft.update_wrapper(wrapper, func)
    wrapper.register = register
    wrapper.registry = registry
    return wrapper


class single_dispatch_method:
    def __init__(self, func):
        self.func = single_dispatch(func, 1)
        self.register = self.func.register

    def __get__(self, obj, cls=None):
        return self.func if obj is None else types.MethodType(self.func, obj)


def install_functools():
    m = mod('functools')
    m.__dict__.update({k: v for k, v in vars(_ft).items() if not k.startswith('__')})
    m.singledispatch = single_dispatch
    m.singledispatchmethod = single_dispatch_method
    m.lru_cache = lru_cache
    m.cache = lambda f: Memo(f, None)


def deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][0]
    t = type(x)
    if hasattr(x, 'd') and object.__getattribute__(x, '__class__').__mro__[-2] is SymDict:
        n = t.__new__(t)
        n.__dict__.update(x.__dict__)
        memo[id(x)] = (n, x)
        n.d = {k: (deepcopy(key, memo), deepcopy(v, memo)) for k, (key, v) in x.d.items()}
        return n
    if t is list:
        n = []
        memo[id(x)] = (n, x)
        n.extend(deepcopy(v, memo) for v in x)
        return n
    if t is tuple:
        n = tuple([deepcopy(v, memo) for v in x])
        return n
    if hasattr(t, '__deepcopy__'):
        return x.__deepcopy__(memo)
    return _copy.deepcopy(x)


def install_collections():
    m = mod('copy', deepcopy=deepcopy, copy=_copy.copy, error=_copy.Error, Error=_copy.Error)
    m = mod('collections')
    m.__dict__.update({k: v for k, v in vars(_coll).items() if not k.startswith('__')})
    m.defaultdict = DefaultDict
    m.OrderedDict = OrderedDict

    class Counter(SymDict):
        def __init__(self, it=(), **kw):
            SymDict.__init__(self)
            self.update(it)

        def __missing__(self, k):
            return 0

        def update(self, it=()):
            if hasattr(it, 'keys'):
                for k in it.keys():
                    self[k] = self[k] + it[k]
            else:
                for x in it:
                    self[x] = self[x] + 1

        def most_common(self, n=None):
            r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
            return r if n is None else r[:n]

        def elements(self):
            for k, v in self.items():
                for _ in range(v):
                    yield k
    m.Counter = Counter
    import collections.abc
    m.abc = collections.abc


# ---------------------------------------------------------------------------
class HashTok(Tok):
    """hex digest: equal exactly when the digested data are equal"""
    __slots__ = ('data', 'size', 'alg')

    def __init__(self, alg, data, size):
        self.alg = alg
        self.data = data
        self.size = size

    def eq(self, o):
        if type(o) is not HashTok or o.alg != self.alg or o.size != self.size:
            return False
        return text.elems_eq(self.data, o.data)

    def fixed_len(self):
        return self.size

    def length(self):
        return self.size


SIZES = {'sha512': 64, 'sha256': 32, 'sha1': 20, 'md5': 16, 'sha384': 48, 'sha224': 28, 'blake2b': 64, 'blake2s': 32, 'sha3_256': 32, 'sha3_512': 64}


class Hash:
    def __init__(self, alg, data=b'', **k):
        self.name = alg
        self.digest_size = SIZES[alg]
        self.block_size = 128
        self.parts = []
        if isinstance(data, (str, SStr)):
            raise TypeError('Strings must be encoded before hashing')
        self.update(data)

    def update(self, data):
        if isinstance(data, (str, SStr)):
            raise TypeError('Strings must be encoded before hashing')
        if isinstance(data, (bytearray, memoryview)):
            data = bytes(data)
        self.parts.extend(els(data))

    def hexdigest(self):
        log = core.E.path_cache.setdefault('hashlog', [])
        log.append((self.name, tuple(self.parts)))
        return mk_str((HashTok(self.name, text.norm_bytes(tuple(self.parts)), self.digest_size * 2),))

    def digest(self):
        return mk_bytes((HashTok(self.name + '-raw', text.norm_bytes(tuple(self.parts)), self.digest_size),))

    def copy(self):
        h = Hash(self.name)
        h.parts = list(self.parts)
        return h


def install_hashlib():
    m = mod('hashlib')
    for a in SIZES:
        setattr(m, a, (lambda a: lambda data=b'', **k: Hash(a, data))(a))
    m.new = lambda name, data=b'', **k: Hash(name, data)

    def file_digest(fileobj, digest):
        h = Hash(digest) if isinstance(digest, str) else digest()
        while True:
            block = fileobj.read(2 ** 18)
            if not block:
                return h
            h.update(block)
    m.file_digest = file_digest
    m.algorithms_available = m.algorithms_guaranteed = set(SIZES)


def install_uuid():
    class UUID:
        def __init__(self, n):
            self.n = n

        def _t(self):
            t = mk_str((text.At(z3.IntVal(10 ** 6 + self.n)),))
            return t

        def __str__(self):
            return self._t()

        @property
        def hex(self):
            return self._t()

        @property
        def bytes(self):
            return mk_bytes((text.At(z3.IntVal(10 ** 6 + self.n)),))

        @property
        def int(self):
            return 10 ** 6 + self.n

        @property
        def urn(self):
            return text.sx_join('', ['urn:uuid:', self._t()])

    def fresh(*a):
        n = core.E.path_cache.get('uuid', 0) + 1
        core.E.path_cache['uuid'] = n
        return UUID(n)
    mod('uuid', uuid1=fresh, uuid4=fresh, UUID=UUID, getnode=lambda: 1)


# ---------------------------------------------------------------------------
class Clock:
    """microseconds since the epoch and the local time rules of the simulated machine"""

    def __init__(self):
        self.us = 1_600_000_000_000_000
        self.std = 0                 # seconds east of UTC
        self.dst = None              # seconds east of UTC during daylight saving time
        self.trans = []              # [(utc second, offset from then on, isdst)] ascending
        self.names = ('UTC', 'UTC')

    def offset(self, sec):
        """(offset, isdst) at an instant"""
        off, isdst = self.std, 0
        for t, o, d in self.trans:
            if sec >= t:
                off, isdst = o, d
        return off, isdst


_EPOCH_ORD = 719163


class StructTime:
    _f = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst')

    def __init__(self, vals, gmtoff=None, zone=None):
        self.v = tuple(vals)
        self.tm_gmtoff = gmtoff
        self.tm_zone = zone

    def __getattr__(self, n):
        if n in StructTime._f:
            return self.v[StructTime._f.index(n)]
        raise AttributeError(n)

    def __getitem__(self, i):
        return self.v[i]

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        return 9


def civil(sec):
    """UTC seconds -> (y,m,d,H,M,S,wday,yday)"""
    dt = loader.STUBS['datetime']
    days, rest = divmod(sec, 86400)
    y, m, d = dt._ord2ymd(days + _EPOCH_ORD)
    hh, rest = divmod(rest, 3600)
    mm, ss = divmod(rest, 60)
    return y, m, d, hh, mm, ss, (days + 3) % 7, days + _EPOCH_ORD - dt._ymd2ord(y, 1, 1) + 1


def install_time():
    def now_us():
        if core.E.dead:
            raise Crash()
        return W.clock.us

    def localtime(sec=None):
        if sec is None:
            sec = now_us() // 1000000
        if isinstance(sec, (float, core.SFloat)):
            sec = core.floor(sec)
        off, isdst = W.clock.offset(sec)
        v = civil(sec + off)
        return StructTime(v + (isdst,), off, W.clock.names[0])

    def gmtime(sec=None):
        if sec is None:
            sec = now_us() // 1000000
        if isinstance(sec, (float, core.SFloat)):
            sec = core.floor(sec)
        return StructTime(civil(sec) + (0,), 0, 'UTC')

    def mktime(t):
        dt = loader.STUBS['datetime']
        y, mo, d, hh, mm, ss = list(t)[:6]
        isdst = list(t)[8]
        sec = (dt._ymd2ord(y, mo, d) - _EPOCH_ORD) * 86400 + hh * 3600 + mm * 60 + ss
        if isdst == 0 or W.clock.dst is None:
            return core.to_float(sec - W.clock.std)
        if isdst == -1:
            # daylight saving time when the instant falls into it
            u = sec - W.clock.dst
            off, isd = W.clock.offset(u)
            return core.to_float(ite(off == W.clock.dst if isinstance(off, SInt) else off == W.clock.dst, u, sec - W.clock.std))
        return core.to_float(sec - W.clock.dst)

    def strftime(fmt, t=None):
        return fmt_time(fmt, localtime() if t is None else t)

    class TimeMod(types.ModuleType):
        @property
        def timezone(self):
            return -W.clock.std

        @property
        def altzone(self):
            return -(W.clock.std if W.clock.dst is None else W.clock.dst)

        @property
        def daylight(self):
            return 0 if W.clock.dst is None else 1

        @property
        def tzname(self):
            return W.clock.names
    m = TimeMod('time')
    loader.STUBS['time'] = m
    m.__dict__.update(
        time=lambda: core.SFloat.ratio(now_us(), 1000000), time_ns=lambda: now_us() * 1000, localtime=localtime, gmtime=gmtime, mktime=mktime, strftime=strftime,
        struct_time=StructTime, sleep=lambda s: None, monotonic=lambda: 0.0, perf_counter=lambda: 0.0, monotonic_ns=lambda: 0,
        process_time=lambda: 0.0, tzset=lambda: None, sx_now_us=now_us,
        ctime=lambda *a: 'ctime', asctime=lambda *a: 'asctime')


def fmt_time(fmt, t):
    t = list(t)
    out = []
    e = els(fmt)
    i = 0
    while i < len(e):
        c = e[i]
        if type(c) is int and c == 37 and i + 1 < len(e):
            d = chr(e[i + 1])
            i += 2
            if d == 'Y':
                y = t[0]
                out.append(text.pad_digits(y, 4) if y >= 1000 else text.sx_str(y))
            elif d in 'mdHMS':
                out.append(text.pad_digits(t['mdHMS'.index(d) + 1], 2))
            elif d == 'y':
                out.append(text.pad_digits(t[0] % 100, 2))
            elif d == 'j':
                out.append(text.pad_digits(t[7], 3))
            elif d == '%':
                out.append('%')
            elif d == 'F':
                out.append(fmt_time('%Y-%m-%d', t))
            elif d == 'T':
                out.append(fmt_time('%H:%M:%S', t))
            elif d in 'zZ':
                out.append(fmt_zone(d, t))
            else:
                raise Unsupported(f'strftime %{d}')
            continue
        out.append(mk_str((c,)))
        i += 1
    return text.sx_join('', out)


def fmt_zone(d, t):
    raise Unsupported('zone of struct_time')


DAYS_BEFORE = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DIM = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def is_leap(y):
    if isinstance(y, SInt):
        x = y.x
        return mk_bool(z3.And(x % 4 == 0, z3.Or(x % 100 != 0, x % 400 == 0)))
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def _table(m, tab):
    if isinstance(m, SInt):
        r = z3.IntVal(tab[12])
        for k in range(11, 0, -1):
            r = z3.If(m.x == k, z3.IntVal(tab[k]), r)
        return SInt(r)
    return tab[m]


def days_in_month(y, m):
    return _table(m, DIM) + ite(band(m == 2, is_leap(y)), 1, 0)


def days_before_month(y, m):
    return _table(m, DAYS_BEFORE) + ite(band(m > 2, is_leap(y)), 1, 0)


def days_before_year(y):
    y = y - 1
    return y * 365 + y // 4 - y // 100 + y // 400


def ymd2ord(y, m, d):
    if not any(isinstance(v, SInt) for v in (y, m, d)):
        dim = DIM[m] + (1 if m == 2 and is_leap(y) else 0)
        assert 1 <= m <= 12, 'month must be in 1..12'
        assert 1 <= d <= dim
    elif isinstance(y, SInt) and isinstance(m, SInt) and isinstance(d, SInt):
        n = core.E.path_cache.get('ymd2ord', {}).get((y.x.get_id(), m.x.get_id(), d.x.get_id()))
        if n is not None:
            return n
    return days_before_year(y) + days_before_month(y, m) + d


def ord2ymd(n):
    if not isinstance(n, SInt):
        import datetime as _dt
        d = _dt.date.fromordinal(n)
        return d.year, d.month, d.day
    e = core.E
    cache = e.path_cache.setdefault('ord2ymd', {})
    k = n.x.get_id()
    if k in cache:
        return cache[k][1]
    terms, const = core.linear(n.x)
    lo = hi = const
    for f, a in terms.values():
        b = e.bounds.get(a.get_id())
        if b is None:
            lo, hi = 0, 10 ** 9
            break
        lo += f * (b[0] if f > 0 else b[1])
        hi += f * (b[1] if f > 0 else b[0])
    if hi - lo <= 740:
        # split on the month: the day is then a linear term
        import datetime as _dt

        def first(ym):
            return _dt.date(ym // 12, ym % 12 + 1, 1).toordinal() if ym < 120000 else 3652060

        def month_of(model):
            t = _dt.date.fromordinal(model.eval(n.x, model_completion=True).as_long())
            return t.year * 12 + t.month - 1
        ym = e.choose_case(month_of, lambda ym: z3.And(n.x >= first(ym), n.x < first(ym + 1)))
        d = n - (first(ym) - 1)
        core.bound(d.x, 1, 31)
        cache[k] = (n, (ym // 12, ym % 12 + 1, d))
        return cache[k][1]
    y, m, d = (SInt(e.new_int(h)) for h in 'ymd')
    # the caller guarantees a valid ordinal
    e.add(z3.And(n.x >= 1, n.x <= 3652059))
    e.add(z3.And(y.x >= 1, y.x <= 9999, m.x >= 1, m.x <= 12, d.x >= 1))
    e.add(d.x <= ix(days_in_month(y, m)))
    e.add(ix(ymd2ord(y, m, d)) == n.x)
    # redundant bounds that help the solver
    e.add(y.x * 146097 <= n.x * 400 + 146097)
    e.add(y.x * 146097 >= n.x * 400 - 146097)
    cache[k] = (n, (y, m, d))
    e.path_cache.setdefault('ymd2ord', {})[y.x.get_id(), m.x.get_id(), d.x.get_id()] = n
    core.bound(d.x, 1, 31)
    core.bound(m.x, 1, 12)
    core.bound(y.x, 1, 9999)
    return y, m, d


def install_datetime():
    opm = mod('operator')
    opm.__dict__.update({k: v for k, v in vars(_op).items() if not k.startswith('__')})
    opm.index = lambda x: x if isinstance(x, SInt) else _op.index(x)
    opm.contains = lambda a, b: bool(containers.sx_in(b, a))
    m = load_std('datetime', '_pydatetime.py')
    m._is_leap = is_leap
    m._days_in_month = days_in_month
    m._days_before_month = days_before_month
    m._days_before_year = days_before_year
    m._ymd2ord = ymd2ord
    m._ord2ymd = ord2ymd
    m._wrap_strftime_real = m._wrap_strftime
    m._build_struct_time = lambda y, mo, d, hh, mm, ss, dst: StructTime(
        (y, mo, d, hh, mm, ss, (ymd2ord(y, mo, d) + 6) % 7, days_before_month(y, mo) + d, dst))
    dt = m.datetime
    td = m.timedelta

    def local_us(x):
        return (((x.toordinal() * 24 + x._hour) * 60 + x._minute) * 60 + x._second) * 1000000 + x._microsecond

    def td_us(x):
        return (x._days * 86400 + x._seconds) * 1000000 + x._microseconds

    def both(a, b):
        oa, ob = a.utcoffset(), b.utcoffset()
        ua, ub = local_us(a), local_us(b)
        if a._tzinfo is b._tzinfo:
            return ua, ub
        if oa is None and ob is None:
            return ua, ub
        if oa is None or ob is None:
            return None
        return ua - td_us(oa), ub - td_us(ob)

    def op(f, name):
        def method(self, other):
            if not isinstance(other, dt):
                if not isinstance(other, m.date):
                    return NotImplemented
                raise TypeError("can't compare datetime.datetime to datetime.date")
            r = both(self, other)
            if r is None:
                if name == 'eq':
                    return False
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return f(r[0], r[1])
        return method
    dt.__eq__ = op(lambda a, b: a == b, 'eq')
    dt.__lt__ = op(lambda a, b: a < b, 'lt')
    dt.__le__ = op(lambda a, b: a <= b, 'le')
    dt.__gt__ = op(lambda a, b: a > b, 'gt')
    dt.__ge__ = op(lambda a, b: a >= b, 'ge')
    dt.__ne__ = lambda self, o: bnot(self == o)

    def dt_key(self):
        v = (self._year, self._month, self._day, self._hour, self._minute, self._second, self._microsecond)
        if any(isinstance(x, SInt) for x in v):
            return SYM
        off = self.utcoffset()
        if off is None:
            return ('naive', v)
        u = local_us(self) - td_us(off)
        return SYM if isinstance(u, SInt) else ('dt', u)
    dt.sx_ckey = dt_key

    def td_op(f):
        def method(self, other):
            if not isinstance(other, td):
                return NotImplemented
            return f(td_us(self), td_us(other))
        return method
    td_new = td.__new__

    def td_fast(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        v = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if any(isinstance(x, SInt) for x in v) and all(isinstance(x, (SInt, int)) for x in v):
            us = ((((weeks * 7 + days) * 24 + hours) * 60 + minutes) * 60 + seconds) * 1000000 + milliseconds * 1000 + microseconds
            d, rest = divmod(us, 86400 * 1000000)
            s, u = divmod(rest, 1000000)
            if d < -999999999 or d > 999999999:
                raise OverflowError('days is out of range; must have magnitude <= 999999999')
            self = object.__new__(cls)
            self._days, self._seconds, self._microseconds, self._hashcode = d, s, u, -1
            return self
        return td_new(cls, *v)
    td.__new__ = staticmethod(td_fast)
    td.__eq__ = td_op(lambda a, b: a == b)
    td.__lt__ = td_op(lambda a, b: a < b)
    td.__le__ = td_op(lambda a, b: a <= b)
    td.__gt__ = td_op(lambda a, b: a > b)
    td.__ge__ = td_op(lambda a, b: a >= b)
    td.__ne__ = lambda self, o: bnot(self == o)
    td.__bool__ = lambda self: bool(td_us(self) != 0)
    td.total_seconds = lambda self: core.SFloat.ratio(td_us(self), 1000000)
    td.sx_ckey = lambda self: SYM if isinstance(td_us(self), SInt) else ('td', td_us(self))
    td._to_microseconds = td_us

    def td_floordiv(self, other):
        if isinstance(other, td):
            return td_us(self) // td_us(other)
        if isinstance(other, (int, SInt)):
            return td(0, 0, td_us(self) // other)
        return NotImplemented
    td.__floordiv__ = td_floordiv

    def td_truediv(self, other):
        if isinstance(other, td):
            return core.SFloat.ratio(td_us(self), td_us(other))
        return td_div_real(self, other)
    td_div_real = td.__truediv__
    td.__truediv__ = td_truediv

    def td_mod(self, other):
        if isinstance(other, td):
            return td(0, 0, td_us(self) % td_us(other))
        return NotImplemented
    td.__mod__ = td_mod
    td.__divmod__ = lambda self, other: (td_floordiv(self, other), td_mod(self, other))

    def from_us(cls, us, fold=0):
        """naive datetime from microseconds since 1970"""
        days, rest = divmod(us, 86400 * 1000000)
        lo, hi = 1 - _EPOCH_ORD, 3652059 - _EPOCH_ORD
        if days < lo or days > hi:
            raise ValueError('year is out of range')
        y, mo, d = ord2ymd(days + _EPOCH_ORD)
        hh, rest = divmod(rest, 3600 * 1000000)
        mm, rest = divmod(rest, 60 * 1000000)
        ss, u = divmod(rest, 1000000)
        r = make(cls, y, mo, d, hh, mm, ss, u, None, fold)
        return r

    def make(cls, y, mo, d, hh, mm, ss, us, tz=None, fold=0):
        # the fields are valid by construction
        self = object.__new__(cls)
        self._year, self._month, self._day = y, mo, d
        self._hour, self._minute, self._second, self._microsecond = hh, mm, ss, us
        self._tzinfo = tz
        self._hashcode = -1
        self._fold = fold
        return self

    def local_fold(us):
        sec = us // 1000000
        off, isd = W.clock.offset(sec)
        fold = 0
        if W.clock.dst is not None:
            # second pass through a repeated hour
            gap = abs(W.clock.dst - W.clock.std)
            off0, _ = W.clock.offset(sec - gap)
            fold = ite(off0 - off == gap, 1, 0)
            fold = 1 if fold == 1 else 0
        return us + off * 1000000, fold

    def from_instant(cls, us, tz=None):
        m._check_tzinfo_arg(tz)
        if tz is None:
            l, fold = local_fold(us)
            return from_us(cls, l, fold)
        r = from_us(cls, us)
        r._tzinfo = tz
        return tz.fromutc(r)

    def now(cls, tz=None):
        return from_instant(cls, loader.STUBS['time'].sx_now_us(), tz)

    def round_us(t):
        if isinstance(t, (SInt, int)):
            return t * 1000000
        if isinstance(t, core.SFloat):
            return core.round_half_even(t * 1000000.0)
        return core.round_half_even(core.SFloat.const(t) * 1000000.0)
    dt.now = classmethod(now)
    dt.utcnow = classmethod(lambda cls: from_us(cls, loader.STUBS['time'].sx_now_us()))
    dt.today = classmethod(lambda cls: now(cls))
    dt.fromtimestamp = classmethod(lambda cls, t, tz=None: from_instant(cls, round_us(t), tz))
    dt.utcfromtimestamp = classmethod(lambda cls, t: from_us(cls, round_us(t)))

    def timestamp(self):
        if self._tzinfo is None:
            s = self._mktime()
            return core.SFloat.ratio(s * 1000000 + self._microsecond, 1000000)
        return core.SFloat.ratio(local_us(self) - td_us(self.utcoffset()) - _EPOCH_ORD * 86400 * 1000000, 1000000)
    dt.timestamp = timestamp

    def _mktime(self):
        """local time to seconds since the epoch (PEP 495)"""
        t = (local_us(self) - self._microsecond) // 1000000 - _EPOCH_ORD * 86400
        c = W.clock
        if c.dst is None:
            return t - c.std
        a, b = t - c.dst, t - c.std           # as daylight time, as standard time
        oka = c.offset(a)[0] == c.dst
        okb = c.offset(b)[0] == c.std
        if self._fold:
            # later instant of a repeated hour, earlier interpretation in a gap
            return ite(okb, b, ite(oka, a, a))
        return ite(oka, a, b)
    dt._mktime = _mktime

    def dt_sub(self, other):
        if not isinstance(other, dt):
            if isinstance(other, td):
                return self + -other
            return NotImplemented
        r = both(self, other)
        if r is None:
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return td(0, 0, r[0] - r[1])
    dt.__sub__ = dt_sub

    def dt_add(self, other):
        if not isinstance(other, td):
            return NotImplemented
        us = local_us(self) + td_us(other)
        days, rest = divmod(us, 86400 * 1000000)
        if days < 1 or days > 3652059:
            raise OverflowError('date value out of range')
        y, mo, d = ord2ymd(days)
        hh, rest = divmod(rest, 3600 * 1000000)
        mm, rest = divmod(rest, 60 * 1000000)
        ss, u = divmod(rest, 1000000)
        return make(type(self), y, mo, d, hh, mm, ss, u, self._tzinfo)
    dt.__add__ = dt_add
    dt.__radd__ = dt_add
    dt.min = dt(1, 1, 1)
    dt.max = dt(9999, 12, 31, 23, 59, 59, 999999)
    dt.__deepcopy__ = lambda self, memo: self
    td.__deepcopy__ = lambda self, memo: self
    import copyreg


def install_small():
    import html as _html
    load_std('html', 'html/__init__.py', keep={'escape'})

    def unescape(s):
        raise Unsupported('html.unescape')
    loader.STUBS['html'].unescape = unescape

    class CalledProcessError(Exception):
        pass

    class Done:
        returncode = 0
        stdout = stderr = b''

    def run(cmd, **k):
        W.ran.append((list(cmd) if not isinstance(cmd, (str, SStr)) else cmd, k.get('input')))
        return Done()
    mod('subprocess', run=run, check_output=lambda *a, **k: b'', CalledProcessError=CalledProcessError, PIPE=-1, DEVNULL=-3, STDOUT=-2,
        Popen=None, call=lambda *a, **k: 0, check_call=lambda *a, **k: 0)
    mod('webbrowser', open=lambda u, *a: W.ran.append(('view', u)) or True)
    mod('appdirs', user_config_dir=lambda *a, **k: text.sx_join('', [W.root, '/config']))
    mod('argcomplete', autocomplete=lambda *a, **k: None)
    mod('atexit', register=lambda f, *a, **k: f, unregister=lambda f: None)
    mod('tracelog', TRACELOG=lambda *a, **k: None)
    mod('traceback', format_exc=lambda *a, **k: f'Traceback: {builtins_exc()}', print_exc=lambda *a, **k: None,
        format_exception=lambda *a, **k: ['Traceback'])
    mod('platform', system=lambda: 'Linux', node=lambda: 'host', platform=lambda: 'Linux', python_version=lambda: '3.12.3', release=lambda: '6')

    class PNF(ModuleNotFoundError):
        pass

    def version(n):
        return '0.9'
    mm = mod('importlib.metadata', version=version, PackageNotFoundError=PNF)
    im = mod('importlib', metadata=mm)
    mod('logging')
    lg = loader.STUBS['logging']

    class Logger:
        def __getattr__(self, n):
            return lambda *a, **k: None
    lg.__dict__.update(getLogger=lambda *a: Logger(), DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, basicConfig=lambda **k: None,
                       debug=lambda *a, **k: None, info=lambda *a, **k: None, warning=lambda *a, **k: None, error=lambda *a, **k: None, exception=lambda *a, **k: None)
    mod('random', random=None)
    loader.STUBS['random'] = loader.LazyUnsupported('random')
    up = mod('urllib.parse')
    SAFE = frozenset(map(ord, 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'))

    def quote_from_bytes(bs, safe='/'):
        ok = SAFE | set(els(safe if isinstance(safe, (str, SStr)) else safe.decode()))
        rng = tuple((c, c) for c in sorted(ok))
        out = []
        for x in els(bs):
            if type(x) is int:
                if x in ok:
                    out.append(x)
                else:
                    out.extend(map(ord, '%{:02X}'.format(x)))
            elif type(x) is Ch:
                if text.char_in(x, rng):
                    out.append(x)
                else:
                    v = core.E.concretize(x.x)
                    out.extend(map(ord, '%{:02X}'.format(v)))
            elif type(x) is text.Utf8:
                out.append(x.c)         # readers of URIs take the character and its quoted form the same way
            else:
                out.append(x)
        return mk_str(tuple(out))

    def quote(s, safe='/', encoding=None, errors=None):
        return quote_from_bytes(s.encode('utf-8') if isinstance(s, (str, SStr)) else s, safe)
    up.quote_from_bytes = quote_from_bytes
    up.quote = quote
    mod('urllib', parse=up)
    ub = mod('urllib.request', pathname2url=lambda p: quote(p))
    loader.STUBS['urllib'].request = ub
    it = mod('itertools')
    it.__dict__.update({k: v for k, v in vars(itertools).items() if not k.startswith('__')})


def builtins_exc():
    e = _sys.exc_info()[1]
    try:
        return f'{type(e).__name__}: {text.sx_str(e)}'
    except Exception:
        return type(e).__name__


def install():
    install_functools()
    install_collections()
    install_hashlib()
    install_uuid()
    install_time()
    install_datetime()
    install_small()
