"""Symbolic text and bytes.

A symbolic string is a tuple of elements.  An element is
  int    a concrete character
  Ch     one symbolic character (z3 Int term, with a tracked domain)
  At     an opaque non-empty piece of text; only equality is known about it and it
         is different from every piece of literal text
  Dec    the decimal notation of a symbolic integer
  Tok    structured content produced by a stub (json document, zip file, digest ...)
"""
import string as _string
import z3
from . import core
from .core import SBool, SInt, Unsupported, band, bor, bnot, mk_bool, mk_int, ix, bx

MARK = '\ue0ff'


class El:
    __slots__ = ()


class Ch(El):
    __slots__ = ('x', 'vid')

    def __init__(self, x, vid=None):
        self.x = x
        self.vid = vid

    def __repr__(self):
        return f'Ch({self.x})'


class At(El):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return f'At({self.x})'


class Dec(El):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


class Tok(El):
    __slots__ = ()

    def eq(self, other):
        raise NotImplementedError

    def length(self):
        raise Unsupported(f'length of {type(self).__name__}')


AT_LEN = 11      # opaque pieces are x followed by ten digits


def el_len(e):
    if isinstance(e, (int, Ch)):
        return 1
    if isinstance(e, At):
        return AT_LEN
    if isinstance(e, Tok):
        return e.length()
    if isinstance(e, Dec):
        x = e.x
        if not core.mk_bool(x >= 0):
            raise Unsupported('length of a negative decimal')
        n = 1
        while not core.mk_bool(x < 10 ** n):
            n += 1
        return n
    raise Unsupported('length of opaque text')


def tok_len(tok, kind):
    """symbolic length of a structured token: equal tokens have equal length"""
    cache = core.E.path_cache.setdefault(('toklen', kind), [])
    for t, n in cache:
        if t is tok:
            return n
    n = core.E.new_int('len')
    core.E.add(n >= 2)
    core.E.add(n <= 4000)
    n = SInt(n)
    for t, m in cache:
        q = t.eq(tok)
        if q is True:
            return m
        if q is not False:
            core.E.add(z3.Implies(bx(q), m.x == n.x))
    cache.append((tok, n))
    return n


def el_eq(a, b):
    """True, False or a z3 condition"""
    ta, tb = type(a), type(b)
    if ta is int:
        if tb is int:
            return a == b
        if tb is Ch:
            a, b, ta, tb = b, a, tb, ta
        elif tb is Dec:
            a, b, ta, tb = b, a, tb, ta
        else:
            return False
    if ta is Ch:
        if tb is int:
            d = core.E.dom.get(a.vid) if a.vid is not None else None
            if d is not None and not any(l <= b <= h for l, h in d):
                return False
            return SBool(a.x == b, (a.vid, ((b, b),)) if a.vid is not None else None)
        if tb is Ch:
            if a is b or a.x.eq(b.x):
                return True
            if a.vid is not None and b.vid is not None:
                da, db = core.E.dom.get(a.vid), core.E.dom.get(b.vid)
                if da and db and not core.rng_and(da, db):
                    return False
            return mk_bool(a.x == b.x)
        if tb is Dec:
            a, b, ta, tb = b, a, tb, ta
        else:
            return False
    if ta is At:
        if tb is At:
            if a.x.eq(b.x):
                return True
            return mk_bool(a.x == b.x)
        return False
    if ta is Dec:
        if tb is Dec:
            return mk_bool(a.x == b.x)
        if tb is int:
            return mk_bool(a.x == (b - 48)) if 48 <= b <= 57 else False
        if tb is Ch:
            return band(mk_bool(b.x - 48 == a.x), mk_bool(a.x >= 0), mk_bool(a.x <= 9))
        return False
    if isinstance(a, Tok):
        if a is b:
            return True
        if isinstance(b, Tok):
            return a.eq(b)
        return False
    raise Unsupported(f'compare {ta} {tb}')


def norm_bytes(e):
    """adjacent slices of the same element are joined"""
    if not any(type(x) is PartTok for x in e):
        return e
    out = []
    for x in e:
        if type(x) is PartTok and out and type(out[-1]) is PartTok and out[-1].t is x.t and out[-1].b == x.a:
            x = PartTok(x.t, out[-1].a, x.b)
            out.pop()
        out.append(x)
    return tuple(x.t if type(x) is PartTok and x.a == 0 and x.b == el_len(x.t) else x for x in out)


def el_width(x):
    """length known without a decision, or None"""
    if type(x) in (int, Ch):
        return 1
    if type(x) is At:
        return AT_LEN
    if isinstance(x, Tok):
        n = x.fixed_len()
        return n if isinstance(n, int) else None
    return None


def split_at(e, n):
    """(first n characters, the rest), or None when the length of an element at the cut is not known"""
    p = 0
    for i, x in enumerate(e):
        if p == n:
            return e[:i], e[i:]
        w = el_width(x)
        if w is None:
            return None
        if p + w > n:
            return e[:i] + (PartTok(x, 0, n - p),), (PartTok(x, n - p, w),) + e[i + 1:]
        p += w
    return e, ()


def elems_eq(a, b):
    """bool or SBool"""
    if len(a) != len(b):
        if any(type(e) is Dec for e in a) or any(type(e) is Dec for e in b):
            return _dec_eq(a, b)
        return False
    if any(type(e) is Dec for e in a) != any(type(e) is Dec for e in b) or any(type(x) is Dec and type(y) is not Dec for x, y in zip(a, b)):
        return _dec_eq(a, b)
    conj = []
    for x, y in zip(a, b):
        r = el_eq(x, y)
        if r is False:
            return False
        if r is not True:
            conj.append(r)
    if not conj:
        return True
    if len(conj) == 1:
        return conj[0]
    return band(*conj)


def _dec_aligned(a, b):
    """same shape, every decimal notation ends at a non-digit"""
    if len(a) != len(b):
        return False
    for i, (x, y) in enumerate(zip(a, b)):
        if (type(x) is Dec) != (type(y) is Dec):
            return False
        if type(x) is Dec and i + 1 < len(a):
            for z in (a[i + 1], b[i + 1]):
                if not (type(z) is int and not 48 <= z <= 57):
                    return False
    return True


def _dec_eq(a, b):
    if _dec_aligned(a, b):
        return band(*[el_eq(x, y) for x, y in zip(a, b)])
    for k in (At, Tok):
        if sum(isinstance(x, k) for x in a) != sum(isinstance(x, k) for x in b):
            return False
    # align decimal notations with runs of concrete digits
    if sum(type(e) is Dec for e in a) == 0:
        a, b = b, a
    if any(type(e) is Dec for e in b):
        # both have one: strip the common parts
        i = 0
        conj = []
        while i < min(len(a), len(b)) and type(a[i]) is not Dec and type(b[i]) is not Dec:
            r = el_eq(a[i], b[i])
            if r is False:
                return False
            conj.append(r)
            i += 1
        a2, b2 = a[i:], b[i:]
        j = 0
        while j < min(len(a2), len(b2)) and type(a2[-1 - j]) is not Dec and type(b2[-1 - j]) is not Dec:
            r = el_eq(a2[-1 - j], b2[-1 - j])
            if r is False:
                return False
            conj.append(r)
            j += 1
        if j:
            a2, b2 = a2[:-j], b2[:-j]
        if a2 == a and b2 == b:
            # different shapes; with opaque pieces present they can not be the same text
            if any(isinstance(e, (At, Tok)) for e in a + b):
                return False
            raise Unsupported('comparison of two decimal notations in text')
        return band(*conj, elems_eq(a2, b2))
    k = [i for i, e in enumerate(a) if type(e) is Dec]
    if len(k) != 1:
        if any(isinstance(e, (At, Tok)) for e in b) != any(isinstance(e, (At, Tok)) for e in a):
            return False
        raise Unsupported('comparison with several decimal notations')
    k = k[0]
    n = len(b) - (len(a) - 1)
    if n < 1:
        return False
    digits = b[k:k + n]
    if not all(type(d) is int for d in digits):
        if any(isinstance(d, (At, Tok)) for d in digits):
            return False
        raise Unsupported('decimal notation against symbolic text')
    try:
        t = ''.join(map(chr, digits))
        v = int(t)
        if str(v) != t:
            return False
    except ValueError:
        return False
    return band(elems_eq(a[:k], b[:k]), mk_bool(a[k].x == v), elems_eq(a[k + 1:], b[k + n:]))


ATOM_ORD = ord('x')


def el_lt(a, b):
    ta, tb = type(a), type(b)
    if ta in (int, Ch) and tb in (int, Ch):
        x = a if ta is int else a.x
        y = b if tb is int else b.x
        if ta is int and tb is int:
            return a < b
        return mk_bool(x < y)
    if ta is At and tb is At:
        return mk_bool(a.x < b.x)
    if ta is At and tb is int:
        if b == ATOM_ORD:
            raise Unsupported('order of opaque text')
        return ATOM_ORD < b
    if ta is int and tb is At:
        if a == ATOM_ORD:
            raise Unsupported('order of opaque text')
        return a < ATOM_ORD
    raise Unsupported('order of structured text')


def elems_lt(a, b):
    # built from the end: f(i) = if a_i == b_i then f(i+1) else a_i < b_i
    n = min(len(a), len(b))
    r = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        q = el_eq(a[i], b[i])
        if q is True:
            continue
        lt = el_lt(a[i], b[i])
        if q is False:
            r = lt
        else:
            r = bor(band(q, r), band(bnot(q), lt))
    return r


_cache_els = {}


def els(s):
    """elements of str, SStr, bytes or SBytes"""
    t = type(s)
    if t is str:
        return tuple(map(ord, s))
    if t is bytes:
        return tuple(s)
    if isinstance(s, Seq):
        return s.e
    if isinstance(s, str):
        return tuple(map(ord, s))
    if isinstance(s, (bytes, bytearray, memoryview)):
        return tuple(bytes(s))
    raise TypeError(f'expected str or bytes, got {type(s).__name__}')


def is_conc(e):
    for x in e:
        if type(x) is not int:
            return False
    return True


def char_in(e, ranges):
    """is the character in the ranges: bool or SBool"""
    if type(e) is int:
        for l, h in ranges:
            if l <= e <= h:
                return True
        return False
    if type(e) is Ch:
        if e.vid is not None:
            d = core.E.dom.get(e.vid)
            if d is not None:
                i = core.rng_and(d, ranges)
                if not i:
                    return False
                if not core.rng_sub(d, ranges):
                    return True
        c = [z3.And(e.x >= l, e.x <= h) if l != h else e.x == l for l, h in ranges]
        return SBool(z3.Or(*c) if len(c) > 1 else c[0], (e.vid, tuple(ranges)) if e.vid is not None else None)
    raise Unsupported('character class of opaque text')


WS = ((9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0))
WSB = ((9, 13), (32, 32))
DIGIT = ((48, 57),)
LOWER = ((97, 122),)
UPPER = ((65, 90),)
ALPHA = LOWER + UPPER


_CASE = {}


def case_map(how):
    """the characters changed by lower, upper or casefold: runs (first, last, step 1 or 2, difference), and those that become several"""
    if how not in _CASE:
        runs, many = [], {}
        for c in range(0x110000):
            s = getattr(chr(c), how)()
            if len(s) > 1:
                many[c] = s
            elif ord(s) != c:
                delta = ord(s) - c
                for k in range(len(runs) - 1, max(-1, len(runs) - 3), -1):
                    lo, hi, stride, dl = runs[k]
                    if dl == delta and (c - hi == stride or (lo == hi and c - hi == 2 and k == len(runs) - 1)):
                        runs[k] = (lo, c, c - hi, dl)
                        break
                else:
                    runs.append((c, c, 1, delta))
        _CASE[how] = runs, many
    return _CASE[how]


class SeqMeta(type):
    _native = ()

    def __instancecheck__(cls, obj):
        if cls is SStr:
            return isinstance(obj, str) or type.__instancecheck__(cls, obj)
        if cls is SBytes:
            return isinstance(obj, bytes) or type.__instancecheck__(cls, obj)
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SStr and type.__subclasscheck__(str, sub):
            return True
        if cls is SBytes and type.__subclasscheck__(bytes, sub):
            return True
        return type.__subclasscheck__(cls, sub)

    def __call__(cls, *a, **k):
        if cls is SStr:
            return sx_str(*a, **k)
        if cls is SBytes:
            return sx_bytes(*a, **k)
        o = cls.__new__(cls, *a, **k)
        if type.__instancecheck__(cls, o):
            o.__init__(*a, **k)
        return o

    def __eq__(cls, other):
        if cls is SStr and other is str or cls is SBytes and other is bytes:
            return True
        return cls is other

    def __hash__(cls):
        if cls is SStr:
            return hash(str)
        if cls is SBytes:
            return hash(bytes)
        return type.__hash__(cls)

    def __repr__(cls):
        if cls is SStr:
            return "<class 'str'>"
        if cls is SBytes:
            return "<class 'bytes'>"
        return type.__repr__(cls)


class Seq(metaclass=SeqMeta):
    __slots__ = ('e', '__dict__')
    _empty = ''

    def __init__(self, *a, **k):
        pass

    # -- conversions
    @property
    def conc(self):
        """native value or None"""
        if is_conc(self.e):
            return self._native(self.e)
        return None

    def __len__(self):
        n = 0
        for x in self.e:
            l = el_len(x)
            n = n + l
        if isinstance(n, SInt):
            raise Unsupported('len() of text of symbolic length')
        return n

    def sx_len(self):
        n = 0
        for x in self.e:
            n = n + el_len(x)
        return n

    def __bool__(self):
        return len(self.e) > 0

    def __iter__(self):
        for x in self.e:
            if isinstance(x, (At, Tok, Dec)):
                raise Unsupported('iteration over opaque text')
            yield self._item(x)

    def _item(self, x):
        return self._mk((x,))

    def __eq__(self, o):
        if not self._compatible(o):
            return False
        return elems_eq(self.e, els(o))

    def __ne__(self, o):
        return bnot(self == o)

    def _compatible(self, o):
        raise NotImplementedError

    def __lt__(self, o):
        if not self._compatible(o):
            return NotImplemented
        return elems_lt(self.e, els(o))

    def __gt__(self, o):
        if not self._compatible(o):
            return NotImplemented
        return elems_lt(els(o), self.e)

    def __le__(self, o):
        if not self._compatible(o):
            return NotImplemented
        return bnot(elems_lt(els(o), self.e))

    def __ge__(self, o):
        if not self._compatible(o):
            return NotImplemented
        return bnot(elems_lt(self.e, els(o)))

    def __hash__(self):
        c = self.conc
        if c is None:
            raise Unsupported('hash of symbolic text')
        return hash(c)

    def __add__(self, o):
        if not self._compatible(o):
            return NotImplemented
        return self._mk(self.e + els(o))

    def __radd__(self, o):
        if not self._compatible(o):
            return NotImplemented
        return self._mk(els(o) + self.e)

    def __mul__(self, n):
        return self._mk(self.e * n.__index__())
    __rmul__ = __mul__

    def __contains__(self, sub):
        return bool(contains(self, sub))

    def _flat(self):
        """elements, provided indexing by position is meaningful"""
        for x in self.e:
            if type(x) is not int and type(x) is not Ch:
                return False
        return True

    def __getitem__(self, k):
        e = self.e
        if isinstance(k, slice):
            st, sp, step = k.start, k.stop, k.step
            st = st.__index__() if isinstance(st, SInt) else st
            sp = sp.__index__() if isinstance(sp, SInt) else sp
            if not self._flat():
                return self._slice_tokens(st, sp, step)
            return self._mk(e[slice(st, sp, step)])
        if not isinstance(k, int):
            k = k.__index__()
        if not self._flat():
            if k >= 0 and all(type(x) in (int, Ch) for x in e[:k + 1]) and k < len(e):
                return self._item(e[k])
            if k < 0 and -k <= len(e) and all(type(x) in (int, Ch) for x in e[k:]):
                return self._item(e[k])
            raise Unsupported('index into opaque text')
        return self._item(e[k])

    def _slice_tokens(self, st, sp, step):
        e = self.e
        if step not in (None, 1):
            raise Unsupported('slice of opaque text')
        widths = []
        for x in e:
            widths.append(el_width(x))
        if None not in widths:
            n = sum(widths)
            a, b, _ = slice(st, sp).indices(n)
            out = []
            p = 0
            for x, w in zip(e, widths):
                lo, hi = max(a, p), min(b, p + w)
                if lo < hi:
                    if lo == p and hi == p + w:
                        out.append(x)
                    else:
                        out.append(PartTok(x, lo - p, hi - p))
                p += w
            return self._mk(tuple(out))
        # prefix/suffix made of characters only
        lead = 0
        while lead < len(e) and widths[lead] == 1:
            lead += 1
        tail = 0
        while tail < len(e) and widths[-1 - tail] == 1:
            tail += 1
        st = 0 if st is None else st
        if 0 <= st <= lead:
            if sp is None:
                return self._mk(e[st:])
            if sp < 0 and -sp <= tail:
                return self._mk(e[st:len(e) + sp])
            if 0 <= sp <= lead:
                return self._mk(e[st:sp])
            if sp >= 0 and sp <= lead:
                return self._mk(e[st:sp])
        elif st < 0 and -st <= tail and (sp is None or (sp < 0 and -sp <= tail)):
            return self._mk(e[len(e) + st:(len(e) + sp) if sp is not None else None])
        raise Unsupported('slice of opaque text')

    # -- searching
    def _arg(self, o):
        if not self._compatible(o):
            raise TypeError(f'must be {self._empty.__class__.__name__}, not {type(o).__name__}')
        return els(o)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        e = self.e if start == 0 and end is None else els(self[start:end])
        p = self._arg(p)
        if len(e) < len(p):
            return False
        return elems_eq(e[:len(p)], p)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        e = self.e if start == 0 and end is None else els(self[start:end])
        p = self._arg(p)
        if len(e) < len(p):
            return False
        return elems_eq(e[len(e) - len(p):], p)

    def _find(self, sub, start=0, end=None):
        e = self.e
        n, m = len(e), len(sub)
        end = n if end is None else min(end, n) if end >= 0 else n + end
        if start < 0:
            start = max(0, n + start)
        for i in range(start, end - m + 1):
            if elems_eq(e[i:i + m], sub):
                return i
        return -1

    def _rfind(self, sub, start=0, end=None):
        e = self.e
        n, m = len(e), len(sub)
        end = n if end is None else min(end, n) if end >= 0 else n + end
        for i in range(end - m, start - 1, -1):
            if elems_eq(e[i:i + m], sub):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        r = self._find(self._arg(sub), start or 0, end)
        if r > 0 and not self._mk_flat(self.e[:r]):
            raise Unsupported('position in opaque text')
        return r

    @staticmethod
    def _mk_flat(e):
        return all(type(x) in (int, Ch) for x in e)

    def rfind(self, sub, start=0, end=None):
        r = self._rfind(self._arg(sub), start or 0, end)
        if r > 0 and not self._mk_flat(self.e[:r]):
            raise Unsupported('position in opaque text')
        return r

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        sub = self._arg(sub)
        e = self.e
        n, i, m = 0, start or 0, len(sub)
        while i + m <= len(e):
            if elems_eq(e[i:i + m], sub):
                n += 1
                i += max(m, 1)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        old, new = self._arg(old), self._arg(new)
        e = self.e
        if not old:
            raise Unsupported('replace of empty text')
        out = []
        i, m = 0, len(old)
        while i < len(e):
            if count != 0 and i + m <= len(e) and elems_eq(e[i:i + m], old):
                out.extend(new)
                i += m
                count -= 1
            else:
                out.append(e[i])
                i += 1
        return self._mk(tuple(out))

    def _ws(self):
        return WS

    def split(self, sep=None, maxsplit=-1):
        e = self.e
        out = []
        if sep is None:
            i = 0
            n = len(e)
            while i < n:
                while i < n and not isinstance(e[i], (At, Tok, Dec)) and char_in(e[i], self._ws()):
                    i += 1
                if i >= n:
                    break
                if maxsplit == 0:
                    rest = self._mk(e[i:])
                    out.append(rest.rstrip() if rest else rest)
                    return out
                j = i
                while j < n and (isinstance(e[j], (At, Tok, Dec)) or not char_in(e[j], self._ws())):
                    j += 1
                out.append(self._mk(e[i:j]))
                maxsplit -= 1
                i = j
            return out
        sep = self._arg(sep)
        if not sep:
            raise ValueError('empty separator')
        m = len(sep)
        last = i = 0
        while i + m <= len(e):
            if maxsplit != 0 and elems_eq(e[i:i + m], sep):
                out.append(self._mk(e[last:i]))
                i += m
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self._mk(e[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on white space')
        sep = self._arg(sep)
        m = len(sep)
        out = []
        e = self.e
        end = len(e)
        while maxsplit > 0:
            i = self._mk_seq(e[:end])._rfind(sep)
            if i < 0:
                break
            out.append(self._mk(e[i + m:end]))
            end = i
            maxsplit -= 1
        out.append(self._mk(e[:end]))
        return out[::-1]

    def _mk_seq(self, e):
        s = object.__new__(SStr if isinstance(self, SStr) else SBytes)
        s.e = tuple(e)
        return s

    def splitlines(self, keepends=False):
        out = []
        cur = []
        e = self.e
        i = 0
        while i < len(e):
            x = e[i]
            if not isinstance(x, (At, Tok, Dec)) and char_in(x, ((10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029))):
                sep = [x]
                if i + 1 < len(e) and elems_eq(e[i:i + 2], (13, 10)):
                    sep.append(e[i + 1])
                    i += 1
                out.append(self._mk(tuple(cur + (sep if keepends else []))))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(self._mk(tuple(cur)))
        return out

    def partition(self, sep):
        p = self._arg(sep)
        i = self._find(p)
        if i < 0:
            return self._mk(self.e), self._empty, self._empty
        return self._mk(self.e[:i]), sep, self._mk(self.e[i + len(p):])

    def rpartition(self, sep):
        p = self._arg(sep)
        i = self._rfind(p)
        if i < 0:
            return self._empty, self._empty, self._mk(self.e)
        return self._mk(self.e[:i]), sep, self._mk(self.e[i + len(p):])

    def removeprefix(self, p):
        if self.startswith(p):
            return self._mk(self.e[len(els(p)):])
        return self._mk(self.e)

    def removesuffix(self, p):
        if p and self.endswith(p):
            return self._mk(self.e[:len(self.e) - len(els(p))])
        return self._mk(self.e)

    def _strip_pred(self, chars):
        if chars is None:
            rng = self._ws()
        else:
            ce = els(chars)
            if not is_conc(ce):
                raise Unsupported('strip of symbolic characters')
            rng = tuple((c, c) for c in ce)
        return lambda x: (not isinstance(x, (At, Tok, Dec))) and bool(char_in(x, rng))

    def lstrip(self, chars=None):
        p = self._strip_pred(chars)
        e = self.e
        i = 0
        while i < len(e) and p(e[i]):
            i += 1
        return self._mk(e[i:])

    def rstrip(self, chars=None):
        p = self._strip_pred(chars)
        e = self.e
        j = len(e)
        while j > 0 and p(e[j - 1]):
            j -= 1
        return self._mk(e[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def join(self, items):
        out = []
        first = True
        sep = self.e
        for it in items:
            if not first:
                out.extend(sep)
            first = False
            if not self._compatible(it):
                raise TypeError(f'sequence item: expected str instance, {type(it).__name__} found')
            out.extend(els(it))
        return self._mk(tuple(out))

    def _all(self, ranges):
        if not self.e:
            return False
        for x in self.e:
            if not char_in(x, ranges):
                return False
        return True

    def isdigit(self):
        return self._all(DIGIT)
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA + DIGIT)

    def isspace(self):
        return self._all(self._ws())

    def isascii(self):
        return all(isinstance(x, (At, Tok, Dec)) or bool(char_in(x, ((0, 127),))) for x in self.e)

    def isprintable(self):
        for x in self.e:
            if not isinstance(x, (At, Tok, Dec)) and char_in(x, ((0, 31), (127, 160))):
                return False
        return True

    def islower(self):
        raise Unsupported('islower')

    def isupper(self):
        raise Unsupported('isupper')

    def isidentifier(self):
        if not self.e:
            return False
        if not char_in(self.e[0], ALPHA + ((95, 95),)):
            return False
        return all(char_in(x, ALPHA + DIGIT + ((95, 95),)) for x in self.e[1:])

    def _case(self, how):
        out = []
        for x in self.e:
            if type(x) is int:
                if x == 0x3a3 and how == 'lower' and len(self.e) > 1:
                    raise Unsupported('final sigma')
                out.extend(map(ord, getattr(chr(x), how)()))
                continue
            if type(x) is not Ch:
                raise Unsupported('case of opaque text')
            runs, many = case_map(how)
            d = core.E.dom.get(x.vid) if x.vid is not None else None
            special = [c for c in many if d is None or core.rng_and(d, ((c, c),))]
            if how == 'lower' and len(self.e) > 1:
                special.append(0x3a3)
            if special and char_in(x, tuple((c, c) for c in special)):
                for c in special:
                    if char_in(x, ((c, c),)):
                        if c == 0x3a3:
                            raise Unsupported('final sigma')
                        out.extend(map(ord, many[c]))
                        break
                else:
                    raise Unsupported('case')
                continue
            r = x.x
            for lo, hi, stride, delta in runs:
                if d is not None and not core.rng_and(d, ((lo, hi),)):
                    continue
                c = z3.And(x.x >= lo, x.x <= hi) if lo != hi else x.x == lo
                if stride == 2:
                    c = z3.And(c, (x.x - lo) % 2 == 0)
                r = z3.If(c, x.x + delta, r)
            out.append(x if r is x.x else Ch(r))
        return self._mk(tuple(out))

    def lower(self):
        return self._case('lower')

    def casefold(self):
        return self._case('casefold')

    def upper(self):
        return self._case('upper')

    def _pad(self, width, fill, mode):
        n = width - len(self)
        if n <= 0:
            return self._mk(self.e)
        f = els(fill)
        if mode == '<':
            return self._mk(self.e + f * n)
        if mode == '>':
            return self._mk(f * n + self.e)
        return self._mk(f * (n // 2) + self.e + f * (n - n // 2))

    def ljust(self, w, fill=' '):
        return self._pad(w, fill, '<')

    def rjust(self, w, fill=' '):
        return self._pad(w, fill, '>')

    def center(self, w, fill=' '):
        return self._pad(w, fill, '^')

    def zfill(self, w):
        return self._pad(w, '0', '>')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        native = str if isinstance(self, SStr) else bytes
        if hasattr(native, name):
            c = self.conc
            if c is not None:
                return getattr(c, name)
            raise Unsupported(f'{native.__name__}.{name} on symbolic text')
        raise AttributeError(name)


class Big(Tok):
    """a big opaque content of known size; its identity is symbolic"""
    __slots__ = ('x', 'size')

    def __init__(self, x, size):
        self.x, self.size = x, size

    def eq(self, o):
        if type(o) is not Big or o.size != self.size:
            return False
        return mk_bool(self.x == o.x)

    def fixed_len(self):
        return self.size

    def length(self):
        return self.size


class PartTok(Tok):
    """a slice of an element of fixed length; equal iff same slice of equal elements"""
    __slots__ = ('t', 'a', 'b')

    def __init__(self, t, a, b):
        if type(t) is PartTok:
            t, a, b = t.t, t.a + a, t.a + b
        self.t, self.a, self.b = t, a, b

    def eq(self, o):
        if type(o) is not PartTok or (o.a, o.b) != (self.a, self.b):
            return False
        if type(self.t) is At or type(o.t) is At:
            r = el_eq(self.t, o.t)
            if r is True:
                return True
            raise Unsupported('comparison of pieces of opaque text')
        return self.t.eq(o.t)

    def fixed_len(self):
        return self.b - self.a

    def length(self):
        return self.b - self.a


Tok.fixed_len = lambda self: None


class SStr(Seq):
    __slots__ = ()
    _empty = ''

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.e = els(sx_str(*a, **k))
        return o

    @staticmethod
    def _native(e):
        return ''.join(map(chr, e))

    @staticmethod
    def _mk(e):
        if is_conc(e):
            return ''.join(map(chr, e))
        s = object.__new__(SStr)
        s.e = norm_bytes(tuple(e))
        return s

    def _compatible(self, o):
        return isinstance(o, str) or type.__instancecheck__(SStr, o)

    def __str__(self):
        c = self.conc
        if c is not None:
            return c
        return MARK + '<sym>' + MARK

    def __repr__(self):
        c = self.conc
        if c is not None:
            return repr(c)
        return MARK + '<sym>' + MARK

    def __format__(self, spec):
        r = sx_format(self, spec)
        return str(r)

    def __mod__(self, args):
        return sx_mod(self, args)

    def encode(self, encoding='utf-8', errors='strict'):
        c = self.conc
        if c is not None:
            return c.encode(encoding, errors)
        if encoding.lower().replace('-', '').replace('_', '') not in ('utf8', 'ascii'):
            raise Unsupported(f'encode to {encoding}')
        out = []
        for x in self.e:
            if type(x) is int:
                out.extend(chr(x).encode(encoding, errors))
            elif type(x) is Ch:
                if not char_in(x, ((0, 127),)):
                    if encoding.lower() == 'ascii':
                        raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range')
                    out.append(Utf8(x))
                else:
                    out.append(x)
            else:
                out.append(x)
        return SBytes._mk(tuple(out))

    def format_map(self, mapping):
        return sx_strformat(self, (), mapping)

    def format(self, *a, **k):
        return sx_strformat(self, a, k)

    def __fspath__(self):
        raise Unsupported('symbolic path used natively')

    @staticmethod
    def maketrans(x, *a):
        if not a:
            return {(ord(k) if isinstance(k, str) else k): v for k, v in x.items()}
        return str.maketrans(x, *a)

    def translate(self, table):
        out = []
        keys = None
        for x in self.e:
            if type(x) is int:
                out.extend(map(ord, chr(x).translate(table)))
            elif type(x) is Ch:
                if keys is None:
                    keys = sorted(table.keys() if hasattr(table, 'keys') else range(len(table)))
                for k in keys:
                    if char_in(x, ((k, k),)):
                        out.extend(map(ord, chr(k).translate(table)))
                        break
                else:
                    out.append(x)
            else:
                out.append(x)
        return SStr._mk(tuple(out))

    @staticmethod
    def fromhex(s):
        raise Unsupported('fromhex')


class Utf8(Tok):
    """utf-8 encoding of one symbolic non-ascii character"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def eq(self, o):
        return type(o) is Utf8 and el_eq(self.c, o.c)

    def length(self):
        return 2


class SBytes(Seq):
    __slots__ = ()
    _empty = b''

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.e = els(sx_bytes(*a, **k))
        return o

    @staticmethod
    def _native(e):
        return bytes(e)

    @staticmethod
    def _mk(e):
        if is_conc(e):
            return bytes(e)
        s = object.__new__(SBytes)
        s.e = norm_bytes(tuple(e))
        return s

    def _ws(self):
        return WSB

    def _item(self, x):
        return x if type(x) is int else SInt(x.x)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Seq.__getitem__(self, k)
        return Seq.__getitem__(self, k)

    def _compatible(self, o):
        return isinstance(o, (bytes, bytearray, memoryview)) or type.__instancecheck__(SBytes, o)

    def decode(self, encoding='utf-8', errors='strict'):
        c = self.conc
        if c is not None:
            return c.decode(encoding, errors)
        out = []
        run = []

        def flush():
            if run:
                out.extend(map(ord, bytes(run).decode(encoding, errors)))
                run.clear()
        for x in self.e:
            if type(x) is int:
                run.append(x)
            else:
                flush()
                if type(x) is Ch:
                    if not char_in(x, ((0, 127),)):
                        raise Unsupported('decode of symbolic non-ascii byte')
                    out.append(x)
                elif type(x) is Utf8:
                    out.append(x.c)
                else:
                    out.append(x)
        flush()
        return SStr._mk(tuple(out))

    def hex(self):
        c = self.conc
        if c is not None:
            return c.hex()
        raise Unsupported('hex of symbolic bytes')

    def __str__(self):
        c = self.conc
        return str(c) if c is not None else MARK + '<symbytes>' + MARK
    __repr__ = __str__


class SByteArray(SBytes):
    """bytearray, also a memoryview of one"""
    __slots__ = ('size', 'filled')
    __hash__ = None

    def __init__(self, o=b'', *a):
        self.filled = None
        if isinstance(o, SInt):
            o = o.__index__()
        # a large buffer is there to be read into
        self.size = o if type(o) is int else None
        self.e = (0,) * min(o, 1) if type(o) is int else els(sx_bytes(o, *a))

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def _whole(self):
        if self.size is not None:
            if self.filled is not None:
                raise Unsupported('buffer with the rest of an earlier content')
            self.e = (0,) * self.size
            self.size = None
        return self

    def __len__(self):
        return self.size if self.size is not None else SBytes.__len__(self)

    def sx_len(self):
        return self.size if self.size is not None else SBytes.sx_len(self)

    def __bool__(self):
        return bool(self.sx_len() != 0)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1) and self.filled is not None:
            data, n = self.filled
            stop = k.stop
            if stop is n or (not isinstance(stop, SInt) and not isinstance(n, SInt) and stop == n):
                return data
            if isinstance(stop, SInt) and isinstance(n, SInt) and stop.x.eq(n.x):
                return data
        return SBytes.__getitem__(self._whole(), k)

    def fill(self, data):
        n = sx_len_of(data)
        if self.size is None and type(n) is int and type(len(self)) is int:
            self.e = tuple(els(data)) + self.e[n:]
        else:
            self.size = self.sx_len()
            self.filled = (data, n)
            self.e = (0,)
        return n

    def extend(self, o):
        self._whole()
        self.e = self.e + tuple(els(sx_bytes(o)))

    def append(self, o):
        self.extend([o])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def clear(self):
        self.e = ()
        self.size = self.filled = None

    def __setitem__(self, k, v):
        if isinstance(k, slice) and k == slice(None, None, None):
            self.clear()
            return self.extend(v)
        if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1) and k.stop is not None:
            n = sx_len_of(v)
            if k.stop is n or bool(k.stop == n):
                return self.fill(v)
        raise Unsupported('assignment into a bytearray')

    def __delitem__(self, k):
        if not isinstance(k, slice):
            raise Unsupported('deletion from a bytearray')
        whole = self._whole()
        kept = SBytes.__getitem__(whole, slice(None, k.start)) if k.start else b''
        rest = SBytes.__getitem__(whole, slice(k.stop, None)) if k.stop is not None else b''
        self.e = tuple(els(kept)) + tuple(els(rest))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def release(self):
        pass

    def tobytes(self):
        return sx_bytes(self._whole())

    @property
    def nbytes(self):
        return self.sx_len()


class SMemoryView(SByteArray):
    __slots__ = ('base',)

    def __new__(cls, o):
        return o if type.__instancecheck__(SByteArray, o) else SByteArray(o)


def mk_str(e):
    return SStr._mk(tuple(e))


def mk_bytes(e):
    return SBytes._mk(tuple(e))


def contains(s, sub):
    """sub in s as bool|SBool (no fork)"""
    if type(s) is str and type(sub) is str:
        return sub in s
    if isinstance(s, (str, SStr)):
        if not isinstance(sub, (str, SStr)):
            raise TypeError("'in <string>' requires string as left operand")
    e, p = els(s), els(sub)
    if is_conc(e) and is_conc(p):
        if isinstance(s, SBytes):
            return bytes(p) in bytes(e)
        return ''.join(map(chr, p)) in ''.join(map(chr, e))
    m = len(p)
    if m == 0:
        return True
    alts = []
    for i in range(len(e) - m + 1):
        r = elems_eq(e[i:i + m], p)
        if r is True:
            return True
        if r is not False:
            alts.append(r)
    if len(alts) == 1:
        return alts[0]
    return bor(*alts)


# ---------------------------------------------------------------------------
# conversions used by the rebound builtins and the source instrumentation
# ---------------------------------------------------------------------------
def sx_str(*a, **k):
    if not a and not k:
        return ''
    o = a[0] if a else k.get('object', '')
    if len(a) > 1 or 'encoding' in k:
        enc = a[1] if len(a) > 1 else k['encoding']
        return o.decode(enc)
    t = type(o)
    if t is str:
        return o
    if isinstance(o, Seq):
        if isinstance(o, SStr):
            if t is SStr:
                return o
            f = getattr(t, '__str__', None)
            if f is not SStr.__str__ and f is not None:
                return f(o)
            return SStr._mk(o.e)
        c = o.conc
        if c is not None:
            return str(c)
        raise Unsupported('str of symbolic bytes')
    if t is SInt:
        return mk_str((Dec(o.x),))
    if t is SBool:
        return 'True' if o else 'False'
    if isinstance(o, str):
        return str(o)
    if isinstance(o, BaseException):
        f = t.__str__
        if f in (BaseException.__str__, OSError.__str__, KeyError.__str__):
            if isinstance(o, OSError):
                parts = [x for x in (getattr(o, 'sx_filename', None),) if x is not None]
                if not parts:
                    return str(o)
                return sx_join('', [f'[Errno {o.errno}] {o.strerror}: ', sx_repr(parts[0])])
            if len(o.args) == 0:
                return ''
            if len(o.args) == 1:
                return sx_repr(o.args[0]) if isinstance(o, KeyError) else sx_str(o.args[0])
            return sx_repr(o.args)
        return f(o)
    f = t.__str__
    if f is object.__str__:
        return sx_repr(o)
    if isinstance(f, _pyfunc):
        return f(o)
    if t in (list, tuple, dict, set, frozenset):
        return sx_repr(o)
    return str(o)


_pyfunc = type(lambda: 0)


def sx_repr(o):
    t = type(o)
    if isinstance(o, Seq):
        c = o.conc
        if c is not None:
            return repr(c)
        if isinstance(o, SStr):
            return mk_str((39,) + o.e + (39,))
        return mk_str((98, 39) + o.e + (39,))
    if t is SInt:
        return mk_str((Dec(o.x),))
    if t is SBool:
        return 'True' if o else 'False'
    if t is list:
        return sx_join('', ['[', sx_join(', ', [sx_repr(x) for x in o]), ']'])
    if t is tuple:
        if len(o) == 1:
            return sx_join('', ['(', sx_repr(o[0]), ',)'])
        return sx_join('', ['(', sx_join(', ', [sx_repr(x) for x in o]), ')'])
    if isinstance(o, BaseException) and t.__repr__ is BaseException.__repr__:
        return sx_join('', [t.__name__, '(', sx_join(', ', [sx_repr(x) for x in o.args]), ')'])
    f = t.__repr__
    if isinstance(f, _pyfunc):
        return f(o)
    return repr(o)


def sx_join(sep, items):
    items = list(items)
    if type(sep) is str and all(type(x) is str for x in items):
        return sep.join(items)
    s = object.__new__(SStr)
    s.e = els(sep)
    return s.join(items)


def sx_join_bytes(items):
    out = []
    for x in items:
        out.extend(els(x))
    return mk_bytes(tuple(out))


def sx_len_of(s):
    return s.sx_len() if isinstance(s, Seq) else len(s)


def encode_for_write(data, encoding):
    """text handed to a text file; encoding errors surface here"""
    if isinstance(data, Seq):
        return data.encode(encoding or 'utf-8')
    return data.encode(encoding or 'utf-8')


def sx_bytes(*a, **k):
    if not a:
        return b''
    o = a[0]
    if type(o) is bytes:
        return o
    if isinstance(o, Seq) and isinstance(o, SBytes):
        return SBytes._mk(o.e)
    if isinstance(o, (str, SStr)):
        return o.encode(*(a[1:] or (k.get('encoding', 'utf-8'),)))
    if isinstance(o, SInt):
        return bytes(o.__index__())
    if isinstance(o, (list, tuple)) and any(isinstance(x, SInt) for x in o):
        return mk_bytes(tuple(Ch(x.x) if isinstance(x, SInt) else x for x in o))
    return bytes(*a, **k)


def sx_format(o, spec=''):
    t = type(o)
    if spec == '' or spec is None:
        if t is int or t is float or t is bool or t is str:
            return format(o)
        f = t.__format__
        if isinstance(o, Seq) or t in (SInt, SBool) or f is object.__format__:
            return sx_str(o)
        if isinstance(f, _pyfunc):
            return f(o, '')
        return sx_str(o)
    if isinstance(spec, Seq):
        spec = spec.conc
        if spec is None:
            raise Unsupported('symbolic format specification')
    if t is SInt:
        return fmt_int(o, spec)
    if isinstance(o, Seq):
        c = o.conc
        if c is not None:
            return format(c, spec)
        import re
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?', spec)
        if not m:
            raise Unsupported(f'format {spec}')
        r = o
        if m.group(4):
            r = r[:int(m.group(4))]
        if m.group(3):
            r = (r if isinstance(r, Seq) else SStr.__new__(SStr, r))._pad(int(m.group(3)), m.group(1) or ' ', m.group(2) or '<')
        return r
    f = t.__format__
    if isinstance(f, _pyfunc):
        return f(o, spec)
    return format(o, spec)


def fmt_int(o, spec):
    import re
    m = re.fullmatch(r'(0)?(\d+)?d?', spec)
    if m and m.group(1) and m.group(2):
        return pad_digits(o, int(m.group(2)))
    if m and not m.group(2):
        return sx_str(o)
    return format(o.__index__(), spec)


def pad_digits(o, w):
    """zero padded decimal notation of width w (o >= 0 and fits, else falls back)"""
    if isinstance(o, int):
        return f'{o:0{w}d}'
    if o < 0 or o >= 10 ** w:
        return f'{o.__index__():0{w}d}'
    e = core.E
    cache = e.path_cache.setdefault('pad', {})
    key = (o.x.get_id(), w)
    if key not in cache:
        out = []
        v = z3.IntVal(0)
        for k in range(w):
            x = e.new_int('digit')
            e.add(z3.And(x >= 48, x <= 57))
            vid = ('digit', str(x))
            e.dom[vid] = ((48, 57),)
            core.bound(x, 48, 57)
            out.append(Ch(x, vid))
            v = v * 10 + (x - 48)
        e.add(v == o.x)
        cache[key] = mk_str(tuple(out)), o
    return cache[key][0]


def sx_fstr(*parts):
    """parts: str literals or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = sx_repr(v)
        out.append(sx_format(v, spec))
    return sx_join('', out)


def _is_sym(o):
    if isinstance(o, Seq) or type(o) in (SInt, SBool):
        return True
    if isinstance(o, (tuple, list)):
        return any(_is_sym(x) for x in o)
    return type(o).__module__.startswith('sx.') or isinstance(type(o).__str__, _pyfunc) or isinstance(type(o).__repr__, _pyfunc)


def sx_mod(fmt, args):
    if isinstance(fmt, (bytes, SBytes)):
        return _mod_bytes(fmt, args)
    if isinstance(fmt, (int, float, SInt)) or not isinstance(fmt, (str, SStr)):
        return fmt % args
    if isinstance(fmt, Seq):
        c = fmt.conc
        if c is None:
            raise Unsupported('symbolic % format')
        fmt = c
    if isinstance(args, dict) or hasattr(args, 'keys'):
        import re
        out, pos = [], 0
        for m in re.finditer(r'%\((\w+)\)([-#0 +]*\d*(?:\.\d+)?)([sdri])|%%', fmt):
            out.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(0) == '%%':
                out.append('%')
                continue
            out.append(_mod_one(m.group(2), m.group(3), args[m.group(1)]))
        out.append(fmt[pos:])
        return sx_join('', out)
    tup = args if isinstance(args, tuple) else (args,)
    if not any(_is_sym(a) for a in tup):
        return fmt % args
    import re
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == '%':
            out.append('%')
            continue
        if k >= len(tup):
            raise TypeError('not enough arguments for format string')
        out.append(_mod_one(m.group(1), m.group(2), tup[k]))
        k += 1
    if k != len(tup):
        raise TypeError('not all arguments converted during string formatting')
    out.append(fmt[pos:])
    return sx_join('', out)


def _mod_bytes(fmt, args):
    tup = args if isinstance(args, tuple) else (args,)
    if isinstance(fmt, Seq):
        c = fmt.conc
        if c is None:
            raise Unsupported('symbolic % format')
        fmt = c
    if isinstance(args, dict) or not any(_is_sym(a) for a in tup):
        return fmt % args
    import re
    out, pos, k = [], 0, 0
    for m in re.finditer(rb'%([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group(2).decode()
        if conv == '%':
            out.append(b'%')
            continue
        if k >= len(tup):
            raise TypeError('not enough arguments for format string')
        v = tup[k]
        k += 1
        if conv in 'bs' and not m.group(1):
            if not isinstance(v, (bytes, SBytes, bytearray, memoryview)):
                raise TypeError(f"%b requires a bytes-like object, or an object that implements __bytes__, not '{type(v).__name__}'")
            out.append(v)
        else:
            out.append(_mod_one(m.group(1).decode(), conv, v).encode('ascii'))
    if k != len(tup):
        raise TypeError('not all arguments converted during bytes formatting')
    out.append(fmt[pos:])
    return sx_join_bytes(out)


def _mod_one(flags, conv, v):
    if conv == 's':
        r = sx_str(v)
    elif conv == 'r':
        r = sx_repr(v)
    elif conv in 'di':
        if isinstance(v, SInt):
            if not flags:
                return sx_str(v)
            return fmt_int(v, flags + 'd')
        return ('%' + flags + conv) % v
    else:
        if _is_sym(v):
            raise Unsupported(f'%{conv} of symbolic value')
        return ('%' + flags + conv) % v
    if flags:
        return sx_format(r, ('>' + flags) if not flags.startswith('-') else '<' + flags[1:]) if isinstance(r, Seq) else ('%' + flags + 's') % r
    return r


def sx_strformat(fmt, a, k):
    if isinstance(fmt, Seq):
        c = fmt.conc
        if c is None:
            raise Unsupported('symbolic format string')
        fmt = c
    out = []
    auto = 0
    F = _string.Formatter()
    for lit, field, spec, conv in F.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        v, _ = F.get_field(field, a, k)
        if conv == 'r':
            v = sx_repr(v)
        elif conv == 's':
            v = sx_str(v)
        if spec and '{' in spec:
            spec = sx_strformat(spec, a, k)
        out.append(sx_format(v, spec or ''))
    return sx_join('', out)


def sx_int(*a, **k):
    """int(...)"""
    if not a:
        return int(**k)
    o = a[0]
    if isinstance(o, core.SFloat):
        return o.__trunc__()
    if isinstance(o, Seq):
        c = o.conc
        if c is not None:
            return int(c, *a[1:], **k)
        if len(a) > 1 or k:
            raise Unsupported('int with base of symbolic text')
        return parse_int(o)
    if isinstance(o, SInt):
        return o
    if isinstance(o, SBool):
        return core.ite(o, 1, 0)
    t = type(o)
    if t not in (int, float, str, bytes, bool) and isinstance(getattr(t, '__int__', None), _pyfunc):
        return o.__int__()
    return int(*a, **k)


UNI_DIGITS = tuple((c, c) for c in range(128, 0x10000) if chr(c).isdecimal())


def parse_int(s):
    s = s.strip()
    if not isinstance(s, Seq):
        return int(s)
    e = s.e
    if len(e) == 1 and type(e[0]) is Dec:
        return mk_int(e[0].x)
    neg = False
    i = 0
    if e and not isinstance(e[0], (At, Tok, Dec)) and char_in(e[0], ((43, 43), (45, 45))):
        neg = bool(char_in(e[0], ((45, 45),)))
        i = 1
    if i >= len(e):
        raise ValueError('invalid literal for int() with base 10')
    v = z3.IntVal(0)
    prev_us = True
    for x in e[i:]:
        if isinstance(x, (At, Tok, Dec)):
            raise ValueError('invalid literal for int() with base 10')
        if char_in(x, ((95, 95),)):
            if prev_us:
                raise ValueError('invalid literal for int() with base 10')
            prev_us = True
            continue
        if not char_in(x, DIGIT):
            if type(x) is Ch and char_in(x, UNI_DIGITS):
                raise Unsupported('non-ascii digit')
            raise ValueError('invalid literal for int() with base 10')
        prev_us = False
        v = v * 10 + ((x if type(x) is int else x.x) - 48)
    if prev_us:
        raise ValueError('invalid literal for int() with base 10')
    v = z3.simplify(v)
    return mk_int(-v if neg else v)
