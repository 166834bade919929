"""dict and set lookalikes whose keys may be symbolic (insertion ordered, linear search)."""
from . import core
from .core import SBool, SInt, Unsupported, band, bor, bnot
from .text import Seq, SStr

SYM = object()


class _K:
    """identity key of an entry with a symbolic key"""
    __slots__ = ()


def ckey(k):
    t = type(k)
    if t is str or t is int or k is None:
        return k
    if isinstance(k, Seq):
        c = k.conc
        return SYM if c is None else c
    if t is bool or t is float or t is bytes:
        return k
    if t is SInt or t is SBool:
        return SYM
    if t is tuple:
        out = []
        for x in k:
            c = ckey(x)
            if c is SYM:
                return SYM
            out.append(c)
        return ('t', *out)
    f = getattr(k, 'sx_ckey', None)
    if f is not None and not isinstance(k, type):
        return f()
    h = t.__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{t.__name__}'")
    if h is object.__hash__:
        return k
    at = getattr(t, '__attrs_attrs__', None)
    if at is not None:
        out = [t]
        for a in at:
            if a.eq:
                c = ckey(getattr(k, a.name))
                if c is SYM:
                    return SYM
                out.append(c)
        return tuple(out)
    df = getattr(t, '__dataclass_fields__', None)
    if df is not None:
        out = [t]
        for n, a in df.items():
            if a.compare:
                c = ckey(getattr(k, n))
                if c is SYM:
                    return SYM
                out.append(c)
        return tuple(out)
    try:
        hash(k)
    except Unsupported:
        return SYM
    return k


def keys_eq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*[keys_eq(x, y) for x, y in zip(a, b)])
    return a == b


def _unpack_pairs(src):
    if isinstance(src, (SymDict, dict)) or hasattr(src, 'keys'):
        return [(k, src[k]) for k in src.keys()]
    return [(k, v) for k, v in src]


class DictMeta(type):
    def __instancecheck__(cls, obj):
        if cls is SymDict and isinstance(obj, dict):
            return True
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SymDict and type.__subclasscheck__(dict, sub):
            return True
        return type.__subclasscheck__(cls, sub)

    def __eq__(cls, o):
        return cls is o or (cls is SymDict and o is dict)

    def __hash__(cls):
        return hash(dict) if cls is SymDict else type.__hash__(cls)

    def __repr__(cls):
        return "<class 'dict'>" if cls is SymDict else type.__repr__(cls)


class SymDict(metaclass=DictMeta):
    def __init__(self, *a, **kw):
        if not hasattr(self, 'd'):
            self.d = {}
            self.nsym = 0
        if a:
            for k, v in _unpack_pairs(a[0]):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __class_getitem__(cls, item):
        return dict[item]

    def _find(self, k):
        """internal key or None"""
        c = ckey(k)
        d = self.d
        if c is not SYM:
            if c in d:
                return c
            if not self.nsym:
                return None
            for ik, (key, _) in d.items():
                if type(ik) is _K and keys_eq(k, key):
                    return ik
            return None
        for ik, (key, _) in list(d.items()):
            if key is k:
                return ik
        for ik, (key, _) in list(d.items()):
            if keys_eq(k, key):
                return ik
        return None

    def __getitem__(self, k):
        ik = self._find(k)
        if ik is None and None not in self.d or ik is None and not self._has_none(k):
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self.d[ik][1]

    def _has_none(self, k):
        return k is None and None in self.d

    def __setitem__(self, k, v):
        ik = self._find(k)
        if ik is None and not self._has_none(k):
            c = ckey(k)
            if c is SYM:
                c = _K()
                self.nsym += 1
            self.d[c] = (k, v)
        else:
            self.d[ik] = (self.d[ik][0], v)

    def __delitem__(self, k):
        ik = self._find(k)
        if ik is None and not self._has_none(k):
            raise KeyError(k)
        del self.d[ik]
        if type(ik) is _K:
            self.nsym -= 1

    def sx_contains(self, k):
        ik = self._find(k)
        return ik is not None or self._has_none(k)

    def __contains__(self, k):
        return self.sx_contains(k)

    def __iter__(self):
        n = len(self.d)
        for k, _ in list(self.d.values()):
            if len(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield k
        if len(self.d) != n:
            raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return reversed([k for k, _ in self.d.values()])

    def __len__(self):
        return len(self.d)

    def keys(self):
        return KeysView(self)

    def values(self):
        return ValuesView(self)

    def items(self):
        return ItemsView(self)

    def get(self, k, default=None):
        ik = self._find(k)
        if ik is None and not self._has_none(k):
            return default
        return self.d[ik][1]

    def setdefault(self, k, default=None):
        ik = self._find(k)
        if ik is None and not self._has_none(k):
            self[k] = default
            return default
        return self.d[ik][1]

    def pop(self, k, *default):
        ik = self._find(k)
        if ik is None and not self._has_none(k):
            if default:
                return default[0]
            raise KeyError(k)
        v = self.d.pop(ik)[1]
        if type(ik) is _K:
            self.nsym -= 1
        return v

    def popitem(self):
        if not self.d:
            raise KeyError('popitem(): dictionary is empty')
        ik = next(reversed(self.d))
        k, v = self.d.pop(ik)
        if type(ik) is _K:
            self.nsym -= 1
        return k, v

    def update(self, *a, **kw):
        if a:
            for k, v in _unpack_pairs(a[0]):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.d.clear()
        self.nsym = 0

    def copy(self):
        return type(self)(self) if type(self) is SymDict else self.__copy__()

    def __copy__(self):
        n = type(self).__new__(type(self))
        n.__dict__.update(self.__dict__)
        n.d = dict(self.d)
        return n

    def __deepcopy__(self, memo):
        import copy
        n = type(self).__new__(type(self))
        n.__dict__.update(self.__dict__)
        n.d = {k: (key, copy.deepcopy(v, memo)) for k, (key, v) in self.d.items()}
        return n

    @classmethod
    def fromkeys(cls, it, value=None):
        n = cls()
        for k in it:
            n[k] = value
        return n

    def sx_eq(self, o):
        if not isinstance(o, (SymDict, dict)):
            return False
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) and not type(o) is dict else SymDict(o)
        conj = []
        if not self.nsym and not o.nsym:
            for ik, (k, v) in self.d.items():
                if ik not in o.d:
                    return False
                r = sx_eq(v, o.d[ik][1])
                if r is False:
                    return False
                conj.append(r)
            return band(*conj)
        for k, v in self.d.values():
            conj.append(bor(*[band(keys_eq(k, k2), sx_eq(v, v2)) for k2, v2 in o.d.values()]))
        return band(*conj)

    def __eq__(self, o):
        if type(o) is not dict and not type.__instancecheck__(SymDict, o):
            return NotImplemented
        return self.sx_eq(o)

    def __ne__(self, o):
        return bnot(self.sx_eq(o))

    __hash__ = None

    def __or__(self, o):
        n = SymDict(self)
        n.update(o)
        return n

    def __ror__(self, o):
        n = SymDict(o)
        n.update(self)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        from .text import sx_join, sx_repr
        r = sx_join('', ['{', sx_join(', ', [sx_join('', [sx_repr(k), ': ', sx_repr(v)]) for k, v in self.d.values()]), '}'])
        return r if isinstance(r, str) else str(r)


def sx_eq(a, b):
    """structural equality without forking where possible"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        conj = []
        for x, y in zip(a, b):
            r = sx_eq(x, y)
            if r is False:
                return False
            conj.append(r)
        return band(*conj)
    if type.__instancecheck__(SymDict, a):
        return a.sx_eq(b)
    if type.__instancecheck__(SymDict, b):
        return b.sx_eq(a)
    at = getattr(type(a), '__attrs_attrs__', None)
    if at is not None and type(a) is type(b) and getattr(type(a).__eq__, '__module__', '') != 'builtins':
        if '__eq__' in vars(type(a)) and 'attrs' in str(getattr(type(a).__eq__, '__code__', None)):
            return band(*[sx_eq(getattr(a, f.name), getattr(b, f.name)) for f in at if f.eq])
    return a == b


class _View:
    def __init__(self, sd):
        self.sd = sd

    def __len__(self):
        return len(self.sd.d)

    def __bool__(self):
        return len(self.sd.d) > 0

    def _iter(self, f):
        n = len(self.sd.d)
        for kv in list(self.sd.d.values()):
            if len(self.sd.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield f(kv)
        if len(self.sd.d) != n:
            raise RuntimeError('dictionary changed size during iteration')


class _SetOps:
    def _set(self):
        return SymSet(self)

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __xor__(self, o):
        return self._set() ^ o

    def __rand__(self, o):
        return SymSet(o) & self

    def __ror__(self, o):
        return SymSet(o) | self

    def __rsub__(self, o):
        return SymSet(o) - self

    def __eq__(self, o):
        if isinstance(o, (set, frozenset, _SetOps)) or type.__instancecheck__(SymSet, o):
            return self._set() == SymSet(o)
        return NotImplemented

    def __le__(self, o):
        return self._set() <= SymSet(o)

    def __ge__(self, o):
        return self._set() >= SymSet(o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)
    __hash__ = None


class KeysView(_SetOps, _View):
    def __iter__(self):
        return self._iter(lambda kv: kv[0])

    def sx_contains(self, k):
        return self.sd.sx_contains(k)

    def __contains__(self, k):
        return self.sd.sx_contains(k)

    def __reversed__(self):
        return reversed(self.sd)

    def __repr__(self):
        return f'dict_keys({list(self)!r})'


class ValuesView(_View):
    def __iter__(self):
        return self._iter(lambda kv: kv[1])

    def __reversed__(self):
        return reversed(list(self))


class ItemsView(_SetOps, _View):
    def __iter__(self):
        return self._iter(lambda kv: kv)

    def sx_contains(self, kv):
        k, v = kv
        ik = self.sd._find(k)
        if ik is None:
            return False
        return self.sd.d[ik][1] == v

    def __contains__(self, kv):
        return bool(self.sx_contains(kv))

    def __reversed__(self):
        return reversed(list(self))


class DefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class OrderedDict(SymDict):
    def move_to_end(self, k, last=True):
        ik = self._find(k)
        if ik is None:
            raise KeyError(k)
        v = self.d.pop(ik)
        if last:
            self.d[ik] = v
        else:
            self.d = {ik: v, **self.d}

    def popitem(self, last=True):
        if last:
            return SymDict.popitem(self)
        if not self.d:
            raise KeyError('dictionary is empty')
        ik = next(iter(self.d))
        kv = self.d.pop(ik)
        if type(ik) is _K:
            self.nsym -= 1
        return kv


class SetMeta(type):
    def __instancecheck__(cls, obj):
        if cls is SymSet and isinstance(obj, set):
            return True
        if cls is SymFrozenSet and isinstance(obj, frozenset):
            return True
        return type.__instancecheck__(cls, obj)

    def __subclasscheck__(cls, sub):
        if cls is SymSet and type.__subclasscheck__(set, sub):
            return True
        if cls is SymFrozenSet and type.__subclasscheck__(frozenset, sub):
            return True
        return type.__subclasscheck__(cls, sub)

    def __repr__(cls):
        return {'SymSet': "<class 'set'>", 'SymFrozenSet': "<class 'frozenset'>"}.get(cls.__name__) or type.__repr__(cls)

    def __hash__(cls):
        return type.__hash__(cls)


class _SymSetBase(metaclass=SetMeta):
    def __init__(self, it=()):
        self.m = SymDict()
        for k in it:
            self.m[k] = None

    def __class_getitem__(cls, item):
        return set[item]

    def _new(self, it=()):
        n = type(self).__new__(type(self))
        n.m = SymDict()
        for k in it:
            n.m[k] = None
        return n

    def __len__(self):
        return len(self.m.d)

    def __bool__(self):
        return len(self.m.d) > 0

    def _order(self):
        ks = [k for k, _ in self.m.d.values()]
        e = core.E
        if len(ks) > 1 and e is not None and getattr(e, 'set_nondet', None):
            ks = e.set_nondet(ks)
        return ks

    def __iter__(self):
        n = len(self.m.d)
        for k in self._order():
            if len(self.m.d) != n:
                raise RuntimeError('Set changed size during iteration')
            yield k
        if len(self.m.d) != n:
            raise RuntimeError('Set changed size during iteration')

    def sx_contains(self, k):
        return self.m.sx_contains(k)

    def __contains__(self, k):
        return self.m.sx_contains(k)

    @staticmethod
    def _isset(o):
        return isinstance(o, (set, frozenset, _SetOps)) or type.__instancecheck__(_SymSetBase, o)

    def _raw(self):
        return [k for k, _ in self.m.d.values()]

    def union(self, *os):
        n = self._new(self._raw())
        for o in os:
            for k in o:
                n.m[k] = None
        return n

    def intersection(self, *os):
        cur = self._raw()
        for o in os:
            o = as_set(o)
            cur = [k for k in cur if k in o]
        return self._new(cur)

    def difference(self, *os):
        cur = self._raw()
        for o in os:
            o = as_set(o)
            cur = [k for k in cur if not o.sx_contains(k)]
        return self._new(cur)

    def symmetric_difference(self, o):
        o = as_set(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = as_set(o)
        return all(k in o for k in self._raw())

    def issuperset(self, o):
        return all(k in self for k in as_set(o)._raw())

    def isdisjoint(self, o):
        o = as_set(o)
        return not any(k in o for k in self._raw())

    def copy(self):
        return self._new(self._raw())
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self._new(self._raw())

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ror__(self, o):
        return as_set(o).union(self)

    def __rand__(self, o):
        return as_set(o).intersection(self)

    def __rsub__(self, o):
        return as_set(o).difference(self)

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        o = as_set(o)
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        if not self._isset(o):
            return NotImplemented
        return not (self == o)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(as_set(o)) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(as_set(o)) and self.issuperset(o)

    def __repr__(self):
        return '{' + ', '.join(map(repr, self._raw())) + '}' if self._raw() else 'set()'

    __hash__ = None


class SymSet(_SymSetBase):
    def add(self, k):
        self.m[k] = None

    def discard(self, k):
        ik = self.m._find(k)
        if ik is not None or self.m._has_none(k):
            del self.m[k]

    def remove(self, k):
        del self.m[k]

    def pop(self):
        if not self.m.d:
            raise KeyError('pop from an empty set')
        k = self._order()[0]
        del self.m[k]
        return k

    def clear(self):
        self.m.clear()

    def update(self, *os):
        for o in os:
            for k in list(o):
                self.m[k] = None

    def difference_update(self, *os):
        for o in os:
            for k in list(o):
                self.discard(k)

    def intersection_update(self, *os):
        n = self.intersection(*os)
        self.m = n.m

    def symmetric_difference_update(self, o):
        self.m = self.symmetric_difference(o).m

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


class SymFrozenSet(_SymSetBase):
    def sx_ckey(self):
        out = []
        for k in self._raw():
            c = ckey(k)
            if c is SYM:
                return SYM
            out.append(c)
        return frozenset(out)

    def __hash__(self):
        c = self.sx_ckey()
        if c is SYM:
            raise Unsupported('hash of symbolic frozenset')
        return hash(c)


def as_set(o):
    if type.__instancecheck__(_SymSetBase, o):
        return o
    return SymSet(list(o))


def sx_in(a, b):
    """a in b; returns bool or SBool"""
    from .text import contains
    t = type(b)
    if t is str or t is bytes or isinstance(b, Seq):
        return contains(b, a) if not isinstance(a, int) else (a in b)
    f = getattr(t, 'sx_contains', None)
    if f is not None:
        return f(b, a)
    if t in (list, tuple):
        out = []
        for x in b:
            if x is a:
                return True
            r = sx_eq(a, x)
            if r is True:
                return True
            if r is not False:
                out.append(r)
        return bor(*out)
    if t in (dict, set, frozenset):
        c = ckey(a)
        if c is SYM:
            for x in b:
                if keys_eq(a, x):
                    return True
            return False
        if isinstance(a, Seq):
            return c in b
    return a in b
