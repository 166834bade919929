"""regular expressions on symbolic text: a backtracking matcher over the parse tree of the real re._parser"""
import re as _re
import re._parser as sp
import re._constants as C
from .. import core, text, loader
from ..core import Unsupported, band, bor, bnot, SBool, mk_bool
from ..containers import SymDict
from ..text import Seq, SStr, SBytes, els, mk_str, mk_bytes, Ch, At, Tok, Dec, char_in
from . import osmod

CATS = {
    C.CATEGORY_DIGIT: ((48, 57),),
    C.CATEGORY_SPACE: ((9, 13), (32, 32), (28, 31), (0x85, 0x85), (0xa0, 0xa0)),
    C.CATEGORY_WORD: ((48, 57), (65, 90), (95, 95), (97, 122)),
}


def _ranges(pred):
    out = []
    for c in range(0x10000):
        if pred(chr(c)):
            if out and out[-1][1] == c - 1:
                out[-1] = (out[-1][0], c)
            else:
                out.append((c, c))
    return tuple(out)


# text patterns follow Unicode (basic multilingual plane)
UCATS = {
    C.CATEGORY_DIGIT: _ranges(str.isdecimal),
    C.CATEGORY_SPACE: _ranges(str.isspace),
    C.CATEGORY_WORD: _ranges(lambda c: c.isalnum() or c == '_'),
}
NEGS = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
MAXC = 0x10ffff


def compl(r):
    return core.rng_sub(((0, MAXC),), r)


def set_ranges(items, cats):
    out = []
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append((av, av))
        elif op is C.RANGE:
            out.append(av)
        elif op is C.CATEGORY:
            out.extend(cats[av] if av in cats else compl(cats[NEGS[av]]))
        else:
            raise Unsupported(f're set {op}')
    r = tuple(sorted(out))
    return compl(r) if neg else r


_range_cache = {}


def cached_ranges(av, cats):
    k = (id(av), cats is UCATS)
    if k not in _range_cache:
        _range_cache[k] = set_ranges(av, cats), av
    return _range_cache[k][0]


def fold(r):
    out = list(r)
    for l, h in r:
        for a, b, d in ((65, 90, 32), (97, 122, -32)):
            x, y = max(l, a), min(h, b)
            if x <= y:
                out.append((x + d, y + d))
    return tuple(sorted(out))


def scoped_dotall(ops, on):
    """the parse tree of (?s:...)"""
    out = []
    for op, av in ops:
        if op is C.ANY:
            av = on
        elif op is C.SUBPATTERN:
            gid, add, dele, p = av
            av = (gid, add, dele, scoped_dotall(list(p), on))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            av = (av[0], av[1], scoped_dotall(list(av[2]), on))
        elif op is C.BRANCH:
            av = (av[0], [scoped_dotall(list(p), on) for p in av[1]])
        elif op in (C.ASSERT, C.ASSERT_NOT):
            av = (av[0], scoped_dotall(list(av[1]), on))
        out.append((op, av))
    return out


class M:
    """one attempt; matching is by continuation with solver decided branches"""

    def __init__(self, e, flags, subst):
        self.e = e
        self.flags = flags
        self.cats = UCATS if flags & _re.U and not flags & _re.A else CATS
        self.subst = subst       # private use code point -> element (symbolic pieces of the pattern)

    def ch(self, i, ranges):
        c = self.e[i]
        if type(c) not in (int, Ch):
            # opaque text stands for ordinary text made of letters and digits
            raise Unsupported('regular expression character class against opaque text')
        if self.flags & _re.I:
            ranges = fold(ranges)
        return bool(char_in(c, ranges))

    def run(self, ops, i, g, k):
        """ops: tuple list; k(i, g) continuation"""
        if not ops:
            return k(i, g)
        (op, av), rest = ops[0], ops[1:]
        e = self.e
        n = len(e)

        def cont(j, g2):
            return self.run(rest, j, g2, k)
        if op is C.LITERAL or op is C.NOT_LITERAL:
            if i >= n:
                return None
            lit = self.subst.get(av, av)
            c = e[i]
            if type(lit) is int and self.flags & _re.I:
                ok = type(c) in (int, Ch) and bool(char_in(c, fold(((lit, lit),))))
            elif op is C.NOT_LITERAL and type(c) in (At, Dec) or isinstance(c, Tok):
                if op is C.NOT_LITERAL:
                    raise Unsupported('regular expression over opaque text')
                ok = bool(text.el_eq(lit, c))
            else:
                ok = bool(text.el_eq(lit, c))
            if op is C.NOT_LITERAL:
                ok = not ok
            return cont(i + 1, g) if ok else None
        if op is C.IN:
            if i >= n:
                return None
            return cont(i + 1, g) if self.ch(i, cached_ranges(av, self.cats)) else None
        if op is C.ANY:
            if i >= n:
                return None
            if not (self.flags & _re.S if av is None else av) and type(e[i]) in (int, Ch):
                if self.ch(i, ((10, 10),)):
                    return None
            elif type(e[i]) not in (int, Ch):
                raise Unsupported('regular expression dot against opaque text')
            return cont(i + 1, g)
        if op is C.SUBPATTERN:
            gid, add, dele, p = av
            if add or dele:
                if (add | dele) & ~_re.S:
                    raise Unsupported('inline flags')
                p = scoped_dotall(list(p), bool(add & _re.S))
            p = list(p)
            if gid is None:
                return self.run(p, i, g, cont)
            return self.run(p, i, g, lambda j, g2: cont(j, {**g2, gid: (i, j)}))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            p = list(p)
            hi = 10 ** 9 if hi is C.MAXREPEAT else hi
            if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY) and op is C.MAX_REPEAT:
                # single characters: consume greedily, then give back
                pos = i
                cnt = 0
                while cnt < hi and self.run(p, pos, g, lambda j, g2: (j,)) is not None:
                    pos += 1
                    cnt += 1
                while cnt >= lo:
                    r = cont(pos, g)
                    if r is not None:
                        return r
                    pos -= 1
                    cnt -= 1
                return None

            def rep(cnt, j, g2):
                if op is C.MIN_REPEAT and cnt >= lo:
                    r = cont(j, g2)
                    if r is not None:
                        return r
                if cnt < hi:
                    r = self.run(p, j, g2, lambda j2, g3: None if j2 == j and cnt >= lo else rep(cnt + 1, j2, g3))
                    if r is not None:
                        return r
                if cnt >= lo and op is not C.MIN_REPEAT:
                    return cont(j, g2)
                return None
            return rep(0, i, g)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), i, g, cont)
                if r is not None:
                    return r
            return None
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if av is C.AT_BEGINNING and self.flags & _re.M:
                    ok = i == 0 or self.ch(i - 1, ((10, 10),))
                else:
                    ok = i == 0
            elif av is C.AT_END:
                if i == n:
                    ok = True
                elif self.flags & _re.M:
                    ok = type(e[i]) in (int, Ch) and self.ch(i, ((10, 10),))
                else:
                    ok = i == n - 1 and type(e[i]) in (int, Ch) and self.ch(i, ((10, 10),))
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = self.cats[C.CATEGORY_WORD]
                a = i > 0 and self.ch(i - 1, w)
                b = i < n and self.ch(i, w)
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported(f're at {av}')
            return cont(i, g) if ok else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            m = b - a
            if i + m > n or not text.elems_eq(e[a:b], e[i:i + m]):
                return None
            return cont(i + m, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d > 0:
                r = self.run(list(p), i, g, lambda j, g2: (j, g2))
            else:
                lo, hi = p.getwidth()
                r = None
                if lo == hi and i - lo >= 0:
                    r = self.run(list(p), i - lo, g, lambda j, g2: (j, g2) if j == i else None)
            if (r is None) == (op is C.ASSERT):
                return None
            return cont(i, r[1] if r and op is C.ASSERT else g)
        if op is C.ATOMIC_GROUP:
            r = self.run(list(av), i, g, lambda j, g2: (j, g2))
            return cont(*r) if r else None
        raise Unsupported(f're operator {op}')


class Match:
    def __init__(self, pat, string, span, groups):
        self.re = pat
        self.string = string
        self._span = span
        self._g = groups
        self.pos = 0

    def _gid(self, n):
        if isinstance(n, (str, SStr)):
            if isinstance(n, SStr) and not isinstance(n, str):
                n = n.conc
            if n not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[n]
        if n < 0 or n > self.re.groups:
            raise IndexError('no such group')
        return n

    def _one(self, n, default=None):
        n = self._gid(n)
        sp_ = self._span if n == 0 else self._g.get(n)
        if sp_ is None:
            return default
        mk = mk_bytes if isinstance(self.string, (bytes, SBytes)) else mk_str
        return mk(els(self.string)[sp_[0]:sp_[1]])

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        d = SymDict()
        for k, i in self.re.groupindex.items():
            d[k] = self._one(i, default)
        return d

    def span(self, n=0):
        n = self._gid(n)
        return self._span if n == 0 else self._g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.glob = None
        self.native = None
        subst = {}
        src = pattern
        if isinstance(pattern, Seq):
            e = pattern.e
            if len(e) == 1 and isinstance(e[0], osmod.GlobPat):
                self.glob = osmod.parse_glob(e[0].pat)
                self.groups = 0
                self.groupindex = {}
                self.flags = flags
                return
            c = pattern.conc
            if c is None:
                out = []
                for i, x in enumerate(e):
                    if type(x) is int:
                        out.append(chr(x))
                    else:
                        if type(x) is Ch and not char_in(x, ((48, 57), (65, 90), (95, 95), (97, 122), (128, MAXC))):
                            # could be a special character: let the solver pick it
                            v = core.E.concretize(x.x)
                            out.append(chr(v))
                            continue
                        p = 0xf0000 + i
                        subst[p] = x
                        out.append(chr(p))
                src = ''.join(out)
            else:
                src = c
        self.subst = subst
        self.src = src
        self.flags = int(flags)
        self.native = _re.compile(src, self.flags)
        self.flags = self.native.flags
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)
        self._tree = None

    def tree(self):
        if self._tree is None:
            self._tree = list(sp.parse(self.src if isinstance(self.src, str) else self.src.decode('latin-1'), self.flags & ~_re.U if isinstance(self.src, bytes) else self.flags))
        return self._tree

    def __repr__(self):
        return f're.compile({self.pattern!r})'

    def _at(self, s, i, kind):
        e = els(s)
        if self.glob is not None:
            return Match(self, s, (0, len(e)), {}) if osmod.glob_match(self.glob, e) else None
        m = M(e, self.flags, self.subst)
        n = len(e)
        if kind == 'full':
            r = m.run(self.tree(), i, {}, lambda j, g: (j, g) if j == n else None)
        else:
            r = m.run(self.tree(), i, {}, lambda j, g: (j, g))
        if r is None:
            return None
        return Match(self, s, (i, r[0]), r[1])

    def _check(self, s):
        if not isinstance(s, (str, bytes, Seq)):
            raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)

    def _conc(self, s):
        if self.native is None or self.subst:
            return None
        if isinstance(s, Seq):
            return s.conc
        return str(s) if isinstance(s, str) else s

    def match(self, s, pos=0, endpos=None):
        self._check(s)
        c = self._conc(s)
        if c is not None:
            m = self.native.match(c, pos)
            return _wrap(self, s, m)
        return self._at(s, pos, 'match')

    def fullmatch(self, s, pos=0, endpos=None):
        self._check(s)
        c = self._conc(s)
        if c is not None:
            return _wrap(self, s, self.native.fullmatch(c, pos))
        return self._at(s, pos, 'full')

    def search(self, s, pos=0, endpos=None):
        self._check(s)
        c = self._conc(s)
        if c is not None:
            return _wrap(self, s, self.native.search(c, pos))
        if self.glob is not None:
            return self._at(s, 0, 'match')
        for i in range(pos, len(els(s)) + 1):
            m = self._at(s, i, 'match')
            if m:
                return m
        return None

    def finditer(self, s, pos=0):
        self._check(s)
        i = pos
        n = len(els(s))
        while i <= n:
            m = None
            while i <= n:
                m = self._at(s, i, 'match')
                if m:
                    break
                i += 1
            if not m:
                return
            yield m
            i = m._span[1] if m._span[1] > m._span[0] else m._span[1] + 1

    def findall(self, s, pos=0):
        c = self._conc(s)
        if c is not None:
            return self.native.findall(c, pos)
        out = []
        for m in self.finditer(s, pos):
            g = m.groups('')
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        c = self._conc(s)
        if c is not None and isinstance(repl, (str, bytes)) and not isinstance(repl, Seq):
            return self.native.subn(repl, c, count)
        e = els(s)
        mk = mk_bytes if isinstance(s, (bytes, SBytes)) else mk_str
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            out.append(mk(e[last:m._span[0]]))
            if callable(repl):
                out.append(repl(m))
            elif text.contains(repl, '\\'):
                out.append(_expand(repl, m))
            else:
                out.append(repl)
            last = m._span[1]
            n += 1
            if count and n >= count:
                break
        out.append(mk(e[last:]))
        return text.sx_join(mk(()), out) if mk is mk_str else text.sx_join_bytes(out), n

    def split(self, s, maxsplit=0):
        c = self._conc(s)
        if c is not None:
            return self.native.split(c, maxsplit)
        e = els(s)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mk_str(e[last:m._span[0]]))
            out.extend(m.groups())
            last = m._span[1]
            n += 1
        out.append(mk_str(e[last:]))
        return out


def _expand(repl, m):
    if isinstance(repl, Seq):
        raise Unsupported('symbolic replacement template')
    parts = _re.split(r'(\\g<\w+>|\\\d+|\\\\|\\n)', repl)
    out = []
    for p in parts:
        if p.startswith('\\g<'):
            k = p[3:-1]
            out.append(m.group(int(k) if k.isdigit() else k) or '')
        elif p == '\\\\':
            out.append('\\')
        elif p == '\\n':
            out.append('\n')
        elif p.startswith('\\') and p[1:].isdigit():
            out.append(m.group(int(p[1:])) or '')
        else:
            out.append(p)
    return text.sx_join('', out)


def _wrap(p, s, m):
    if m is None:
        return None
    return Match(p, s, m.span(), {i: m.span(i) for i in range(1, p.groups + 1) if m.span(i) != (-1, -1)})


_cache = {}


def compile_(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    flags = int(flags)
    k = pattern if not isinstance(pattern, Seq) else pattern.conc
    if k is not None:
        p = _cache.get((type(k), k, flags))
        if p is None:
            p = _cache[(type(k), k, flags)] = Pattern(k, flags)
        return p
    return Pattern(pattern, flags)


SPECIAL = frozenset(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))


def escape(s):
    out = []
    for x in els(s):
        if type(x) is int:
            if x in SPECIAL:
                out.append(92)
            out.append(x)
        elif type(x) is Ch and char_in(x, tuple((c, c) for c in sorted(SPECIAL))):
            out.extend((92, x))
        else:
            out.append(x)
    return mk_bytes(out) if isinstance(s, (bytes, SBytes)) else mk_str(out)


def install():
    d = dict(vars(_re))
    m = osmod.mod('re')
    m.__dict__.update({k: v for k, v in d.items() if not k.startswith('__')})

    def fn(name):
        def f(pattern, *a, flags=0, **k):
            want = {'sub': 4, 'subn': 4, 'split': 3}.get(name, 2)
            a = list(a)
            if len(a) >= want:
                flags = a.pop()
            return getattr(compile_(pattern, flags), name)(*a, **k)
        f.__name__ = name
        return f
    for n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'sub', 'subn', 'split'):
        setattr(m, n, fn(n))
    m.compile = compile_
    m.escape = escape
    m.Pattern = Pattern
    m.Match = Match
    m.purge = lambda: None
