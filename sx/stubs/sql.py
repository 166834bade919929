"""sqlite3: an interpreter for the small part of SQL the index uses, on symbolic values"""
import re as _re
import sqlite3 as _sq
from .. import core, text, loader, vfs
from ..containers import sx_eq, SymDict
from ..core import Unsupported, Crash, SInt, SBool, band, bor, bnot
from ..text import SStr, SBytes, Seq, Tok, els, mk_str, mk_bytes, Ch
from . import osmod
from .osmod import mod, W

TOKEN = _re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<s>'(?:[^']|'')*')|(?P<q>"[^"]*"|`[^`]*`|\[[^\]]*\])|(?P<n>\d+(?:\.\d+)?)|(?P<p>\?\d*|[:@$]\w+)|(?P<w>\w+)|(?P<o><>|<=|>=|==|!=|\|\||[-+*/%(),.;=<>])""", _re.S)


def lex(sql):
    out = []
    i = 0
    while i < len(sql):
        m = TOKEN.match(sql, i)
        if not m:
            raise _sq.OperationalError(f'unrecognized token: "{sql[i:i+10]}"')
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


class Table:
    def __init__(self, name, cols, pk, uniques):
        self.name = name
        self.cols = cols            # [(name, affinity, notnull, default)]
        self.pk = pk                # column names or ()
        self.uniques = uniques      # list of column name tuples
        self.rows = []              # [(rowid, values)]
        self.next = 1

    def copy(self):
        t = Table(self.name, self.cols, self.pk, self.uniques)
        t.rows = list(self.rows)
        t.next = self.next
        return t

    def index(self, c):
        for i, x in enumerate(self.cols):
            if x[0] == c.lower():
                return i
        return None


class Db:
    def __init__(self):
        self.tables = {}
        self.indexes = {}
        self.user_version = 0

    def copy(self):
        d = Db()
        d.tables = {k: v.copy() for k, v in self.tables.items()}
        d.indexes = dict(self.indexes)
        d.user_version = self.user_version
        return d


class DbTok(Tok):
    __slots__ = ('db',)

    def __init__(self, db):
        self.db = db

    def eq(self, o):
        return o is self

    def length(self):
        return 8192


class P:
    """recursive descent parser producing closures / tuples"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.np = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('e', '')

    def kw(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if t[0] != 'w' or t[1].upper() != w:
                return False
        self.i += len(words)
        return True

    def op(self, o):
        if self.peek() == ('o', o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            raise _sq.OperationalError(f'near "{self.peek()[1]}": syntax error')

    def name(self):
        t = self.peek()
        if t[0] == 'w':
            self.i += 1
            return t[1]
        if t[0] == 'q':
            self.i += 1
            return t[1][1:-1]
        raise _sq.OperationalError(f'near "{t[1]}": syntax error')

    # expressions -> tuples
    def expr(self):
        a = self.and_()
        while self.kw('OR'):
            a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.kw('AND'):
            a = ('and', a, self.not_())
        return a

    def not_(self):
        if self.peek()[1].upper() == 'NOT' and self.peek(1)[1].upper() == 'EXISTS':
            self.i += 1
            return ('not', self.prim())
        if self.kw('NOT'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            t = self.peek()
            if t[0] == 'o' and t[1] in ('=', '==', '!=', '<>', '<', '<=', '>', '>='):
                self.i += 1
                a = ('cmp', {'==': '=', '<>': '!='}.get(t[1], t[1]), a, self.add())
            elif self.kw('IS', 'NOT', 'NULL') or self.kw('NOTNULL'):
                a = ('not', ('isnull', a))
            elif self.kw('IS', 'NULL') or self.kw('ISNULL'):
                a = ('isnull', a)
            elif self.kw('IS', 'NOT'):
                a = ('not', ('is', a, self.add()))
            elif self.kw('IS'):
                a = ('is', a, self.add())
            elif self.kw('NOT', 'IN'):
                a = ('not', self.in_(a))
            elif self.kw('IN'):
                a = self.in_(a)
            elif self.kw('NOT', 'BETWEEN'):
                lo = self.add()
                self.kw('AND')
                a = ('not', ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, self.add())))
            elif self.kw('BETWEEN'):
                lo = self.add()
                self.kw('AND')
                a = ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, self.add()))
            elif self.kw('NOT', 'LIKE'):
                a = ('not', ('like', a, self.add()))
            elif self.kw('LIKE'):
                a = ('like', a, self.add())
            elif self.kw('GLOB'):
                a = ('glob', a, self.add())
            elif self.kw('COLLATE'):
                if self.name().upper() != 'BINARY':
                    a = ('nocase', a)
            else:
                return a

    def in_(self, a):
        self.need('(')
        if self.peek()[1].upper() == 'SELECT':
            s = self.select()
            self.need(')')
            return ('insel', a, s)
        items = []
        if not self.op(')'):
            items.append(self.expr())
            while self.op(','):
                items.append(self.expr())
            self.need(')')
        return ('inlist', a, items)

    def add(self):
        a = self.mul()
        while self.peek()[0] == 'o' and self.peek()[1] in ('+', '-', '||'):
            o = self.peek()[1]
            self.i += 1
            a = ('bin', o, a, self.mul())
        return a

    def mul(self):
        a = self.prim()
        while self.peek()[0] == 'o' and self.peek()[1] in ('*', '/', '%'):
            o = self.peek()[1]
            self.i += 1
            a = ('bin', o, a, self.prim())
        return a

    def prim(self):
        k, v = self.peek()
        if k == 'o' and v == '(':
            self.i += 1
            if self.peek()[1].upper() == 'SELECT':
                s = self.select()
                self.need(')')
                return ('scalar', s)
            items = [self.expr()]
            while self.op(','):
                items.append(self.expr())
            self.need(')')
            return items[0] if len(items) == 1 else ('row', items)
        if k == 'o' and v == '-':
            self.i += 1
            return ('bin', '-', ('lit', 0), self.prim())
        if k == 'o' and v == '*':
            self.i += 1
            return ('star',)
        if k == 's':
            self.i += 1
            return ('lit', v[1:-1].replace("''", "'"))
        if k == 'n':
            self.i += 1
            return ('lit', int(v) if '.' not in v else float(v))
        if k == 'p':
            self.i += 1
            if v == '?':
                self.np += 1
                return ('par', self.np - 1)
            if v[0] == '?':
                return ('par', int(v[1:]) - 1)
            return ('par', v[1:])
        if k == 'w' and v.upper() == 'NULL':
            self.i += 1
            return ('lit', None)
        if k == 'w' and v.upper() == 'EXISTS':
            self.i += 1
            self.need('(')
            s = self.select()
            self.need(')')
            return ('exists', s)
        if k == 'w' and v.upper() == 'CASE':
            raise Unsupported('SQL CASE')
        n = self.name()
        if self.peek() == ('o', '(') and k == 'w':
            self.i += 1
            self.kw('DISTINCT')
            args = []
            if not self.op(')'):
                args.append(self.expr())
                while self.op(','):
                    args.append(self.expr())
                self.need(')')
            return ('fn', n.upper(), args)
        if self.op('.'):
            if self.op('*'):
                return ('star', n)
            return ('col', n, self.name())
        return ('col', None, n)

    def select(self):
        if not self.kw('SELECT'):
            raise _sq.OperationalError('syntax error')
        distinct = self.kw('DISTINCT')
        cols = []
        while True:
            e = self.expr()
            alias = None
            if self.kw('AS'):
                alias = self.name()
            elif self.peek()[0] == 'w' and self.peek()[1].upper() not in RESERVED:
                alias = self.name()
            cols.append((e, alias))
            if not self.op(','):
                break
        src = []
        if self.kw('FROM'):
            src.append((None, self.table_ref(), None))
            while True:
                if self.op(',') or self.kw('CROSS', 'JOIN'):
                    src.append(('inner', self.table_ref(), None))
                    continue
                kind = None
                if self.kw('INNER', 'JOIN') or self.kw('JOIN'):
                    kind = 'inner'
                elif self.kw('LEFT', 'OUTER', 'JOIN') or self.kw('LEFT', 'JOIN'):
                    kind = 'left'
                if not kind:
                    break
                ref = self.table_ref()
                on = None
                if self.kw('ON'):
                    on = self.expr()
                elif self.kw('USING'):
                    raise Unsupported('SQL USING')
                src.append((kind, ref, on))
        where = self.expr() if self.kw('WHERE') else None
        if self.peek()[1].upper() in ('GROUP', 'HAVING', 'UNION', 'EXCEPT', 'INTERSECT', 'WINDOW'):
            raise Unsupported(f'SQL {self.peek()[1]}')
        order = []
        if self.kw('ORDER', 'BY'):
            while True:
                e = self.expr()
                desc = self.kw('DESC')
                if not desc:
                    self.kw('ASC')
                order.append((e, desc))
                if not self.op(','):
                    break
        limit = offset = None
        if self.kw('LIMIT'):
            limit = self.expr()
            if self.kw('OFFSET'):
                offset = self.expr()
            elif self.op(','):
                offset, limit = limit, self.expr()
        return ('select', distinct, cols, src, where, order, limit, offset)

    def table_ref(self):
        if self.op('('):
            raise Unsupported('SQL sub query in FROM')
        n = self.name()
        alias = n
        if self.kw('AS'):
            alias = self.name()
        elif self.peek()[0] == 'w' and self.peek()[1].upper() not in RESERVED:
            alias = self.name()
        return n.lower(), alias.lower()

    def statement(self):
        if self.kw('PRAGMA'):
            n = self.name()
            v = None
            if self.op('=') or self.op('('):
                v = self.peek()[1]
                self.i += 1
            return ('pragma', n.lower(), v)
        for b in ('BEGIN', 'COMMIT', 'END', 'ROLLBACK', 'VACUUM', 'ANALYZE', 'SAVEPOINT', 'RELEASE'):
            if self.kw(b):
                if b in ('SAVEPOINT', 'RELEASE'):
                    raise Unsupported('SQL statement')
                if b == 'BEGIN':
                    self.kw('DEFERRED') or self.kw('IMMEDIATE') or self.kw('EXCLUSIVE')
                if b in ('BEGIN', 'COMMIT', 'END', 'ROLLBACK'):
                    self.kw('TRANSACTION')
                return (b.lower(),)
        if self.peek()[1].upper() == 'SELECT':
            return self.select()
        if self.kw('WITH') or self.kw('EXPLAIN') or self.kw('ALTER') or self.kw('ATTACH'):
            raise Unsupported('SQL statement')
        if self.kw('CREATE'):
            self.kw('TEMP')
            unique = self.kw('UNIQUE')
            if self.kw('TABLE'):
                ine = self.kw('IF', 'NOT', 'EXISTS')
                n = self.name().lower()
                cols, pk, uniq = self.table_def()
                return ('create', n, ine, cols, pk, uniq)
            if self.kw('INDEX'):
                ine = self.kw('IF', 'NOT', 'EXISTS')
                n = self.name().lower()
                self.kw('ON')
                t = self.name().lower()
                self.need('(')
                cols = []
                while True:
                    cols.append(self.name().lower())
                    self.kw('DESC') or self.kw('ASC')
                    if not self.op(','):
                        break
                self.need(')')
                return ('cindex', n, ine, t, cols, unique)
            raise Unsupported('SQL CREATE')
        if self.kw('DROP'):
            what = 'table' if self.kw('TABLE') else 'index' if self.kw('INDEX') else None
            if not what:
                raise Unsupported('SQL DROP')
            ie = self.kw('IF', 'EXISTS')
            return ('drop', what, self.name().lower(), ie)
        if self.kw('REPLACE'):
            return self.insert('REPLACE')
        if self.kw('INSERT'):
            conflict = None
            if self.kw('OR'):
                conflict = self.name().upper()
            return self.insert(conflict)
        if self.kw('DELETE'):
            self.kw('FROM')
            n = self.name().lower()
            return ('delete', n, self.expr() if self.kw('WHERE') else None)
        if self.kw('UPDATE'):
            if self.kw('OR'):
                raise Unsupported('UPDATE OR')
            n = self.name().lower()
            self.kw('SET')
            sets = []
            while True:
                c = self.name().lower()
                self.need('=')
                sets.append((c, self.expr()))
                if not self.op(','):
                    break
            return ('update', n, sets, self.expr() if self.kw('WHERE') else None)
        raise _sq.OperationalError(f'near "{self.peek()[1]}": syntax error')

    def insert(self, conflict):
        self.kw('INTO')
        n = self.name().lower()
        cols = None
        if self.op('('):
            cols = [self.name().lower()]
            while self.op(','):
                cols.append(self.name().lower())
            self.need(')')
        if self.kw('VALUES'):
            rows = []
            while True:
                self.need('(')
                r = [self.expr()]
                while self.op(','):
                    r.append(self.expr())
                self.need(')')
                rows.append(r)
                if not self.op(','):
                    break
            src = ('values', rows)
        else:
            src = self.select()
        upsert = None
        if self.kw('ON', 'CONFLICT'):
            target = None
            if self.op('('):
                target = [self.name().lower()]
                while self.op(','):
                    target.append(self.name().lower())
                self.need(')')
            if self.kw('DO', 'NOTHING'):
                conflict = 'IGNORE'
            elif self.kw('DO', 'UPDATE', 'SET'):
                sets = []
                while True:
                    c = self.name().lower()
                    self.need('=')
                    sets.append((c, self.expr()))
                    if not self.op(','):
                        break
                upsert = sets
        return ('insert', conflict, n, cols, src, upsert)

    def table_def(self):
        self.need('(')
        cols, pk, uniq = [], (), []
        while True:
            if self.kw('CONSTRAINT'):
                self.name()
            if self.kw('PRIMARY', 'KEY'):
                pk = tuple(self.collist())
            elif self.kw('UNIQUE'):
                uniq.append(tuple(self.collist()))
                self.skip_conflict()
            elif self.kw('FOREIGN', 'KEY'):
                self.collist()
                self.refs()
            elif self.kw('CHECK'):
                raise Unsupported('SQL CHECK')
            else:
                n = self.name().lower()
                typ = ''
                while self.peek()[0] == 'w' and self.peek()[1].upper() not in CONSTR:
                    typ += self.name().upper() + ' '
                if self.op('('):
                    while not self.op(')'):
                        self.i += 1
                notnull, default = False, None
                while True:
                    if self.kw('NOT', 'NULL'):
                        notnull = True
                    elif self.kw('NULL'):
                        pass
                    elif self.kw('PRIMARY', 'KEY'):
                        pk = (n,)
                        self.kw('AUTOINCREMENT')
                    elif self.kw('UNIQUE'):
                        uniq.append((n,))
                    elif self.kw('DEFAULT'):
                        default = self.prim()
                    elif self.kw('REFERENCES'):
                        self.i -= 1
                        self.refs()
                    elif self.kw('COLLATE'):
                        if self.name().upper() != 'BINARY':
                            raise Unsupported('SQL COLLATE')
                    else:
                        break
                aff = 'INTEGER' if 'INT' in typ else 'TEXT' if any(x in typ for x in ('CHAR', 'CLOB', 'TEXT')) else 'BLOB' if not typ or 'BLOB' in typ else 'REAL' if any(x in typ for x in ('REAL', 'FLOA', 'DOUB')) else 'NUMERIC'
                cols.append((n, aff, notnull, default))
            if not self.op(','):
                break
        self.need(')')
        while self.kw('WITHOUT', 'ROWID') or self.kw('STRICT') or self.op(','):
            pass
        return cols, pk, uniq

    def skip_conflict(self):
        if self.kw('ON', 'CONFLICT'):
            raise Unsupported('SQL ON CONFLICT')

    def collist(self):
        self.need('(')
        c = [self.name().lower()]
        while self.op(','):
            c.append(self.name().lower())
        self.need(')')
        return c

    def refs(self):
        self.kw('REFERENCES')
        self.name()
        if self.peek() == ('o', '('):
            self.collist()
        while self.kw('ON', 'DELETE', 'CASCADE') or self.kw('ON', 'UPDATE', 'CASCADE') or self.kw('ON', 'DELETE') or self.kw('DEFERRABLE'):
            pass


CONSTR = {'NOT', 'NULL', 'PRIMARY', 'UNIQUE', 'DEFAULT', 'REFERENCES', 'CHECK', 'COLLATE', 'CONSTRAINT'}
RESERVED = {'FROM', 'WHERE', 'ORDER', 'LIMIT', 'JOIN', 'INNER', 'LEFT', 'CROSS', 'ON', 'GROUP', 'HAVING', 'UNION', 'AND', 'OR', 'AS', 'USING', 'OFFSET', 'ASC', 'DESC', 'IN', 'IS', 'NOT', 'SET', 'EXCEPT', 'INTERSECT', 'NATURAL'}


def kind_of(v):
    if v is None:
        return 0
    if isinstance(v, (int, SInt, float, core.SFloat, SBool)):
        return 1
    if isinstance(v, (str, SStr)):
        return 2
    return 3


def compare(op, a, b):
    """three valued"""
    if a is None or b is None:
        return None
    if isinstance(a, tuple):
        r = band(*[compare('=', x, y) is not None and compare('=', x, y) for x, y in zip(a, b)])
        if op == '=':
            return r
        if op == '!=':
            return bnot(r)
        raise Unsupported('row value order')
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        return {'=': False, '!=': True, '<': ka < kb, '<=': ka < kb, '>': ka > kb, '>=': ka > kb}[op]
    if op == '=':
        return sx_eq(a, b)
    if op == '!=':
        return bnot(sx_eq(a, b))
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    return a >= b


def truth(v):
    if v is None:
        return False
    if isinstance(v, (bool, SBool)):
        return bool(v)
    if isinstance(v, (int, SInt)):
        return bool(v != 0)
    return False


class Ev:
    def __init__(self, db, params, run_select):
        self.db = db
        self.params = params
        self.sel = run_select

    def par(self, k):
        p = self.params
        if isinstance(k, int):
            if isinstance(p, (dict, SymDict)):
                raise _sq.ProgrammingError('Binding has no name')
            return bind(p[k])
        return bind(p[k])

    def __call__(self, e, row):
        op = e[0]
        if op == 'lit':
            return e[1]
        if op == 'par':
            return self.par(e[1])
        if op == 'col':
            return row.get(e[1], e[2])
        if op == 'row':
            return tuple(self(x, row) for x in e[1])
        if op == 'and':
            a = self(e[1], row)
            if a is False:
                return False
            b = self(e[2], row)
            if b is False:
                return False
            if a is None or b is None:
                return None
            return band(tb(a), tb(b))
        if op == 'or':
            a, b = self(e[1], row), self(e[2], row)
            if a is True or b is True:
                return True
            if a is None or b is None:
                return None
            return bor(tb(a), tb(b))
        if op == 'not':
            a = self(e[1], row)
            return None if a is None else bnot(tb(a))
        if op == 'cmp':
            l, r = self(e[2], row), self(e[3], row)
            l, r = self.affin(e[2], e[3], l, r, row)
            return compare(e[1], l, r)
        if op == 'isnull':
            return self(e[1], row) is None
        if op == 'is':
            a, b = self(e[1], row), self(e[2], row)
            if a is None or b is None:
                return a is None and b is None
            return compare('=', a, b)
        if op == 'inlist':
            a = self(e[1], row)
            if a is None:
                return None
            return bor(*[compare('=', a, self(x, row)) or False for x in e[2]]) if e[2] else False
        if op == 'insel':
            a = self(e[1], row)
            rows = self.sel(e[2], row)
            if a is None and rows:
                return None
            rs = []
            for r in rows:
                b = tuple(r) if isinstance(a, tuple) else r[0]
                q = compare('=', a, b)
                if q is not None:
                    rs.append(q)
            return bor(*rs) if rs else False
        if op == 'exists':
            return len(self.sel(e[1], row)) > 0
        if op == 'scalar':
            rows = self.sel(e[1], row)
            return rows[0][0] if rows else None
        if op == 'bin':
            a, b = self(e[2], row), self(e[3], row)
            if a is None or b is None:
                return None
            if e[1] == '||':
                return text.sx_join('', [text.sx_str(a), text.sx_str(b)])
            if kind_of(a) != 1 or kind_of(b) != 1:
                raise Unsupported('SQL arithmetic on text')
            if e[1] == '+':
                return a + b
            if e[1] == '-':
                return a - b
            if e[1] == '*':
                return a * b
            raise Unsupported('SQL division')
        if op == 'like' or op == 'glob':
            a, b = self(e[1], row), self(e[2], row)
            if a is None or b is None:
                return None
            return like(op, a, b)
        if op == 'fn':
            args = [self(x, row) for x in e[2]] if not (e[2] and e[2][0] == ('star',)) else []
            f = e[1]
            if f in ('COALESCE', 'IFNULL'):
                for a in args:
                    if a is not None:
                        return a
                return None
            if f in ('MIN', 'MAX') and len(args) > 1:
                r = args[0]
                for a in args[1:]:
                    if truth(compare('<' if f == 'MIN' else '>', a, r)):
                        r = a
                return r
            if f == 'LENGTH':
                return text.sx_len_of(args[0])
            if f in ('LOWER', 'UPPER'):
                return getattr(mk_str(els(args[0])) if isinstance(args[0], Seq) else args[0], f.lower())()
            if f == 'CAST':
                raise Unsupported('CAST')
            raise Unsupported(f'SQL function {f}')
        if op == 'nocase':
            raise Unsupported('COLLATE NOCASE')
        raise Unsupported(f'SQL expression {op}')

    def affin(self, ea, eb, a, b, row):
        fa = row.aff(ea) if row is not None else None
        fb = row.aff(eb) if row is not None else None
        num = ('INTEGER', 'REAL', 'NUMERIC')
        if fa in num and fb not in num:
            b = affinity('NUMERIC', b)
        elif fb in num and fa not in num:
            a = affinity('NUMERIC', a)
        elif fa == 'TEXT' and fb is None:
            b = affinity('TEXT', b)
        elif fb == 'TEXT' and fa is None:
            a = affinity('TEXT', a)
        return a, b


def tb(v):
    return v if isinstance(v, (bool, SBool)) else truth(v)


def like(op, a, pat):
    p = els(pat)
    if op == 'like':
        items = []
        for x in p:
            if type(x) is int and x == 37 or type(x) is Ch and text.el_eq(x, 37):
                items.append(('*',))
            elif type(x) is int and x == 95 or type(x) is Ch and text.el_eq(x, 95):
                items.append(('?',))
            else:
                if type(x) is int and chr(x).isalpha():
                    items.append(('set', False, [(ord(chr(x).lower()),) * 2, (ord(chr(x).upper()),) * 2]))
                else:
                    items.append(('lit', x))
    else:
        items = osmod.parse_glob(p)
    return osmod.glob_match(items, els(a))


def bind(v):
    if v is None or isinstance(v, (int, SInt, float, core.SFloat, SBool)):
        if isinstance(v, SInt):
            if not (band(v >= -2 ** 63, v < 2 ** 63)):
                raise OverflowError('Python int too large to convert to SQLite INTEGER')
        elif isinstance(v, int) and not -2 ** 63 <= v < 2 ** 63:
            raise OverflowError('Python int too large to convert to SQLite INTEGER')
        return int(v) if isinstance(v, bool) else v
    if isinstance(v, (str, SStr)):
        v = mk_str(els(v))
        for x in els(v):
            if type(x) in (int, Ch) and text.char_in(x, ((0xd800, 0xdfff),)):
                raise UnicodeEncodeError('utf-8', '\udc80', 0, 1, 'surrogates not allowed')
        return v
    if isinstance(v, (bytes, SBytes, bytearray, memoryview)):
        return v
    if type(v).__name__ == 'datetime':
        return v.isoformat(' ')
    raise _sq.ProgrammingError(f"Error binding parameter: type '{type(v).__name__}' is not supported")


def affinity(aff, v):
    if v is None or isinstance(v, (bytes, SBytes)):
        return v
    if aff == 'TEXT':
        if isinstance(v, (int, SInt)):
            return text.sx_str(v)
        if isinstance(v, float):
            return repr(v)
        if isinstance(v, core.SFloat):
            raise Unsupported('text of a symbolic float')
        return v
    if aff in ('INTEGER', 'NUMERIC', 'REAL'):
        if isinstance(v, (str, Seq)):
            c = v.conc if isinstance(v, Seq) else v
            if c is None:
                if all(type(x) in (int, Ch, text.Dec) for x in els(v)):
                    try:
                        return text.parse_int(v)
                    except ValueError:
                        return v
                return v
            try:
                return int(c)
            except ValueError:
                try:
                    return float(c)
                except ValueError:
                    return v
        if isinstance(v, float) and v == int(v) and aff != 'REAL':
            return int(v)
        if isinstance(v, core.SFloat) and aff != 'REAL':
            raise Unsupported('symbolic float in an integer column')
        return v
    return v


class RowView:
    def __init__(self, parts, outer=None):
        self.parts = parts          # [(alias, table, values)]
        self.outer = outer

    def get(self, alias, name):
        n = name.lower()
        for a, t, v in self.parts:
            if alias is not None and a != alias.lower():
                continue
            i = t.index(n)
            if i is not None:
                return None if v is None else v[1][i]
            if n in ('rowid', 'oid', '_rowid_'):
                return None if v is None else v[0]
        if self.outer is not None:
            return self.outer.get(alias, name)
        raise _sq.OperationalError(f'no such column: {name}')

    def aff(self, e):
        if e[0] != 'col':
            return None
        for a, t, v in self.parts:
            if e[1] is not None and a != e[1].lower():
                continue
            i = t.index(e[2].lower())
            if i is not None:
                return t.cols[i][1]
        return self.outer.aff(e) if self.outer is not None else None


class Excluded(RowView):
    pass


_parse_cache = {}


def parse(sql):
    if isinstance(sql, Seq):
        sql = sql.conc
        if sql is None:
            raise Unsupported('symbolic SQL text')
    r = _parse_cache.get(sql)
    if r is None:
        toks = [t for t in lex(sql)]
        while toks and toks[-1] == ('o', ';'):
            toks.pop()
        if not toks:
            return None, 0, []
        p = P(toks)
        st = p.statement()
        if p.i < len(toks):
            if toks[p.i] == ('o', ';'):
                raise _sq.ProgrammingError('You can only execute one statement at a time.')
            raise _sq.OperationalError(f'near "{toks[p.i][1]}": syntax error')
        named = [t[1][1:] for t in toks if t[0] == 'p' and not t[1].startswith('?')]
        r = _parse_cache[sql] = (st, p.np, named)
    return r


def sql_fault(sql):
    """the database can not be written from some statement (None: commit) on"""
    f = W.sql_fault
    if f is None or sql is not None and writes(sql) is None:
        return
    n, f['n'] = f['n'], f['n'] + 1
    if n == f['at'] or n > f['at'] and f['stays']:
        f['hit'] = True
        raise _sq.OperationalError(f['message'])


def writes(sql):
    return _re.match(r'\s*(insert|replace|update|delete)\b', sql.conc if isinstance(sql, Seq) else sql, _re.I)


class Cursor:
    def __init__(self, conn):
        self.connection = conn
        self.rows = []
        self.description = None
        self.rowcount = -1
        self.lastrowid = None
        self.arraysize = 1
        self.row_factory = conn.row_factory

    def execute(self, sql, params=(), many=False):
        c = self.connection
        if c._mem is None and c._tx is None:
            W.fs.point('sql', c.path)
        if not many and c._mem is None:
            sql_fault(sql)
        rows, desc, count, last = c._execute(sql, params)
        rf = self.connection.row_factory
        self.description = desc
        self.rows = [self._mk(r, rf) for r in rows]
        self.rowcount = count
        if last is not None:
            self.lastrowid = last
        return self

    def _mk(self, r, rf):
        if rf is None:
            return r
        if rf is Row:
            return Row(self, r)
        return rf(self, r)

    def executemany(self, sql, seq):
        for k, p in enumerate(seq):
            self.execute(sql, p, many=k > 0)
        return self

    def executescript(self, script):
        self.connection.commit()
        for s in (script.conc if isinstance(script, Seq) else script).split(';'):
            if s.strip():
                self.connection._execute(s, (), implicit=False)
        return self

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchmany(self, n=1):
        r, self.rows = self.rows[:n], self.rows[n:]
        return r

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)

    def __next__(self):
        if not self.rows:
            raise StopIteration
        return self.rows.pop(0)

    def close(self):
        pass


class Row:
    def __init__(self, cur, vals):
        self._k = [d[0] for d in cur.description]
        self._v = tuple(vals)

    def keys(self):
        return list(self._k)

    def __getitem__(self, k):
        if isinstance(k, (int, slice)):
            return self._v[k]
        for n, v in zip(self._k, self._v):
            if n.lower() == k.lower():
                return v
        raise IndexError('No item with that key')

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)


class Connection:
    def __init__(self, database, timeout=5.0, detect_types=0, isolation_level='DEFERRED', check_same_thread=True, factory=None, cached_statements=128, uri=False, **kw):
        self.row_factory = None
        self.text_factory = str
        self.isolation_level = isolation_level
        self._closed = False
        self._tx = None
        self.readonly = False
        self._mem = None
        self.path = None
        if hasattr(type(database), '__fspath__'):
            database = osmod.fspath(database)
        mode = 'rwc'
        if uri and database.startswith('file:'):
            database, mode = parse_uri(database)
        if len(els(database)) == 0 or (isinstance(database, (str, Seq)) and database == ':memory:') or mode == 'memory':
            self._mem = Db()
            return
        fs = W.fs
        self.path = database
        fs.point('connect', database)
        try:
            if mode == 'ro':
                n = fs.walk(database)
                if isinstance(n, vfs.Dir) or not fs.may(n, 4):
                    raise vfs.oserr(13)
                self.readonly = True
            else:
                n = None
                try:
                    n = fs.walk(database)
                except FileNotFoundError:
                    if mode == 'rw':
                        raise
                if n is None:
                    mw, fs.meanwhile = fs.meanwhile, None
                    try:
                        n = fs.open_node(database, True, True, True, False, False)
                    finally:
                        fs.meanwhile = mw
                elif isinstance(n, vfs.Dir):
                    raise vfs.oserr(21)
                elif not fs.may(n, 2):
                    if not fs.may(n, 4):
                        raise vfs.oserr(13)
                    self.readonly = True
            self.node = n
        except OSError:
            raise _sq.OperationalError('unable to open database file')
        W.sql_open.append(self)

    def _chk(self):
        if core.E.dead:
            raise Crash()
        if self._closed:
            raise _sq.ProgrammingError('Cannot operate on a closed database.')

    def _db(self):
        if self._tx is not None:
            return self._tx
        if self._mem is not None:
            return self._mem
        c = els(self.node.content)
        if not c:
            return Db()
        if len(c) == 1 and isinstance(c[0], DbTok):
            return c[0].db
        raise _sq.DatabaseError('file is not a database')

    @property
    def in_transaction(self):
        return self._tx is not None

    def _begin(self, write=True):
        if write and (self.readonly or self._moved()):
            self._db()
            raise _sq.OperationalError('attempt to write a readonly database')
        if self._tx is None:
            self._tx = self._db().copy()

    def _moved(self):
        # a database file, that was removed or replaced since it was opened can not be written
        if self._mem is not None:
            return False
        try:
            return W.fs.walk(self.path) is not self.node
        except OSError:
            return True

    def commit(self):
        self._chk()
        if self._tx is not None and self._mem is None:
            sql_fault(None)
        self._commit()

    def _commit(self):
        if self._tx is not None:
            if self._mem is not None:
                self._mem = self._tx
            else:
                self.node.content = mk_bytes((DbTok(self._tx),))
            self._tx = None

    def rollback(self):
        self._chk()
        self._tx = None

    def close(self):
        if core.E.dead:
            return
        self._tx = None
        self._closed = True
        if self in W.sql_open:
            W.sql_open.remove(self)

    def cursor(self, *a):
        self._chk()
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def executescript(self, s):
        return self.cursor().executescript(s)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb_):
        if t is None:
            self.commit()
        else:
            self.rollback()

    def create_function(self, *a, **k):
        raise Unsupported('create_function')

    def set_trace_callback(self, f):
        pass

    # -- execution
    def _execute(self, sql, params, implicit=True):
        self._chk()
        st, np, named = parse(sql)
        if st is None:
            return [], None, -1, None
        if isinstance(params, (dict, SymDict)):
            for n in named:
                if params.get(n, osmod) is osmod:
                    raise _sq.ProgrammingError(f'You did not supply a value for binding parameter :{n}.')
        else:
            if isinstance(params, (str, Seq)) and not isinstance(params, (list, tuple)):
                raise Unsupported('string as parameters')
            params = list(params)
            if len(params) != np and not named:
                raise _sq.ProgrammingError(f'Incorrect number of bindings supplied. The current statement uses {np}, and there are {len(params)} supplied.')
            params = [bind(p) for p in params]
        op = st[0]
        if op == 'pragma':
            if st[1] == 'user_version':
                if st[2] is None:
                    return [(self._db().user_version,)], (('user_version',),), -1, None
                self._begin()
                self._tx.user_version = int(st[2])
                self._commit()
                return [], None, -1, None
            if st[1] in ('foreign_keys', 'journal_mode', 'synchronous', 'busy_timeout', 'temp_store', 'cache_size'):
                self._db()
                if st[1] == 'foreign_keys' and str(st[2]).upper() in ('ON', '1', 'TRUE', 'YES'):
                    raise Unsupported('foreign key enforcement')
                return [], None, -1, None
            raise Unsupported(f'PRAGMA {st[1]}')
        if op == 'begin':
            if self._tx is not None:
                raise _sq.OperationalError('cannot start a transaction within a transaction')
            self._begin(write=False)
            return [], None, -1, None
        if op in ('commit', 'end'):
            if self._tx is None:
                raise _sq.OperationalError('cannot commit - no transaction is active')
            self._commit()
            return [], None, -1, None
        if op == 'rollback':
            if self._tx is None:
                raise _sq.OperationalError('cannot rollback - no transaction is active')
            self.rollback()
            return [], None, -1, None
        if op in ('vacuum', 'analyze'):
            return [], None, -1, None
        if op == 'select':
            ev = Ev(self._db(), params, None)
            ev.sel = lambda s, outer: self._select(s, ev, outer)[0]
            rows, desc = self._select(st, ev, None)
            return rows, desc, -1, None
        auto = self._tx is None and (op in ('create', 'cindex', 'drop') or self.isolation_level is None)
        if op in ('create', 'cindex') and self._exists(st):
            return [], None, -1, None
        self._begin()
        before = self._tx.copy()
        try:
            count, last = self._modify(st, params)
        except BaseException:
            # a failing statement is undone, the transaction stays open
            self._tx = before
            if auto:
                self._tx = None
            raise
        if auto:
            self._commit()
        return [], None, count, last

    def _exists(self, st):
        db = self._db()
        have = db.tables if st[0] == 'create' else db.indexes
        if st[1] in have:
            if st[2]:
                return True
            raise _sq.OperationalError(f'{"table" if st[0] == "create" else "index"} {st[1]} already exists')
        return False

    def _table(self, db, n):
        if n not in db.tables:
            raise _sq.OperationalError(f'no such table: {n}')
        return db.tables[n]

    def _select(self, st, ev, outer):
        _, distinct, cols, src, where, order, limit, offset = st
        db = ev.db
        views = [RowView([], outer)]
        tabs = []
        for kind, (tn, alias), on in src:
            if tn in ('sqlite_master', 'sqlite_schema'):
                t = Table(tn, [('type', 'TEXT', False, None), ('name', 'TEXT', False, None), ('tbl_name', 'TEXT', False, None)], (), [])
                t.rows = [(i, ('table', n, n)) for i, n in enumerate(db.tables)] + [(100 + i, ('index', n, v)) for i, (n, v) in enumerate(db.indexes.items())]
            else:
                t = self._table(db, tn)
            tabs.append((alias, t))
            nv = []
            for v in views:
                hit = False
                for r in t.rows:
                    w = RowView(v.parts + [(alias, t, r)], outer)
                    if on is not None and not truth(ev(on, w)):
                        continue
                    hit = True
                    nv.append(w)
                if kind == 'left' and not hit:
                    nv.append(RowView(v.parts + [(alias, t, None)], outer))
            views = nv
        # name errors are raised even without rows
        if where is not None:
            self._validate(where, tabs, outer)
            views = [v for v in views if truth(ev(where, v))]
        agg = any(has_agg(c) for c, _ in cols)
        desc = []
        for c, alias in cols:
            if c[0] == 'star':
                for a, t in tabs:
                    desc.extend((x[0],) for x in t.cols)
            else:
                desc.append((alias or (c[2] if c[0] == 'col' else 'expr'),))
                self._validate(c, tabs, outer)
        if agg:
            row = tuple(self._agg(c, views, ev) for c, _ in cols)
            return [row], tuple(desc)
        for o, d in reversed(order):
            if o[0] == 'col' and o[1] is None:
                for c, alias in cols:
                    if alias and alias.lower() == o[2].lower():
                        o = c
            views.sort(key=lambda v: SortKey(ev(o, v)), reverse=d)
        rows = []
        for v in views:
            r = []
            for c, _ in cols:
                if c[0] == 'star':
                    for a, t, x in v.parts:
                        r.extend(x[1] if x is not None else [None] * len(t.cols))
                else:
                    val = ev(c, v)
                    r.append(int(val) if isinstance(val, bool) else val)
            rows.append(tuple(r))
        if distinct:
            out = []
            for r in rows:
                if not any(truth(sx_eq(r, q)) for q in out):
                    out.append(r)
            rows = out
        if limit is not None:
            n = ev(limit, None)
            m = ev(offset, None) if offset is not None else 0
            n, m = int(n), int(m)
            rows = rows[m:] if n < 0 else rows[m:m + n]
        return rows, tuple(desc)

    def _validate(self, e, tabs, outer):
        if not isinstance(e, tuple):
            return
        if e and e[0] == 'col':
            for a, t in tabs:
                if (e[1] is None or a == e[1].lower()) and (t.index(e[2].lower()) is not None or e[2].lower() == 'rowid'):
                    return
            if outer is not None:
                return
            raise _sq.OperationalError(f'no such column: {e[2]}')
        for x in e:
            if isinstance(x, tuple) and (not x or x[0] != 'select'):
                self._validate(x, tabs, outer)
            elif isinstance(x, list):
                for y in x:
                    self._validate(y, tabs, outer)

    def _agg(self, c, views, ev):
        if c[0] != 'fn':
            return ev(c, views[0]) if views else None
        f, args = c[1], c[2]
        if f == 'COUNT' and (not args or args[0][0] == 'star'):
            return len(views)
        vals = [x for x in (ev(args[0], v) for v in views) if x is not None]
        if f == 'COUNT':
            return len(vals)
        if not vals:
            return None
        if f in ('MIN', 'MAX'):
            r = vals[0]
            for v in vals[1:]:
                if truth(compare('<' if f == 'MIN' else '>', v, r)):
                    r = v
            return r
        if f in ('SUM', 'TOTAL'):
            r = vals[0]
            for v in vals[1:]:
                r = r + v
            return r
        raise Unsupported(f'SQL aggregate {f}')

    def _modify(self, st, params):
        db = self._tx
        op = st[0]
        ev = Ev(db, params, None)
        ev.sel = lambda s, outer: self._select(s, ev, outer)[0]
        if op == 'create':
            db.tables[st[1]] = Table(st[1], st[3], st[4], st[5])
            return -1, None
        if op == 'cindex':
            t = self._table(db, st[3])
            if st[5]:
                t.uniques = t.uniques + [tuple(st[4])]
            db.indexes[st[1]] = st[3]
            return -1, None
        if op == 'drop':
            have = db.tables if st[1] == 'table' else db.indexes
            if st[2] not in have:
                if st[3]:
                    return -1, None
                raise _sq.OperationalError(f'no such {st[1]}: {st[2]}')
            del have[st[2]]
            return -1, None
        if op == 'delete':
            t = self._table(db, st[1])
            if st[2] is not None:
                self._validate(st[2], [(st[1], t)], None)
            keep, n = [], 0
            for r in t.rows:
                if st[2] is None or truth(ev(st[2], RowView([(st[1], t, r)]))):
                    n += 1
                else:
                    keep.append(r)
            t.rows = keep
            return n, None
        if op == 'update':
            t = self._table(db, st[1])
            n = 0
            for k, r in enumerate(list(t.rows)):
                v = RowView([(st[1], t, r)])
                if st[3] is None or truth(ev(st[3], v)):
                    vals = list(r[1])
                    for c, e in st[2]:
                        i = t.index(c)
                        if i is None:
                            raise _sq.OperationalError(f'no such column: {c}')
                        vals[i] = affinity(t.cols[i][1], ev(e, v))
                    self._constraints(t, vals, r[0])
                    t.rows[k] = (r[0], tuple(vals))
                    n += 1
            return n, None
        if op == 'insert':
            _, conflict, tn, cols, src, upsert = st
            t = self._table(db, tn)
            if cols is None:
                cols = [c[0] for c in t.cols]
            idx = []
            for c in cols:
                i = t.index(c)
                if i is None:
                    raise _sq.OperationalError(f'table {tn} has no column named {c}')
                idx.append(i)
            rows = [[ev(x, None) for x in r] for r in src[1]] if src[0] == 'values' else self._select(src, ev, None)[0]
            n = 0
            last = None
            for r in rows:
                if len(r) != len(cols):
                    raise _sq.OperationalError(f'{len(r)} values for {len(cols)} columns')
                vals = [ev(c[3], None) if c[3] is not None else None for c in t.cols]
                for i, v in zip(idx, r):
                    vals[i] = affinity(t.cols[i][1], int(v) if isinstance(v, bool) else v)
                for c, v in zip(t.cols, vals):
                    if v is None and c[2] and not (t.pk == (c[0],) and c[1] == 'INTEGER'):
                        if conflict == 'IGNORE':
                            break
                        raise _sq.IntegrityError(f'NOT NULL constraint failed: {tn}.{c[0]}')
                else:
                    if t.pk and len(t.pk) == 1 and vals[t.index(t.pk[0])] is None and t.cols[t.index(t.pk[0])][1] == 'INTEGER':
                        vals[t.index(t.pk[0])] = t.next
                    skip = False
                    for key in ([t.pk] if t.pk else []) + t.uniques:
                        ki = [t.index(k) for k in key]
                        for q in list(t.rows):
                            if truth(band(*[compare('=', q[1][i], vals[i]) or False for i in ki])):
                                if upsert is not None:
                                    nv = list(q[1])
                                    ex = RowView([('excluded', t, (0, tuple(vals)))], RowView([(tn, t, q)]))

                                    class Up(RowView):
                                        pass
                                    view = RowView([(tn, t, q), ('excluded', t, (0, tuple(vals)))])
                                    for c, e in upsert:
                                        i = t.index(c)
                                        nv[i] = affinity(t.cols[i][1], ev(e, view))
                                    t.rows[t.rows.index(q)] = (q[0], tuple(nv))
                                    skip = True
                                elif conflict == 'REPLACE':
                                    t.rows = [x for x in t.rows if x is not q]
                                elif conflict == 'IGNORE':
                                    skip = True
                                else:
                                    raise _sq.IntegrityError(f'UNIQUE constraint failed: {", ".join(f"{tn}.{k}" for k in key)}')
                            if skip:
                                break
                        if skip:
                            break
                    if not skip:
                        t.rows = t.rows + [(t.next, tuple(vals))]
                        last = t.next
                        t.next += 1
                        n += 1
            return n, last
        raise Unsupported(f'SQL {op}')

    def _constraints(self, t, vals, rowid):
        for c, v in zip(t.cols, vals):
            if v is None and c[2]:
                raise _sq.IntegrityError(f'NOT NULL constraint failed: {t.name}.{c[0]}')
        for key in ([t.pk] if t.pk else []) + t.uniques:
            ki = [t.index(k) for k in key]
            for q in t.rows:
                if q[0] != rowid and truth(band(*[compare('=', q[1][i], vals[i]) or False for i in ki])):
                    raise _sq.IntegrityError(f'UNIQUE constraint failed: {t.name}')


def has_agg(c):
    return isinstance(c, tuple) and c and c[0] == 'fn' and (c[1] in ('COUNT', 'SUM', 'TOTAL', 'GROUP_CONCAT', 'AVG') or c[1] in ('MIN', 'MAX') and len(c[2]) == 1)


class SortKey:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        a, b = self.v, o.v
        ka, kb = kind_of(a), kind_of(b)
        if ka != kb:
            return ka < kb
        if a is None:
            return False
        return bool(a < b)


def parse_uri(u):
    """file: URI to (path, mode) the way SQLite does it"""
    e = list(els(u))[5:]
    if len(e) >= 2 and text.el_eq(e[0], 47) and text.el_eq(e[1], 47):
        i = 2
        while i < len(e) and not text.el_eq(e[i], 47):
            i += 1
        auth = mk_str(e[2:i])
        if len(els(auth)) and not (auth == 'localhost'):
            raise _sq.OperationalError('invalid uri authority')
        e = e[i:]
    path, query = [], None
    hexd = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}
    i = 0
    cur = path
    while i < len(e):
        c = e[i]
        if type(c) in (int, Ch):
            if text.el_eq(c, 35):
                break
            if query is None and text.el_eq(c, 63):
                query = []
                cur = query
                i += 1
                continue
            if text.el_eq(c, 37) and i + 2 < len(e):
                h = []
                for x in e[i + 1:i + 3]:
                    if type(x) is Ch:
                        if not text.char_in(x, ((48, 57), (65, 70), (97, 102))):
                            h = None
                            break
                        x = core.E.concretize(x.x)
                    if type(x) is not int or x not in hexd:
                        h = None
                        break
                    h.append(hexd[x])
                if h is not None:
                    o = h[0] * 16 + h[1]
                    if o == 0:
                        # SQLite: a %00 ends the text; skip to the next delimiter
                        raise Unsupported('%00 in a URI')
                    cur.append(o)
                    i += 3
                    continue
        cur.append(c)
        i += 1
    # percent decoding works on bytes
    if any(type(x) is int and x > 127 for x in path) and any(type(x) is int and x < 256 for x in path):
        if all(type(x) is int for x in path):
            if any(128 <= x < 256 for x in path):
                try:
                    path = list(map(ord, bytes([b for x in path for b in ([x] if x < 256 else chr(x).encode())]).decode('utf-8')))
                except UnicodeDecodeError:
                    pass
    mode = 'rwc'
    if query is not None:
        q = mk_str(query)
        for kv in q.split('&'):
            k, _, v = kv.partition('=')
            if k == 'mode':
                for m in ('ro', 'rw', 'rwc', 'memory'):
                    if v == m:
                        mode = m
                        break
                else:
                    raise _sq.OperationalError(f'no such access mode')
            elif k == 'immutable':
                if v == '1':
                    mode = 'ro'
    return mk_str(path), mode


def install():
    m = mod('sqlite3')
    for k in ('Error', 'DatabaseError', 'OperationalError', 'IntegrityError', 'ProgrammingError', 'InterfaceError', 'NotSupportedError', 'DataError', 'InternalError', 'Warning',
              'PARSE_DECLTYPES', 'PARSE_COLNAMES', 'sqlite_version', 'version', 'apilevel', 'paramstyle', 'threadsafety'):
        try:
            setattr(m, k, getattr(_sq, k))
        except AttributeError:
            pass
    m.connect = Connection
    m.Connection = Connection
    m.Cursor = Cursor
    m.Row = Row
    m.register_adapter = lambda *a: None
    m.register_converter = lambda *a: None
