"""Loads the code under test from the current source tree with instrumentation.

Every module of the repository is parsed from its current source, rewritten at the
syntax level (only where Python's native str/dict/set machinery would reject symbolic
values) and executed against stub modules that model the operating system.
"""
import ast
import builtins
import os
import sys
import types
from . import core, text, containers
from .core import Control, Unsupported, SBool, SInt, Crash
from .text import SStr, SBytes, Seq

REPO = os.environ.get('SX_REPO', '/repo')

STR_METHODS = {
    n for n in dir(str) + dir(bytes) if not n.startswith('_')
} - {'maketrans', 'index', 'count'} | {'index', 'count'}


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname, record=True):
        self.mod = modname
        self.record = record
        self.stack = []

    # -- text
    def visit_JoinedStr(self, node):
        parts = []
        dynamic = False
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                dynamic = True
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant('')
                else:
                    spec = self.visit(spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        if not dynamic:
            return ast.copy_location(ast.Constant(''.join(p.value for p in parts)), node)
        return self._call('sx__fstr', parts, node)

    def _call(self, name, args, node, keywords=()):
        c = ast.Call(ast.Name(name, ast.Load()), list(args), list(keywords))
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._call('sx__in', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return self._call('sx__notin', [node.left, node.comparators[0]], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Name('sx__UNPACK', ast.Load()), v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return self._call('sx__dict', [ast.List(items, ast.Load())], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('sx__set', [ast.List(node.elts, ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._call('sx__dict', [g], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call('sx__set', [ast.ListComp(node.elt, node.generators)], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('sx__mod', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            return ast.copy_location(ast.Assign([node.target], self._call('sx__mod', [load, node.value], node)), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords:
            self.generic_visit(node)
            return self._call('sx__type', node.args, node)
        if isinstance(f, ast.Name) and f.id == 'super':
            return node
        if (isinstance(f, ast.Attribute) and f.attr in STR_METHODS
                and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super')):
            value = f.value
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return self._call('sx__callm', [self.visit(value), ast.Constant(f.attr), *node.args], node, node.keywords)
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id in ('str', 'bytes') and node.attr in STR_METHODS:  # str.lower as a function
            return self._call('sx__strm', [node.value, ast.Constant(node.attr)], node)
        return node

    # -- exception handlers must not swallow the engine's steering exceptions
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        g = ast.copy_location(ast.Expr(self._call('sx__guard', [], node)), node)
        node.body.insert(0, ast.fix_missing_locations(g))
        return node

    # -- functions
    def _func(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        a = node.args
        returns = node.returns
        annotations = [
            (x, x.annotation)
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        node.returns = None
        for x, _ in annotations:
            x.annotation = None
        self.generic_visit(node)
        self.stack.pop()
        # annotations are not evaluated (some libraries do read them: kept as text)
        def as_text(x):
            return None if x is None else ast.copy_location(ast.Constant(ast.unparse(x)), x)
        node.returns = as_text(returns)
        for x, annotation in annotations:
            x.annotation = as_text(annotation)
        if not self.record:
            return node
        rec = ast.Expr(self._call('sx__enter', [ast.Constant(f'{self.mod}:{qual}')], node))
        pos = 0
        if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)):
            pos = 1
        node.body.insert(pos, ast.fix_missing_locations(ast.copy_location(rec, node)))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        # annotations of locals and attributes are never evaluated for effect
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node


# ---------------------------------------------------------------------------
# runtime support
# ---------------------------------------------------------------------------
UNPACK = object()


def sx_dict(pairs):
    d = containers.SymDict()
    for k, v in pairs:
        if k is UNPACK:
            d.update(v)
        else:
            d[k] = v
    return d


def sx_set(items):
    return containers.SymSet(items)


def sx_notin(a, b):
    return core.bnot(containers.sx_in(a, b))


def _has_sym(args):
    for a in args:
        if isinstance(a, Seq) or type(a) is SInt:
            return True
        if type(a) in (list, tuple) and any(isinstance(x, Seq) for x in a):
            return True
    return False


def wrap(s):
    if type(s) is str:
        o = object.__new__(SStr)
        o.e = tuple(map(ord, s))
        return o
    o = object.__new__(SBytes)
    o.e = tuple(s)
    return o


def sx_callm(value, attr, *args, **kw):
    t = type(value)
    if t is str or t is bytes:
        if attr == 'join' and args and type(args[0]) is not list:
            args = (list(args[0]),)
        if attr == 'format':
            return text.sx_strformat(value, args, kw) if t is str else getattr(value, attr)(*args, **kw)
        if attr == 'format_map' and t is str:
            return text.sx_strformat(value, (), args[0])
        if _has_sym(args) or _has_sym(kw.values()):
            return getattr(wrap(value), attr)(*args, **kw)
        r = getattr(value, attr)(*args, **kw)
        return r
    return getattr(value, attr)(*args, **kw)


def sx_strm(cls, attr):
    if cls is SStr or cls is SBytes:
        def call(value, *a, **k):
            if type(value) in (str, bytes):
                return sx_callm(value, attr, *a, **k)
            return getattr(value, attr)(*a, **k)
        return call
    return getattr(cls, attr)


PROXY_NAMES = ('SStr', 'SInt', 'SBool', 'SymDict', 'SymSet', 'SPath', 'SDatetime', 'SBytes', 'SFloat', 'Seq')


def proxy_error(e):
    if isinstance(e, (TypeError, AttributeError)):
        m = ' '.join(a for a in e.args if type(a) is str)
        return any(n in m for n in PROXY_NAMES)
    return False


def sx_guard():
    e = sys.exc_info()[1]
    while e is not None:
        if isinstance(e, Control):
            raise e
        if proxy_error(e):
            raise Unsupported(f'{type(e).__name__}: {e}')
        e = None


def sx_enter(name):
    core.E.funcs.add(name) if core.E is not None else None


def sx_type(o):
    if type(o) is str:
        return SStr
    if type(o) is bytes:
        return SBytes
    if type(o) is dict:
        return containers.SymDict
    if type(o) is set:
        return containers.SymSet
    if type(o) is SInt:
        return SxInt
    if type(o) is int:
        return SxInt
    if type(o) is SBool:
        return bool
    if type(o) is core.SFloat:
        return SxFloat
    return type(o)


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if cls is SxInt:
            return text.sx_int(*a, **k)
        return type.__call__(cls, *a, **k)

    def __instancecheck__(cls, o):
        if cls is SxInt:
            return isinstance(o, (int, SInt, SBool))
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, s):
        if cls is SxInt and isinstance(s, type) and type.__subclasscheck__(int, s):
            return True
        return type.__subclasscheck__(cls, s)

    def __eq__(cls, o):
        return cls is o or (cls is SxInt and o is int)

    def __hash__(cls):
        return hash(int) if cls is SxInt else type.__hash__(cls)

    def __repr__(cls):
        return "<class 'int'>" if cls is SxInt else type.__repr__(cls)


class SxInt(int, metaclass=_IntMeta):
    from_bytes = staticmethod(int.from_bytes)


class _FloatMeta(type):
    def __call__(cls, *a):
        if a and isinstance(a[0], (SInt, SBool, core.SFloat)):
            return core.to_float(a[0])
        if a and isinstance(a[0], Seq):
            c = a[0].conc
            if c is None:
                raise Unsupported('float of symbolic text')
            return builtins.float(c)
        return builtins.float(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, core.SFloat))

    def __subclasscheck__(cls, s):
        return s is cls or issubclass(s, builtins.float)

    def __eq__(cls, o):
        return cls is o or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __repr__(cls):
        return "<class 'float'>"


class SxFloat(metaclass=_FloatMeta):
    fromhex = staticmethod(builtins.float.fromhex)


class _BoolMeta(type):
    def __call__(cls, x=False):
        if isinstance(x, SBool):
            return x
        return builtins.bool(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SBool))

    def __eq__(cls, o):
        return cls is o or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)

    def __repr__(cls):
        return "<class 'bool'>"


class SxBool(metaclass=_BoolMeta):
    pass


def sx_isinstance(o, c):
    r = _isinst(o, c)
    return r


def _isinst(o, c):
    if isinstance(c, tuple):
        return any(_isinst(o, x) for x in c)
    if c is builtins.str:
        c = SStr
    elif c is builtins.bytes:
        c = SBytes
    elif c is builtins.dict:
        c = containers.SymDict
    elif c is builtins.set:
        c = containers.SymSet
    elif c is builtins.int:
        c = SxInt
    elif c is builtins.bool:
        c = SxBool
    elif c is builtins.float:
        c = SxFloat
    elif isinstance(c, types.UnionType):
        return any(_isinst(o, x) for x in c.__args__)
    return isinstance(o, c)


def sx_issubclass(a, c):
    if isinstance(c, tuple):
        return any(sx_issubclass(a, x) for x in c)
    return issubclass(a, c)


def sx_len(o):
    if isinstance(o, Seq):
        return o.sx_len()
    return len(o)


def sx_ord(c):
    if isinstance(c, Seq):
        if len(c.e) != 1:
            raise TypeError('ord() expected a character')
        e = c.e[0]
        return e if type(e) is int else SInt(e.x)
    return ord(c)


def sx_chr(i):
    if isinstance(i, SInt):
        return text.mk_str((text.Ch(i.x),))
    return chr(i)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_hash(o):
    return hash(o)


class LiveVars(containers.SymDict):
    """the attributes of an object: changes are those of the object"""

    def __init__(self, o):
        self.__dict__['_o'] = o
        self.__dict__['nsym'] = 0

    @property
    def d(self):
        return {containers.ckey(k): (k, v) for k, v in vars(self._o).items()}

    def __setitem__(self, k, v):
        vars(self._o)[k] = v

    def __delitem__(self, k):
        del vars(self._o)[k]

    def pop(self, k, *default):
        return vars(self._o).pop(k, *default)

    def popitem(self):
        return vars(self._o).popitem()

    def clear(self):
        vars(self._o).clear()

    def copy(self):
        return containers.SymDict(self)

    def __copy__(self):
        return containers.SymDict(self)

    def __deepcopy__(self, memo):
        return containers.SymDict(self).__deepcopy__(memo)


def sx_vars(*a):
    if not a:
        raise Unsupported('vars()')
    if isinstance(a[0], (type, types.ModuleType)):
        return sx_dict(list(vars(a[0]).items()))
    vars(a[0])
    return LiveVars(a[0])


def sx_getattr(o, name, *d):
    if isinstance(name, Seq):
        name = name.conc
        if name is None:
            raise Unsupported('getattr with a symbolic name')
    return getattr(o, name, *d)


def sx_hasattr(o, name):
    # code under test uses hasattr(value, 'timestamp') style checks
    return hasattr(o, name)


def sx_range(*a):
    return range(*[x.__index__() if isinstance(x, SInt) else x for x in a])


def sx_print(*args, sep=' ', end='\n', file=None, flush=False):
    sys_mod = MODS['sys'] if 'sys' in MODS else STUBS['sys']
    f = sys_mod.stdout if file is None else file
    f.write(text.sx_join(sep if sep is not None else ' ', [text.sx_str(a) for a in args]))
    f.write('\n' if end is None else end)


MODS = {}          # instrumented modules of the repository
STUBS = {}         # stub modules by name
NATIVE = {
    '_collections_abc', 'ntpath', 'abc', 'typing', 'operator', 'contextlib', 'enum', 'collections.abc', 'copy', 'stat', 'errno',
    'attr', 'attrs', 'cached_property', 'string', 'textwrap', 'math', 'types', 'dataclasses', 'warnings', 'numbers',
    'bisect', 'heapq', '__future__', 'keyword', 'weakref', 'types', 'binascii', 'reprlib', 'codecs', 'unicodedata',
    'typing_extensions', 'locale', 'gettext', 'attr.validators', 'attr.converters', 'threading', 'gc', 'linecache',
}


class LazyUnsupported(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'module {self.__name__}.{name} is not modelled')


def is_repo_module(name):
    p = os.path.join(REPO, *name.split('.'))
    return os.path.isfile(p + '.py') or os.path.isfile(os.path.join(p, '__init__.py'))


_trees = {}


def source_of(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isfile(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    return p + '.py', False


def load_repo_module(name):
    if name in MODS:
        return MODS[name]
    path, is_pkg = source_of(name)
    parent = name.rpartition('.')[0]
    if parent:
        load_repo_module(parent)
        if name in MODS:
            return MODS[name]
    with open(path, encoding='utf-8') as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Rewrite(name).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, 'exec', dont_inherit=True)
    _codes[name] = code
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name if is_pkg else parent
    if is_pkg:
        m.__path__ = [os.path.dirname(path)]
    m.__dict__['__builtins__'] = BUILTINS
    MODS[name] = m
    # attrs looks modules up by name
    sys.modules.setdefault(name, m)
    try:
        exec(code, m.__dict__)
    except BaseException:
        MODS.pop(name, None)
        sys.modules.pop(name, None)
        raise
    if parent:
        setattr(MODS[parent], name.rpartition('.')[2], m)
    return m


def get_module(name):
    if name in MODS:
        return MODS[name]
    if name in STUBS:
        return STUBS[name]
    if is_repo_module(name):
        return load_repo_module(name)
    if name in NATIVE or name.split('.')[0] in NATIVE:
        __import__(name)
        return sys.modules[name]
    import importlib.util
    try:
        found = importlib.util.find_spec(name)
    except (ImportError, ValueError):
        found = None
    if found is None:
        raise ModuleNotFoundError(f"No module named '{name}'")
    m = LazyUnsupported(name)
    STUBS[name] = m
    return m


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals['__package__']
        base = pkg.split('.')
        base = base[:len(base) - (level - 1)]
        name = '.'.join(base + ([name] if name else []))
    m = get_module(name)
    if not fromlist:
        top = name.split('.')[0]
        t = get_module(top)
        # make sure sub modules are attributes of their parents
        parts = name.split('.')
        cur = t
        for i in range(1, len(parts)):
            sub = get_module('.'.join(parts[:i + 1]))
            if not isinstance(cur, LazyUnsupported) and not hasattr(cur, parts[i]):
                try:
                    setattr(cur, parts[i], sub)
                except Exception:
                    pass
            cur = sub
        return t
    for f in fromlist:
        if f == '*':
            continue
        if not hasattr(m, f) if not isinstance(m, LazyUnsupported) else False:
            sub = f'{name}.{f}'
            if is_repo_module(sub):
                load_repo_module(sub)
            elif sub in STUBS:
                setattr(m, f, STUBS[sub])
    return m


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    bytearray=text.SByteArray, memoryview=text.SMemoryView,
    str=SStr, bytes=SBytes, dict=containers.SymDict, set=containers.SymSet, frozenset=containers.SymFrozenSet,
    int=SxInt, bool=SxBool, float=SxFloat, isinstance=sx_isinstance, issubclass=sx_issubclass, len=sx_len,
    repr=text.sx_repr, format=text.sx_format, ord=sx_ord, chr=sx_chr, sum=sx_sum, any=sx_any, all=sx_all,
    vars=sx_vars, getattr=sx_getattr, hasattr=sx_hasattr, range=sx_range, print=sx_print,
    __import__=sx_import,
    sx__fstr=text.sx_fstr, sx__in=containers.sx_in, sx__notin=sx_notin, sx__dict=sx_dict, sx__set=sx_set,
    sx__mod=text.sx_mod, sx__type=sx_type, sx__callm=sx_callm, sx__strm=sx_strm, sx__guard=sx_guard,
    sx__enter=sx_enter, sx__UNPACK=UNPACK,
)


# ---------------------------------------------------------------------------
# module state: a command line invocation is a fresh process
# ---------------------------------------------------------------------------
_snap = None
CACHES = []        # cache_clear callbacks of lru_cache'd functions


def _mutable(v):
    return isinstance(v, (list, dict, set)) or type.__instancecheck__(containers.SymDict, v) or type.__instancecheck__(containers._SymSetBase, v)


def _save_container(v):
    if type(v) is list:
        return list(v)
    if type(v) is dict:
        return dict(v)
    if type(v) is set:
        return set(v)
    if type.__instancecheck__(containers.SymDict, v):
        return (dict(v.d), v.nsym)
    return (dict(v.m.d), v.m.nsym)


def _load_container(v, s):
    if type(v) is list:
        v[:] = s
    elif type(v) is dict or type(v) is set:
        v.clear()
        v.update(s)
    elif type.__instancecheck__(containers.SymDict, v):
        v.d = dict(s[0])
        v.nsym = s[1]
    else:
        v.m.d = dict(s[0])
        v.m.nsym = s[1]


def snapshot():
    """remember the state of all loaded modules right after import"""
    global _snap
    snap = []
    seen = {}

    def note(v, depth):
        if id(v) in seen or depth > 6:
            return
        if _mutable(v):
            seen[id(v)] = v
            snap.append(('c', v, _save_container(v)))
            vals = v.values() if hasattr(v, 'values') else v
            try:
                for x in list(vals):
                    note(x, depth + 1)
            except Exception:
                pass
            return
        t = type(v)
        mod = getattr(t, '__module__', None)
        if mod in MODS and hasattr(v, '__dict__') and not isinstance(v, type):
            import enum
            if isinstance(v, enum.Enum):
                return
            seen[id(v)] = v
            snap.append(('o', v, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                note(x, depth + 1)
        elif isinstance(v, type) and v.__module__ in MODS:
            seen[id(v)] = v
            for k, x in list(vars(v).items()):
                if _mutable(x) and not k.startswith('__') and not k.startswith('_member'):
                    note(x, depth + 1)
            if not issubclass(v, __import__('enum').Enum):
                snap.append(('k', v, {k: x for k, x in vars(v).items() if not k.startswith('__') and not k.startswith('_abc')}))
        elif isinstance(v, types.FunctionType) and v.__module__ in MODS:
            seen[id(v)] = v
            for x in (v.__defaults__ or ()):
                note(x, depth + 1)
            for x in (v.__kwdefaults__ or {}).values():
                note(x, depth + 1)
            for c in (v.__closure__ or ()):
                try:
                    note(c.cell_contents, depth + 1)
                except ValueError:
                    pass

    for name, m in list(MODS.items()):
        snap.append(('m', m, dict(m.__dict__)))
        for k, v in list(m.__dict__.items()):
            if k != '__builtins__':
                note(v, 0)
    _snap = snap


def save_state():
    """the present state of what restore() resets: a process about to be suspended"""
    st = []
    for kind, o, s in _snap:
        if kind == 'c':
            st.append((kind, o, _save_container(o)))
        elif kind in 'mo':
            st.append((kind, o, dict(o.__dict__)))
        else:
            st.append((kind, o, {k: x for k, x in vars(o).items() if not k.startswith('__') and not k.startswith('_abc')}))
    return st, [m.save() for m in MEMOS]


def load_state(state):
    _load(state[0])
    for f in state[1]:
        f()


MEMOS = []         # lru_cache'd functions
reexec = None      # -> modules whose import depends on the simulated machine
_codes = {}


def restore():
    _load(_snap)
    for c in CACHES:
        c()
    if reexec is not None:
        for m in reexec():
            exec(_codes[m.__name__], m.__dict__)


def _load(snap):
    for kind, o, s in snap:
        if kind == 'c':
            _load_container(o, s)
        elif kind in 'mo':
            d = o.__dict__
            if len(d) != len(s) or any(d.get(k, UNPACK) is not v for k, v in s.items()):
                d.clear()
                d.update(s)
        else:
            for k, v in s.items():
                if vars(o).get(k, UNPACK) is not v:
                    setattr(o, k, v)
            for k in [k for k in vars(o) if k not in s and not k.startswith('__') and not k.startswith('_abc')]:
                delattr(o, k)
