"""The symbolic machine: stubs installed, repository loaded, one environment per path."""
import os as _os
import sys as _sys
import types
import z3
from . import core, text, loader, vfs
from .core import (Control, Crash, PathAbort, Unsupported, SBool, SInt, band, bor, bnot, mk_bool, mk_int)
from .containers import SymDict, SymSet
from .text import Seq, SStr, SBytes, Ch, At, Dec, Tok, els, mk_str, mk_bytes
from .stubs import osmod, misc, remod, data, sql
from .stubs.osmod import W

VERIF = _os.path.dirname(_os.path.dirname(_os.path.abspath(__file__)))
_booted = False
REPO_MODULES = []


def repo_modules():
    out = []
    for pkg in ('bead', 'bead_cli'):
        for d, _, fs in _os.walk(_os.path.join(loader.REPO, pkg)):
            for f in sorted(fs):
                if f.endswith('.py') and not f.startswith('test_') and f != 'conftest.py':
                    rel = _os.path.relpath(_os.path.join(d, f), loader.REPO)[:-3].replace('/', '.')
                    out.append(rel[:-9] if rel.endswith('.__init__') else rel)
    return sorted(out)


def boot():
    global _booted, REPO_MODULES
    if _booted:
        return
    _booted = True
    site = '/opt/venv/lib/python3.12/site-packages'
    if site not in _sys.path:
        _sys.path.insert(0, site)
    W.fs = vfs.VFS()
    W.root = '/SXROOT'
    W.clock = None
    W.ph = data.Placeholders()
    W.ran = []
    W.zips_open = W.zips_peak = 0
    W.sql_fault = None
    W.sql_open = []
    core.E = core.Engine()
    core.E.start_path()
    W.clock = misc.Clock()
    misc.install_sys()
    misc.install_functools()
    misc.install_collections()
    misc.install_small()
    remod.install()
    osmod.install()
    misc.install_hashlib()
    misc.install_uuid()
    misc.install_time()
    misc.install_datetime()
    data.install()
    sql.install()
    for m in repo_modules():
        loader.load_repo_module(m)
    REPO_MODULES = sorted(loader.MODS)
    loader.snapshot()
    tm = loader.STUBS['time']
    users = [m for m in loader.MODS.values() if any(v is tm for v in list(vars(m).values()))]

    def reexec():
        c = W.clock
        return users if (c.std, c.dst, c.trans) != (0, None, []) else []
    loader.reexec = reexec


def load_harness(name):
    """instrument a property module of this framework (same source is imported natively for replays)"""
    key = 'props.' + name
    if key in loader.STUBS:
        return loader.STUBS[key]
    import ast
    path = _os.path.join(VERIF, 'props', name + '.py')
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read(), path)
    tree = loader.Rewrite(key, record=False).visit(tree)
    ast.fix_missing_locations(tree)
    m = types.ModuleType(key)
    m.__file__ = path
    m.__package__ = 'props'
    m.__dict__['__builtins__'] = loader.BUILTINS
    loader.STUBS[key] = m
    if 'props' not in loader.STUBS:
        p = types.ModuleType('props')
        p.__path__ = []
        loader.STUBS['props'] = p
    _sys.modules.setdefault(key, m)
    libs = ('lib', 'weblib', 'boxlib', 'cmdlib')
    deps = list(libs[:libs.index(name)] if name in libs else libs)
    for node in tree.body:
        if isinstance(node, ast.ImportFrom) and (node.module or '').startswith('props.'):
            deps.append(node.module.split('.')[1])
    for dep in deps:
        load_harness(dep)
    exec(compile(tree, path, 'exec', dont_inherit=True), m.__dict__)
    setattr(loader.STUBS['props'], name, m)
    return m


# ---------------------------------------------------------------------------
OPAQUE = '\0opaque'


def ev_int(m, x):
    return m.eval(x, model_completion=True).as_long()


def ev_els(m, e):
    out = []
    for x in e:
        if type(x) is int:
            out.append(chr(x))
        elif type(x) is Ch:
            out.append(chr(ev_int(m, x.x)))
        elif type(x) is At:
            n = ev_int(m, x.x)
            if n >= 10 ** 6:
                return None
            out.append(f'x{n:010d}')
        elif type(x) is Dec:
            out.append(str(ev_int(m, x.x)))
        elif type(x) is text.Utf8:
            out.append(chr(ev_int(m, x.c.x)))
        else:
            return None
    return ''.join(out)


def ev(m, v):
    """value under a model; OPAQUE where the real text is not determined by the encoding"""
    if isinstance(v, Seq):
        r = ev_els(m, v.e)
        return OPAQUE if r is None else r
    if isinstance(v, SInt):
        return ev_int(m, v.x)
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.x, model_completion=True))
    if isinstance(v, core.SFloat):
        return OPAQUE
    if isinstance(v, bytes):
        return v.decode('utf-8', 'surrogateescape')
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if isinstance(v, (list, tuple)):
        return [ev(m, x) for x in v]
    if isinstance(v, (SymDict, dict)):
        out = []
        for k, x in v.items():
            out.append([ev(m, k), ev(m, x)])
        return ['dict'] + sorted(out, key=repr)
    if type.__instancecheck__(SymSet, v) or isinstance(v, (set, frozenset)):
        return ['set'] + sorted([ev(m, x) for x in v], key=repr)
    return OPAQUE


class Result:
    def __init__(self, code, out, err, crashed=False):
        self.code = code
        self.out = out
        self.err = err
        self.crashed = crashed

    @property
    def internal(self):
        return bool(text.contains(self.err, 'report this problem'))

    def __repr__(self):
        return f'<Result {self.code} crashed={self.crashed} out={text.sx_str(self.out)} err={text.sx_str(self.err)}>'


class SymEnv:
    symbolic = True

    def __init__(self, engine, fix=None):
        self.e = engine
        self.fix = fix or {}
        W.clock = misc.Clock()
        loader.restore()
        W.fs = vfs.VFS()
        W.root = self.root = '/SXROOT'
        W.fs.mkdir('/SXROOT')
        W.fs.mkdir('/tmp')
        W.fs.cwd = W.fs.walk('/SXROOT')
        W.ph = data.Placeholders()
        W.ran = []
        W.zips_open = W.zips_peak = 0
        W.sql_open = []
        W.sql_fault = None
        self._mw = None
        osmod.environ.d.clear()
        osmod.environ.nsym = 0
        vfs.Node.ino = 100
        s = loader.STUBS['sys']
        s.argv = ['bead']
        s.stdout = misc.Stream()
        s.stderr = misc.Stream()
        self._tmp = 0

    # -- inputs ------------------------------------------------------------
    def _label(self, label):
        if label in self.e.inputs:
            raise RuntimeError(f'input {label} declared twice')
        return label

    def flag(self, label):
        """a yes/no input; splits the path"""
        self._label(label)
        if label in self.fix:
            v = bool(self.fix[label])
            self.e.inputs[label] = lambda m: v
            return v
        x = z3.Bool(f'{label}?')
        self.e.inputs[label] = lambda m: z3.is_true(m.eval(x, model_completion=True))
        return self.e.branch(x)

    def sbool(self, label):
        """a yes/no input that does not split the path"""
        self._label(label)
        x = z3.Bool(f'{label}?')
        self.e.inputs[label] = lambda m: z3.is_true(m.eval(x, model_completion=True))
        return SBool(x)

    def int(self, label, lo, hi):
        self._label(label)
        x = z3.Int(f'{label}#')
        self.e.inputs[label] = lambda m: ev_int(m, x)
        self.e.add(z3.And(x >= lo, x <= hi))
        core.bound(x, lo, hi)
        v = SInt(x)
        if label in self.fix:
            self.e.assume(v == self.fix[label])
            return self.fix[label]
        return v

    def num(self, label, lo, hi):
        """an integer whose values are enumerated by the solver (splits the path)"""
        v = self.int(label, lo, hi)
        if isinstance(v, int):
            return v
        for k in range(lo, hi):
            if self.e.branch(v.x == z3.IntVal(k)):
                return k
        return hi

    def pick(self, label, options):
        return options[self.num(label, 0, len(options) - 1)]

    def text(self, label, ranges, lo, hi):
        """text of lo..hi characters from the given code point ranges (characters stay symbolic)"""
        n = self.num(label + '.len', lo, hi) if hi > lo else lo
        self._label(label)
        rs = tuple((ord(a), ord(b)) for a, b in (r if isinstance(r, tuple) else (r[0], r[-1]) for r in ranges))
        out = []
        for i in range(n):
            x = z3.Int(f'{label}[{i}]')
            c = [z3.And(x >= l, x <= h) if l != h else x == l for l, h in rs]
            self.e.add(z3.Or(*c) if len(c) > 1 else c[0])
            vid = (label, i)
            self.e.dom[vid] = tuple(sorted(rs))
            out.append(Ch(x, vid))
        self.e.inputs[label] = lambda m: ''.join(chr(ev_int(m, c.x)) for c in out)
        return mk_str(tuple(out))

    def atom(self, label):
        """opaque non-empty text; only its identity matters"""
        self._label(label)
        x = z3.Int(f'{label}@')
        self.e.add(z3.And(x >= 0, x < 100000))
        self.e.inputs[label] = lambda m: f'x{ev_int(m, x):010d}'
        return mk_str((At(x),))

    def content(self, label, size=None):
        """file content; with a size: a big one of that many bytes"""
        a = self.atom(label)
        if size is None:
            return a.encode('utf-8')
        return text.mk_bytes((text.Big(a.e[0].x, size),))

    # -- verdicts ------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, SBool):
            self.e.assume(cond)
        elif not cond:
            raise PathAbort('assume')

    def check(self, cond, label, detail=None):
        self.e.check(cond if isinstance(cond, SBool) else bool(cond), label, detail)

    def reach(self, label):
        self.e.reached[label] = self.e.reached.get(label, 0) + 1

    def observe(self, label, value):
        self.e.path_log.append((label, value))

    def all(self, *conds):
        return band(*conds)

    def any(self, *conds):
        return bor(*conds)

    def implies(self, a, b):
        return bor(bnot(a), b)

    def iff(self, a, b):
        return core.beq(a, b)

    def neg(self, a):
        return bnot(a)

    # -- machine ---------------------------------------------------------------
    def listing_reversed(self, flag):
        W.fs.listing_reversed = bool(flag)

    def set_now(self, us):
        W.clock.us = us

    def now(self):
        return W.clock.us

    def set_zone(self, std, dst=None, trans=()):
        """std, dst: seconds east of UTC; trans: [(utc second, offset from then on, isdst)] for the assumed years"""
        c = W.clock
        c.std, c.dst, c.trans = std, dst, list(trans)
        c.names = ('STD', 'DST' if dst is not None else 'STD')
        loader.restore()

    def setenv(self, k, v):
        osmod.environ[k] = v

    def fresh(self):
        """forget everything held in memory by the modules under test"""
        loader.restore()

    def subprocess_log(self):
        return W.ran

    def zips(self):
        return W.zips_open, W.zips_peak

    def reset_peak(self):
        W.zips_peak = W.zips_open

    def crash_hook(self, crash_at, fault_at, errno_, log=None):
        count = [0]

        def hook(kind, path):
            if kind == 'flush':
                return
            n = count[0]
            count[0] += 1
            if log is not None:
                log.append((kind, path))
            if crash_at is not None and (crash_at == n):
                core.E.dead = True
                raise Crash()
            if fault_at is not None and (fault_at == n):
                if errno_ is None:
                    raise KeyboardInterrupt
                raise vfs.oserr(errno_, path)
        return hook, count

    def guarded(self, fn, crash_at=None, fault_at=None, errno=28):
        """run fn with a crash or an I/O error at the given mutation; ('ok'|'crash'|'error', value)"""
        hook, count = self.crash_hook(crash_at, fault_at, errno)
        loader.restore()
        W.fs.hook = hook
        try:
            v = fn()
            st = 'ok'
        except Crash:
            if not core.E.dead:
                raise
            v, st = None, 'crash'
        except Control:
            raise
        except BaseException as e:
            if loader.proxy_error(e):
                raise Unsupported(f'{type(e).__name__}: {e}')
            v, st = type(e).__name__, 'error'
        finally:
            W.fs.hook = None
        self._after_process()
        self.events = count[0]
        return st, v

    def _after_process(self):
        core.E.dead = False
        for f in list(W.fs.open_files):
            f.closed = True
        W.fs.open_files.clear()
        W.zips_open = 0
        W.sql_open = []

    def cli(self, *argv, cwd=None, crash_at=None, fault_at=None, errno=28, log=None):
        """one command line invocation in a fresh process"""
        loader.restore()
        s = loader.STUBS['sys']
        W.ph = data.Placeholders()
        s.argv = ['bead'] + list(argv)
        s.stdout = out = misc.Stream()
        s.stderr = err = misc.Stream()
        if cwd is not None:
            osmod.chdir(cwd)
        hook, count = self.crash_hook(crash_at, fault_at, errno, log)
        W.fs.hook = hook if crash_at is not None or fault_at is not None or log is not None else None
        code = None
        crashed = False
        try:
            loader.MODS['bead_cli.main'].main()
            code = 0
        except SystemExit as e:
            code = e.code
        except Crash:
            if not core.E.dead:
                raise
            crashed = True
        except Control:
            raise
        except BaseException as e:
            if loader.proxy_error(e):
                raise Unsupported(f'{type(e).__name__}: {e}')
            raise
        finally:
            W.fs.hook = None
        self.events = count[0]
        self._after_process()
        W.ph = data.Placeholders()
        if code is None:
            code = 0
        elif isinstance(code, (str, SStr)):
            code = 1
        elif isinstance(code, int):
            code = code & 255
        loader.restore()
        s.stdout = misc.Stream()
        s.stderr = misc.Stream()
        return Result(code, out.getvalue(), err.getvalue(), crashed)

    # -- another process -------------------------------------------------------
    def meanwhile(self, fn, at, under=None, kinds=None):
        """at the at-th access to a file under the given path by the next command another process runs fn (a whole one)

        Accesses are openings, closings of written files, listings, removals, renames, directory creations,
        opening of a database, and database statements outside of transactions. The clock of fn goes on in the command."""
        self._mw = dict(fn=fn, at=at, under=None if under is None else W.fs.text_of(under), kinds=kinds, n=0, ran=False, value=None)
        W.fs.meanwhile = self._point

    def meanwhile_ran(self, last=None):
        """(did it run, its value); last: the highest access number tried"""
        W.fs.meanwhile = None
        m, self._mw = self._mw, None
        if last is not None:
            if m['at'] == last and m['ran']:
                raise Unsupported(f'the command has more than {last} accesses')
            # the access number is beyond the end: one such path is enough
            self.assume(m['ran'] or m['at'] == last)
        return m['ran'], m['value']

    def _point(self, kind, path):
        m = self._mw
        if m['ran'] or any(c._tx is not None for c in W.sql_open) or m['kinds'] is not None and kind not in m['kinds']:
            return
        if m['under'] is not None:
            t = W.fs.text_of(path)
            if not t.startswith('/'):
                t = text.sx_join('/', [osmod.getcwd(), t])
            if not t.startswith(m['under']):
                return
        m['n'] += 1
        if m['n'] <= m['at']:
            return
        m['ran'] = True
        fs = W.fs
        s = loader.STUBS['sys']
        state = loader.save_state()
        env = dict(osmod.environ.d), osmod.environ.nsym
        mine = s.argv, s.stdout, s.stderr, W.ph, W.zips_open, W.zips_peak, W.sql_open, fs.cwd, fs.hook, fs.open_files, self.__dict__.get('events')
        s.stdout, s.stderr = misc.Stream(), misc.Stream()
        W.ph, W.sql_open, fs.hook, fs.meanwhile, fs.open_files = data.Placeholders(), [], None, None, []
        loader.restore()
        try:
            m['value'] = m['fn']()
        finally:
            s.argv, s.stdout, s.stderr, W.ph, W.zips_open, W.zips_peak, W.sql_open, fs.cwd, fs.hook, fs.open_files, self.events = mine
            osmod.environ.d, osmod.environ.nsym = dict(env[0]), env[1]
            loader.load_state(state)
            fs.meanwhile = self._point

    # -- damage ---------------------------------------------------------------
    def junk_file(self, path, kind='junk'):
        """a file that is neither a zip archive nor text"""
        osmod.vopen(path, 'wb').close()
        W.fs.walk(path).content = mk_bytes((vfs.Junk(0),))

    def damage_entry(self, path, name, way='data'):
        """make one member of a zip file unreadable: a byte of the stored data is flipped (data), it is not what the compression method says (deflate),
        the compression method is not known (compression), or it is marked as encrypted (encryption)"""
        n = W.fs.walk(path)
        tok = els(n.content)[0]
        es = []
        hit = False
        for x in tok.entries:
            if x.name == name:
                hit = True
                es.append(data.Entry(x.name, x.content, True if way == 'data' else way, x.date))
            else:
                es.append(x)
        n.content = mk_bytes((data.ZipTok(es, tok.comment),))
        return hit

    def truncate_file(self, path):
        """lose the tail of a file"""
        W.fs.walk(path).content = mk_bytes((vfs.Junk(1),))

    def sql_fault(self, at, message='database or disk is full', stays=True):
        """the databases can not be written by the next commands at (and after) that statement or commit; at None: they can
        returns if the earlier fault has happened"""
        old = W.sql_fault
        W.sql_fault = None if at is None else dict(at=at, message=message, stays=stays, n=0, hit=False)
        return bool(old and old['hit'])

    def read_fault(self, path, errno=5, skip=0):
        """the file can be opened for reading only this many times; errno None: without limit, -1: interrupted by the user
        returns if the earlier fault has happened"""
        node = W.fs.walk(path)
        hit = bool(node.fault) and node.fault[1] < 0
        node.fault = (errno, skip) if errno else None
        return hit

    def same_file(self, a, b):
        return W.fs.walk(a) is W.fs.walk(b)

    def fifo(self, path):
        osmod.vopen(path, 'wb').close()
        W.fs.walk(path).special = 'fifo'


def run_instance(modname, func, params, opts):
    """explore one harness instance; plain data result"""
    boot()
    m = load_harness(modname)
    f = getattr(m, func)
    params = dict(params or {})
    fix = params.pop('_fix', None)
    shard = params.pop('_shard', ())
    e = core.Engine(query_timeout_ms=opts.get('query_timeout_ms', 20000), deadline=opts.get('deadline'), max_paths=opts.get('max_paths'))
    e.shard = tuple(bool(b) for b in shard)
    e.path_seconds = opts.get('path_seconds')
    e.keep_witness = opts.get('keep_witness', 8)
    e.eval_log = lambda model, log: [(l, ev(model, v)) for l, v in log]

    def run(engine):
        env = SymEnv(engine, fix)
        try:
            f(env, **params)
        except Control:
            raise
        except BaseException as ex:
            if loader.proxy_error(ex) or opts.get('trace'):
                if opts.get('trace'):
                    import traceback
                    traceback.print_exc()
                raise Unsupported(f'{type(ex).__name__}: {ex} in {where(ex)}')
            engine.check(False, 'harness raised ' + type(ex).__name__, f'{ex} in {where(ex)}')
    e.explore(run)
    return dict(
        candidates=e.candidates, stats=dict(e.stats), solver_time=e.solver_time, wall=e.wall, reached=e.reached, witnesses=e.witnesses,
        inconclusive=[(r, i) for r, i in e.inconclusive], incomplete=e.incomplete, funcs=sorted(e.funcs))


def where(ex):
    tb = ex.__traceback__
    last = ''
    while tb is not None:
        c = tb.tb_frame.f_code
        last = f'{_os.path.basename(c.co_filename)}:{tb.tb_lineno} {c.co_name}'
        tb = tb.tb_next
    return last
