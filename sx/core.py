"""Path-exploring symbolic execution engine (z3 decides every branch and every assertion).

The engine runs a harness many times.  Each run follows one path; every time the
code under test needs the truth value of a symbolic condition the engine asks the
solver which outcomes are possible under the path condition.  Depth first search
over the undecided outcomes visits every feasible path within the bounds.
"""
import os
import signal
import time
import z3

# keep references for speed
_And, _Or, _Not = z3.And, z3.Or, z3.Not


class Control(BaseException):
    """Steering exceptions of the engine; code under test must never swallow them."""


class PathAbort(Control):
    """path is infeasible / cut by an assumption"""


class Unsupported(Control):
    """the code did something the encoding does not model"""


class Crash(Control):
    """simulated death of the process under test"""


class Hang(Control):
    """one path ran for too long"""


class Limit(Control):
    """exploration budget exhausted"""


SLOW = os.environ.get('SX_SLOW')
E = None   # current engine (one per process)


def eng():
    return E


class _Dec:
    __slots__ = ('val', 'cond', 'pending', 'model', 'pushed')

    def __init__(self, val, cond, pending, model, pushed):
        self.val = val
        self.cond = cond
        self.pending = pending
        self.model = model
        self.pushed = pushed


class Stats(dict):
    def __missing__(self, k):
        return 0


class Engine:
    def __init__(self, query_timeout_ms=20000, deadline=None, max_paths=None, max_decisions=20000):
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', query_timeout_ms)
        self.decs = []
        self.stats = Stats()
        self.solver_time = 0.0
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.candidates = []
        self.reached = {}
        self.witnesses = []
        self.inconclusive = []       # (reason, inputs)
        self.incomplete = None
        self.model = None
        self.funcs = set()
        self.keep_witness = 0
        self.eval_log = lambda m, log: []
        self.dead = False
        self.shard = ()              # sides forced at the first forks (work splitting)
        self.forced = 0
        self.path_seconds = None

    # -- solver access ------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        t = time.perf_counter() - t
        self.solver_time += t
        self.stats['queries'] += 1
        if SLOW and t > float(SLOW):
            import traceback
            print(f'slow query {t:.1f} s {r}', [str(x)[:300] for x in extra], ''.join(traceback.format_stack(limit=14)[:-1]))
        if r == z3.sat:
            self.stats['sat'] += 1
        elif r == z3.unsat:
            self.stats['unsat'] += 1
        else:
            self.stats['unknown'] += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort('path condition unsatisfiable')
            if r != z3.sat:
                raise Unsupported('solver gave unknown for the path condition')
            self.model = self.solver.model()
        return self.model

    def _holds_in_model(self, cond):
        v = self._get_model().eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        # the model did not fold the term: ask
        r = self._check(cond)
        if r == z3.sat:
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            return False
        raise Unsupported('solver gave unknown')

    # -- path life cycle ------------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.memo = {}
        self.keep = []
        self.fresh = 0
        self.inputs = {}
        self.dom = {}
        self.dead = False
        self.path_log = []
        self.path_cache = {}
        self.bounds = {}             # id of an integer term -> (lo, hi)
        self.ndec = 0

    def backtrack(self):
        """prepare the next path; False when the tree is exhausted"""
        while self.decs:
            d = self.decs.pop()
            if d.pushed:
                self.solver.pop()
            if d.pending:
                self.solver.push()
                c = d.cond if not d.val else _Not(d.cond)
                self.solver.add(c)
                self.decs.append(_Dec(not d.val, d.cond, False, None, True))
                self.model = d.model
                return True
        return False

    @property
    def replaying(self):
        return self.pos < len(self.decs)

    def add(self, cond):
        """assert a constraint on the current path without a feasibility check"""
        if self.replaying:
            return
        self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def branch(self, cond, unary=None):
        if self.dead:
            raise Crash()
        key = cond.get_id()
        if key in self.memo:
            return self.memo[key]
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.ndec += 1
        if self.ndec > self.max_decisions:
            raise Unsupported('too many decisions on one path')
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            val = d.val
            if d.cond is None or d.cond.get_id() != cond.get_id():
                raise RuntimeError('replay diverged: the harness or a stub is not deterministic')
            self.pos += 1
        else:
            if self.deadline is not None and time.time() > self.deadline:
                raise Limit('deadline')
            self.stats['branches'] += 1
            val = self._holds_in_model(cond)
            other = _Not(cond) if val else cond
            r = self._check(other)
            if r == z3.unsat:
                self.decs.append(_Dec(val, cond, False, None, False))
            elif r == z3.sat and self.forced < len(self.shard):
                # the other side belongs to another worker
                m = self.solver.model()
                want = self.shard[self.forced]
                self.forced += 1
                if want != val:
                    val = want
                    self.model = m
                self.solver.push()
                self.solver.add(cond if val else _Not(cond))
                self.decs.append(_Dec(val, cond, False, None, True))
            elif r == z3.sat:
                m = self.solver.model()
                self.solver.push()
                self.solver.add(cond if val else _Not(cond))
                self.decs.append(_Dec(val, cond, True, m, True))
                self.stats['forks'] += 1
            else:
                # undecided: follow the side with a model, remember that the other is unexplored
                self.solver.push()
                self.solver.add(cond if val else _Not(cond))
                self.decs.append(_Dec(val, cond, False, None, True))
                self.inconclusive.append(('solver unknown at a branch', None))
            self.pos += 1
        self.memo[key] = val
        self.keep.append(cond)
        n = _Not(cond)
        self.keep.append(n)
        self.memo[n.get_id()] = not val
        if unary is not None:
            vid, ranges = unary
            old = self.dom.get(vid)
            if old is not None:
                self.dom[vid] = rng_and(old, ranges) if val else rng_sub(old, ranges)
        return val

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort('assume')
        if isinstance(cond, SBool):
            un = cond.unary
            cond = cond.x
            if un is not None and un[0] in self.dom:
                self.dom[un[0]] = rng_and(self.dom[un[0]], un[1])
        if z3.is_true(cond):
            return
        self.memo[cond.get_id()] = True
        self.keep.append(cond)
        if self.replaying:
            return
        self.solver.add(cond)
        if self.model is not None:
            if z3.is_true(self.model.eval(cond, model_completion=True)):
                return
            self.model = None
        self._get_model()

    def check(self, cond, label, detail=None):
        """the assertion; the solver decides it for every value on this path"""
        if self.replaying:
            # decided when this prefix was first executed
            if isinstance(cond, SBool):
                self.memo[cond.x.get_id()] = True
                self.keep.append(cond.x)
            elif not cond:
                raise PathAbort('check failed before')
            return
        self.stats['checks'] += 1
        if isinstance(cond, SBool):
            x = cond.x
            if z3.is_true(x):
                return
            r = self._check(_Not(x))
            if r == z3.unsat:
                self.stats['checks_discharged'] += 1
                self.memo[x.get_id()] = True
                self.keep.append(x)
                return
            if r == z3.sat:
                m = self.solver.model()
                self.candidate(label, m, detail)
                # go on where it holds, if it can
                self.solver.add(x)
                self.model = None
                self._get_model()
                self.memo[x.get_id()] = True
                self.keep.append(x)
                return
            self.inconclusive.append((f'solver unknown for {label}', None))
            return
        if cond:
            self.stats['checks_on_path'] += 1
            return
        self.candidate(label, self._get_model(), detail)
        raise PathAbort('check failed')

    def candidate(self, label, model, detail=None):
        self.stats['candidates'] += 1
        if len([c for c in self.candidates if c['label'] == label]) >= 12:
            return
        self.candidates.append(dict(label=label, inputs=self.model_inputs(model), detail=detail))

    # -- variables -------------------------------------------------------------
    def new_int(self, hint='v'):
        self.fresh += 1
        return z3.Int(f'{hint}!{self.fresh}')

    def model_inputs(self, model=None):
        if model is None:
            model = self._get_model()
        out = {}
        for label, f in self.inputs.items():
            out[label] = f(model)
        return out

    def concretize(self, x, what='int'):
        """let the solver enumerate the values of an integer term (forks per value)"""
        n = 0
        while True:
            if self.replaying:
                d = self.decs[self.pos]
                if d.cond is not None:
                    raise RuntimeError('replay diverged in concretize')
                v = d.val
            else:
                v = self._get_model().eval(x, model_completion=True).as_long()
                self.decs.append(_Dec(v, None, False, None, False))
            self.pos += 1
            self.stats['concretizations'] += 1
            n += 1
            if n > 4096:
                raise Unsupported('concretization too wide')
            if self.branch(x == z3.IntVal(v)):
                return v

    def choose_case(self, value_of, cond_of):
        """split on a case that is read off the model; value_of(model) -> case, cond_of(case) -> z3 condition"""
        n = 0
        while True:
            if self.replaying:
                d = self.decs[self.pos]
                if d.cond is not None:
                    raise RuntimeError('replay diverged in choose_case')
                v = d.val
            else:
                v = value_of(self._get_model())
                self.decs.append(_Dec(v, None, False, None, False))
            self.pos += 1
            n += 1
            if n > 4096:
                raise Unsupported('too many cases')
            c = cond_of(v)
            if self.branch(c):
                return v

    # -- driver -------------------------------------------------------------
    def explore(self, run):
        """run(engine) -> None executes one path"""
        global E
        E = self
        self.t0 = time.time()
        first = True
        while True:
            if not first and not self.backtrack():
                break
            first = False
            self.start_path()
            try:
                try:
                    try:
                        self._timer(self.path_seconds)
                        run(self)
                    finally:
                        self._timer(None)
                    self.stats['paths'] += 1
                    self._witness()
                except PathAbort:
                    self.stats['paths_cut'] += 1
                except Hang:
                    self.stats['paths_unsupported'] += 1
                    if self.deadline is not None and time.time() > self.deadline:
                        raise Limit('deadline')
                    self.model = None
                    self.candidate('terminates', self._get_model())
                    raise Limit('a path did not end')     # interrupted at an arbitrary point: the state is not reusable
                except Unsupported as e:
                    self.stats['paths_unsupported'] += 1
                    reason = str(e)
                    if sum(1 for r, _ in self.inconclusive if r == reason) < 8:
                        try:
                            self.inconclusive.append((reason, self.model_inputs()))
                        except Control:
                            self.inconclusive.append((reason, None))
                    else:
                        self.stats['inconclusive_dropped'] += 1
            except Limit as e:
                self.incomplete = str(e)
                break
            if self.pos < len(self.decs) and False:
                raise RuntimeError('replay diverged')
            if self.max_paths and self.stats['paths'] + self.stats['paths_cut'] + self.stats['paths_unsupported'] >= self.max_paths:
                if any(d.pending for d in self.decs):
                    self.incomplete = 'path limit'
                break
            if self.deadline is not None and time.time() > self.deadline:
                if any(d.pending for d in self.decs):
                    self.incomplete = 'deadline'
                break
        self.wall = time.time() - self.t0
        return self

    def _timer(self, seconds):
        if self.path_seconds is None:
            return
        if seconds and self.deadline is not None:
            # solver calls on one path may also run into the deadline of the instance
            seconds = max(1, min(seconds, self.deadline + 5 - time.time()))

        def ring(*a):
            raise Hang()
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, seconds or 0)

    def _witness(self):
        n = self.stats['paths']
        # keep a spread of witnesses: powers and every k-th
        if self.keep_witness and (len(self.witnesses) < self.keep_witness // 2 or n % max(1, 2 ** (n.bit_length() - 3)) == 0):
            if len(self.witnesses) < 4 * self.keep_witness:
                m = self._get_model()
                self.witnesses.append((self.model_inputs(m), self.eval_log(m, self.path_log)))


# ---------------------------------------------------------------------------
# integer range sets (domains of symbolic characters)
# ---------------------------------------------------------------------------
def rng_and(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                out.append((l, h))
    return tuple(out)


def rng_sub(a, b):
    cur = list(a)
    for l2, h2 in b:
        nxt = []
        for l1, h1 in cur:
            if h2 < l1 or l2 > h1:
                nxt.append((l1, h1))
                continue
            if l1 < l2:
                nxt.append((l1, l2 - 1))
            if h2 < h1:
                nxt.append((h2 + 1, h1))
        cur = nxt
    return tuple(cur)


# ---------------------------------------------------------------------------
# symbolic booleans and integers
# ---------------------------------------------------------------------------
class SBool:
    __slots__ = ('x', 'unary')

    def __init__(self, x, unary=None):
        self.x = x
        self.unary = unary

    def __bool__(self):
        return E.branch(self.x, self.unary)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.x, bx(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_bool(self.x == bx(o))
        if isinstance(o, (int, SInt)):
            return SInt(z3.If(self.x, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return SInt(z3.If(self.x, z3.IntVal(1), z3.IntVal(0))) + o
    __radd__ = __add__

    def _int(self):
        return SInt(z3.If(self.x, z3.IntVal(1), z3.IntVal(0)))

    def __lt__(self, o):
        return self._int() < (o._int() if isinstance(o, SBool) else o)

    def __gt__(self, o):
        return self._int() > (o._int() if isinstance(o, SBool) else o)

    def __le__(self, o):
        return self._int() <= (o._int() if isinstance(o, SBool) else o)

    def __ge__(self, o):
        return self._int() >= (o._int() if isinstance(o, SBool) else o)

    def __repr__(self):
        return f'<SBool>'


def bx(b):
    if isinstance(b, SBool):
        return b.x
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


def mk_bool(x):
    if x is True or x is False:
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SBool(x)


def band(*bs):
    out = []
    for b in bs:
        if isinstance(b, (SBool, z3.BoolRef)):
            out.append(bx(b))
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return mk_bool(out[0])
    return mk_bool(_And(*out))


def bor(*bs):
    out = []
    for b in bs:
        if isinstance(b, (SBool, z3.BoolRef)):
            out.append(bx(b))
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return mk_bool(out[0])
    return mk_bool(_Or(*out))


def bnot(b):
    if isinstance(b, (SBool, z3.BoolRef)):
        return mk_bool(_Not(bx(b)))
    return not b


def implies(a, b):
    return bor(bnot(a), b)


def beq(a, b):
    """equality of two truth values"""
    sa, sb = isinstance(a, SBool), isinstance(b, SBool)
    if not sa and not sb:
        return bool(a) == bool(b)
    return mk_bool(bx(a) == bx(b))


def ix(v):
    if isinstance(v, SInt):
        return v.x
    if isinstance(v, SBool):
        return z3.If(v.x, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported(f'integer expected, got {type(v).__name__}')


def mk_int(x):
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    return SInt(x)


def _isnum(o):
    return isinstance(o, (int, SInt, SBool)) and not isinstance(o, float)


class SInt:
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def _bin(self, o, f, rev=False):
        if not _isnum(o):
            if isinstance(o, (float, SFloat)):
                a = to_float(self)
                return f(o, a) if rev else f(a, o)
            return NotImplemented
        a, b = (ix(o), self.x) if rev else (self.x, ix(o))
        return mk_int(f(a, b))

    def __add__(self, o):
        if o.__class__ is int and o == 0:
            return self
        if o.__class__ is float and o == 0.0:
            return to_float(self)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if o.__class__ is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (float, SFloat)):
            return to_float(self) * o
        if not _isnum(o):
            if hasattr(o, '__len__'):
                return o * self.__index__()
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.x)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.x >= 0, self.x, -self.x))

    def __floordiv__(self, o):
        o2 = o if isinstance(o, int) else None
        if o2 is None or o2 <= 0:
            return self.__index__() // (o if isinstance(o, (int, float)) else int(o))
        return lin_divmod(self, o2)[0]

    def __mod__(self, o):
        if not isinstance(o, int) or o <= 0:
            return self.__index__() % (o if isinstance(o, (int, float)) else int(o))
        return lin_divmod(self, o)[1]

    def __divmod__(self, o):
        if isinstance(o, int) and o > 0:
            return lin_divmod(self, o)
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __truediv__(self, o):
        if isinstance(o, int) and o != 0:
            return SFloat.ratio(self, o)
        return to_float(self) / o

    def __rtruediv__(self, o):
        return to_float(o) / float(self)

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        return self.__index__() & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | int(o)
    __ror__ = __or__

    def __lshift__(self, o):
        return self.__index__() << int(o)

    def __rshift__(self, o):
        return self.__index__() >> int(o)

    def __eq__(self, o):
        if isinstance(o, (float, SFloat)):
            return to_float(self) == o
        if not _isnum(o):
            return False
        return mk_bool(self.x == ix(o))

    def __ne__(self, o):
        return bnot(self == o)

    def _cmp(self, o, f):
        if isinstance(o, (float, SFloat)):
            return f(to_float(self), o)
        if not _isnum(o):
            return NotImplemented
        return mk_bool(f(self.x, ix(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(mk_bool(self.x != 0))

    def __index__(self):
        return E.concretize(self.x)
    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def __repr__(self):
        return f'<SInt {self.x}>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def bound(x, lo, hi):
    """remember known bounds of an integer term (on this path)"""
    E.keep.append(x)
    E.bounds[x.get_id()] = (lo, hi)


def linear(x):
    """{id: [coefficient, atom]}, constant of an integer term"""
    c = E.path_cache.setdefault('linear', {})
    k = x.get_id()
    if k in c:
        return c[k]
    out = {}
    const = 0
    todo = [(1, x)]
    while todo:
        f, t = todo.pop()
        if z3.is_int_value(t):
            const += f * t.as_long()
            continue
        op = t.decl().kind()
        if op == z3.Z3_OP_ADD:
            todo += [(f, a) for a in t.children()]
        elif op == z3.Z3_OP_SUB:
            a = t.children()
            todo.append((f, a[0]))
            todo += [(-f, b) for b in a[1:]]
        elif op == z3.Z3_OP_UMINUS:
            todo.append((-f, t.arg(0)))
        elif op == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            todo.append((f * t.arg(0).as_long(), t.arg(1)))
        elif op == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
            todo.append((f * t.arg(1).as_long(), t.arg(0)))
        else:
            i = t.get_id()
            if i in out:
                out[i][0] += f
            else:
                out[i] = [f, t]
    out = {i: v for i, v in out.items() if v[0]}
    E.keep.append(x)
    c[k] = out, const
    return c[k]


def _sum(terms, const):
    xs = [a if f == 1 else a * f for f, a in terms]
    if const or not xs:
        xs.append(z3.IntVal(const))
    return xs[0] if len(xs) == 1 else z3.Sum(xs)


def fresh_divmod(x, c):
    q, r = E.new_int('q'), E.new_int('r')
    E.add(z3.And(x == q * c + r, r >= 0, r < c))
    bound(r, 0, c - 1)
    return q, r


def lin_divmod(v, c):
    """quotient and remainder by a positive constant; linear where the summands allow it"""
    cache = E.path_cache.setdefault('divmod', {})
    key = (v.x.get_id(), c)
    if key in cache:
        return cache[key][:2]
    terms, const = linear(v.x)
    whole = [(f // c, a) for f, a in terms.values() if f % c == 0]
    rest = [(f, a) for f, a in terms.values() if f % c]
    r0 = const % c
    q0 = const // c
    lo = hi = r0
    for f, a in rest:
        b = E.bounds.get(a.get_id())
        if b is None:
            lo = None
            break
        lo += f * (b[0] if f > 0 else b[1])
        hi += f * (b[1] if f > 0 else b[0])
    r = _sum(rest, r0)
    q = None
    if lo is not None and hi // c - lo // c <= 3:
        n = None
        for k in range(lo // c, hi // c):
            if E.branch(r < (k + 1) * c):
                n = k
                break
        if n is None:
            n = hi // c
        q, r = _sum(whole, q0 + n), _sum(rest, r0 - n * c)
    elif whole:
        d, m = fresh_divmod(r, c)
        if lo is not None:
            bound(d, lo // c, hi // c)
        q, r = _sum(whole + [(1, d)], q0), m
    else:
        q, r = fresh_divmod(r, c)
        if lo is not None:
            bound(q, lo // c, hi // c)
        if q0:
            q = q + q0
    if not z3.is_int_value(r) and r.get_id() not in E.bounds:
        bound(r, 0, c - 1)
    cache[key] = mk_int(q), mk_int(r), v
    return cache[key][:2]


def ite(c, a, b):
    """value-level if for ints"""
    if isinstance(c, SBool):
        return mk_int(z3.If(c.x, ix(a), ix(b)))
    return a if c else b


def int_eq(a, b):
    if isinstance(a, SInt):
        return a == b
    if isinstance(b, SInt):
        return b == a
    return a == b


# ---------------------------------------------------------------------------
# IEEE double arithmetic, exact: value = n / 2**s with n an integer term
# ---------------------------------------------------------------------------
def _binade_of(num, den):
    """e with 2**e <= num/den < 2**(e+1) for positive ints"""
    e = num.bit_length() - den.bit_length()
    if e >= 0:
        if num < den << e:
            e -= 1
    else:
        if num << -e < den:
            e -= 1
    return e


def _round_ratio(num, den):
    """nearest double of num/den; num integer term, den positive int"""
    e = E
    if not isinstance(num, SInt):
        return SFloat.const(num / den)
    if num == 0:
        return 0.0
    neg = bool(num < 0)
    a = (-num).x if neg else num.x

    def value_of(m):
        return _binade_of(m.eval(a, model_completion=True).as_long(), den)

    def cond_of(b):
        lo, hi = (den << b, 1) if b >= 0 else (den, 1 << -b)
        lo2, hi2 = (den << (b + 1), 1) if b + 1 >= 0 else (den, 1 << -(b + 1))
        return z3.And(a * hi >= lo, a * hi2 < lo2)
    b = e.choose_case(value_of, cond_of)
    s = 52 - b                      # result = k / 2**s
    up, down = (1 << s, 1) if s >= 0 else (1, 1 << -s)
    d2 = den * down
    cache = e.path_cache.setdefault('rnd', {})
    key = (a.get_id(), up, d2)
    if key in cache:
        k = cache[key][0]
    else:
        k = e.new_int('dbl')
        diff = 2 * (a * up - k * d2)
        e.add(z3.And(diff <= d2, diff >= -d2, z3.Implies(z3.Or(diff == d2, diff == -d2), k % 2 == 0)))
        cache[key] = (k, a)
    k = -k if neg else k
    if s >= 0:
        return SFloat(SInt(k), s)
    return SFloat(mk_int(k * (1 << -s)), 0)


class SFloat:
    __slots__ = ('n', 's')

    def __init__(self, n, s):
        self.n = n
        self.s = s

    @staticmethod
    def ratio(a, b):
        if not isinstance(a, SInt) and not isinstance(b, SInt):
            return a / b
        if isinstance(b, SInt):
            b = b.__index__()
        if b < 0:
            a, b = -a, -b
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return _round_ratio(a, b)

    @staticmethod
    def const(f):
        return float(f)

    @staticmethod
    def _nd(o):
        """(n, s) of a number"""
        if isinstance(o, SFloat):
            return o.n, o.s
        if isinstance(o, float):
            a, b = o.as_integer_ratio()
            return a, b.bit_length() - 1
        if isinstance(o, SBool):
            o = o._int()
        if isinstance(o, SInt):
            return SFloat._nd(to_float(o))
        return SFloat._nd(float(o))

    def _mulf(self, o):
        n, s = SFloat._nd(o)
        if isinstance(n, SInt) and isinstance(self.n, SInt):
            raise Unsupported('product of two symbolic floats')
        t = self.s + s
        num = self.n * n
        return _round_ratio(num * (1 if t >= 0 else 1 << -t), 1 << max(t, 0))

    def __mul__(self, o):
        if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
            raise Unsupported('inf/nan')
        if not isinstance(o, (int, float, SInt, SFloat, SBool)):
            return NotImplemented
        return self._mulf(o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (int, float)):
            if isinstance(o, (SInt, SFloat)):
                raise Unsupported('division by a symbolic float')
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('float division by zero')
        a, b = float(o).as_integer_ratio()
        n = self.n * b
        if a < 0:
            a, n = -a, -n
        return _round_ratio(n, a << self.s)

    def _add(self, o, sign):
        if not isinstance(o, (int, float, SInt, SFloat, SBool)):
            return NotImplemented
        n, s = SFloat._nd(o)
        m = max(s, self.s)
        a = self.n * (1 << (m - self.s))
        b = n * (1 << (m - s))
        return _round_ratio(a + b if sign > 0 else a - b, 1 << m)

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._add(o, -1)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SFloat(-self.n, self.s)

    def __abs__(self):
        return -self if self.n < 0 else self

    def _cmp(self, o, f):
        if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
            return f(0.0, o)
        if isinstance(o, (SInt, int)):
            n, s = o, 0                 # exact comparison as in CPython
        elif isinstance(o, (float, SFloat)):
            n, s = SFloat._nd(o)
        else:
            return NotImplemented
        m = max(s, self.s)
        return f(self.n * (1 << (m - self.s)), n * (1 << (m - s)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return bnot(self == o)

    def __bool__(self):
        return bool(self.n != 0)

    def __floor__(self):
        return self.n // (1 << self.s)

    def __trunc__(self):
        if self.n < 0:
            return -((-self.n) // (1 << self.s))
        return self.n // (1 << self.s)
    __int__ = __trunc__

    def __ceil__(self):
        return -((-self.n) // (1 << self.s))

    def __float__(self):
        v = self.n.__index__()
        return v / (1 << self.s)

    def __divmod__(self, o):
        raise Unsupported('divmod of a symbolic float')

    def __mod__(self, o):
        raise Unsupported('modulo of a symbolic float')

    def __floordiv__(self, o):
        raise Unsupported('floor division of a symbolic float')

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def is_integer(self):
        return bool(self.n % (1 << self.s) == 0)

    def as_integer_ratio(self):
        return self.n, 1 << self.s

    def __round__(self, nd=None):
        if nd is None:
            return round_half_even(self)
        raise Unsupported('round to digits')

    def __repr__(self):
        return '<SFloat>'


def to_float(v):
    if isinstance(v, SFloat):
        return v
    if isinstance(v, SBool):
        v = v._int()
    if isinstance(v, SInt):
        if band(v >= -2 ** 53, v <= 2 ** 53):
            return SFloat(v, 0)
        return _round_ratio(v, 1)
    return float(v)


def floor(f):
    if isinstance(f, SFloat):
        return f.__floor__()
    if isinstance(f, (int, SInt)):
        return f
    import math
    return math.floor(f)


def round_half_even(f):
    if isinstance(f, (int, SInt)):
        return f
    if not isinstance(f, SFloat):
        return round(f)
    if f.s == 0:
        return f.n
    d = 1 << f.s
    q = f.n // d
    r2 = (f.n % d) * 2
    return ite(r2 < d, q, ite(r2 > d, q + 1, ite(q % 2 == 0, q, q + 1)))
