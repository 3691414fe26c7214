"""Dynamic symbolic execution core.

The code under test (the real Python functions of /repo) is run on proxy values that carry solver
terms.  Whenever the program needs a concrete truth value (`if`, dict lookup via ==, ...) the
proxy asks the solver which outcomes are feasible under the path condition; every feasible outcome
is explored (depth first, by re-execution).  Assertions are discharged per path by the solver:
`path /\ not assertion` must be unsat.  A sat answer is turned into concrete inputs, which a
ConcreteEnv re-runs against the unmodified code without any symbolic value.
"""
import os
import threading
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import TRUE, FALSE

CONST_HASH = 0x5A17
FALSY = ['', 0, (), b'', frozenset()]


class PathAbort(BaseException):
    """path ends without verdict (assumption not satisfiable / cut by the harness)"""


class z3_guard:
    """interrupts a single solver call that runs longer than LIMIT seconds (such a path is inconclusive);
    the deterministic resource limit of the solver does not bound algebraic number computations"""
    LIMIT = 25
    since = None
    thread = None
    pid = None

    def __enter__(self):
        if z3_guard.pid != os.getpid():
            z3_guard.pid = os.getpid()
            z3_guard.thread = threading.Thread(target=self.watch, daemon=True)
            z3_guard.thread.start()
        z3_guard.since = time.monotonic()

    def __exit__(self, *a):
        z3_guard.since = None

    @classmethod
    def watch(cls):
        while True:
            time.sleep(1)
            t = cls.since
            if t is not None and time.monotonic() - t > cls.LIMIT:
                z3.main_ctx().interrupt()


class Inconclusive(BaseException):
    """solver answered unknown"""


class PathTimeout(BaseException):
    pass


class CexFound(BaseException):
    pass


ENV = None      # the current environment (symbolic or concrete)


def cur():
    return ENV


def set_env(e):
    global ENV
    ENV = e


# ----------------------------------------------------------------------------------------------
# proxies


def _lift(x):
    """python value -> term, or None when not liftable"""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, int)):
        return T.const(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return T.const(Fraction(x))
    if isinstance(x, Fraction):
        return T.const(x)
    return None


class Sym:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return ENV.fmt(self)

    __str__ = __repr__

    def __format__(self, spec):
        r = ENV.fmt(self)
        if spec:
            # a format applies to the printed form, as it does to the concrete value
            for t in (int, float, str):
                try:
                    return format(t(r), spec)
                except ValueError:
                    pass
        return r

    def __reduce__(self):
        return _unpickle, (ENV.stash(self),)


def _unpickle(i):
    return ENV.stashed[i]


class SymVal(Sym):
    """element of an infinite set about which only equality is known"""
    __slots__ = ()

    def __hash__(self):
        return CONST_HASH

    def __bool__(self):
        # an arbitrary value may be falsy (0, '', (), ...)
        ENV.truthy_used = True
        return ENV.branch(T.t_truthy(self.e))

    def __eq__(self, o):
        if isinstance(o, SymVal):
            return mkbool(T.t_eq(self.e, o.e))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, SymVal):
            return mkbool(T.t_not(T.t_eq(self.e, o.e)))
        return NotImplemented


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ENV.branch(self.e)

    def __hash__(self):
        return hash(ENV.branch(self.e))

    def __eq__(self, o):
        t = _lift(o)
        if t is None or t.sort == T.U:
            return NotImplemented
        return mkbool(T.t_equal(self.e, t))

    def __ne__(self, o):
        t = _lift(o)
        if t is None or t.sort == T.U:
            return NotImplemented
        return mkbool(T.t_not(T.t_equal(self.e, t)))

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __xor__(self, o):
        return Not(Eq(self, truth(o)))

    __rxor__ = __xor__

    def _i(self):
        return SymInt(T.t_num(self.e))

    def __abs__(self):
        return self._i()

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


def _ok(o):
    t = _lift(o)
    if t is None or t.sort == T.U:
        return None
    return t


def _cmp(op):
    def f(self, o):
        t = _ok(o)
        if t is None:
            return NotImplemented
        return mkbool(op(self.e, t))
    return f


def _arith(op, rev=False):
    def f(self, o):
        t = _ok(o)
        if t is None:
            return NotImplemented
        a, b = T.t_num(self.e), T.t_num(t)
        if rev:
            a, b = b, a
        return mknum(op(a, b))
    return f


def _truediv(a, b):
    # python semantics: division by zero raises
    if ENV.branch(T.t_equal(b, T.const(0))):
        raise ZeroDivisionError('division by zero')
    return T.t_div(a, b)


def _pow(a, b):
    if T.isk(b) and b.sort == T.I and T.kval(b) >= 0:
        r = T.const(1)
        for _ in range(T.kval(b)):
            r = T.t_mul(r, a)
        return r
    if T.isk(b) and T.kval(b) == Fraction(1, 2):
        from .mathsym import sqrt
        return sqrt(mknum(a)).e
    if T.isk(b) and T.kval(b) == 2:
        return T.t_mul(a, a)
    raise NotImplementedError('symbolic exponent')


class SymNum(Sym):
    __slots__ = ()

    def __hash__(self):
        return ENV.hash_num(self)

    def __bool__(self):
        return ENV.branch(T.t_not(T.t_equal(self.e, T.const(0))))

    __eq__ = _cmp(T.t_equal)
    __ne__ = _cmp(T.t_neq)
    __lt__ = _cmp(T.t_lt)
    __le__ = _cmp(T.t_le)
    __gt__ = _cmp(lambda a, b: T.t_lt(b, a))
    __ge__ = _cmp(lambda a, b: T.t_le(b, a))
    __add__ = _arith(T.t_add)
    __radd__ = _arith(T.t_add, True)
    __sub__ = _arith(T.t_sub)
    __rsub__ = _arith(T.t_sub, True)
    __mul__ = _arith(T.t_mul)
    __rmul__ = _arith(T.t_mul, True)
    __truediv__ = _arith(_truediv)
    __rtruediv__ = _arith(_truediv, True)
    __pow__ = _arith(_pow)

    def __neg__(self):
        return mknum(T.t_neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(T.t_ite(T.t_lt(self.e, T.const(0)), T.t_neg(self.e), self.e))


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return ENV.concretize(self.e)

    __int__ = __index__

    def __floordiv__(self, o):
        t = _ok(o)
        if t is None or t.sort != T.I:
            return NotImplemented
        if ENV.branch(T.t_equal(t, T.const(0))):
            raise ZeroDivisionError('integer division by zero')
        # SMT-LIB div rounds so that remainder >= 0; python floors
        if ENV.branch(T.t_lt(T.const(0), t)):
            return mknum(T.t_idiv(self.e, t))
        return mknum(T.t_idiv(T.t_neg(self.e), T.t_neg(t)))

    def __mod__(self, o):
        t = _ok(o)
        if t is None or t.sort != T.I:
            return NotImplemented
        q = self // o
        return self - q * o

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(ENV.concretize(self.e))


class SymReal(SymNum):
    __slots__ = ()

    def __float__(self):
        raise TypeError('symbolic real has no concrete float value')

    def __round__(self, n=None):
        # nearest multiple of 10**-n; either neighbour of a tie
        k = ENV.int(ENV.fresh('round'))
        f = Fraction(10) ** (n or 0)
        d = self * f - k
        ENV.assume(And(d <= Fraction(1, 2), d >= Fraction(-1, 2)))
        return k if n is None else k / f


def mkbool(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SymBool(t)


def mknum(t):
    if T.isk(t):
        v = T.kval(t)
        return v if t.sort == T.I else (SymReal(t))
    if t.sort == T.R:
        return SymReal(t)
    if t.sort == T.U:
        return SymVal(t)
    return SymInt(t)


def _flat(xs):
    if len(xs) == 1 and (isinstance(xs[0], (list, tuple)) or hasattr(xs[0], '__next__')):
        return list(xs[0])
    return list(xs)


def And(*xs):
    xs = _flat(xs)
    sy = [x.e for x in xs if isinstance(x, SymBool)]
    if not all(bool(x) for x in xs if not isinstance(x, SymBool)):
        return False
    if not sy:
        return True
    return mkbool(T.t_and(sy))


def Or(*xs):
    xs = _flat(xs)
    sy = [x.e for x in xs if isinstance(x, SymBool)]
    if any(bool(x) for x in xs if not isinstance(x, SymBool)):
        return True
    if not sy:
        return False
    return mkbool(T.t_or(sy))


def Not(x):
    if isinstance(x, SymBool):
        return mkbool(T.t_not(x.e))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Eq(truth(a), truth(b))


def truth(x):
    """truth value as bool or SymBool, no fork"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return mkbool(T.t_neq(x.e, T.const(0)))
    return bool(x)


def Eq(a, b):
    """equality as bool/SymBool without forking; structural on lists/tuples"""
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And([Eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if isinstance(r, (SymBool, bool)):
        return r
    return bool(r)


def SeqEq(a, b):
    """equality of two sequences, ignoring list/tuple difference at top level"""
    return Eq(list(a), list(b))


def Ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    ta, tb = _lift(a), _lift(b)
    if ta is None or tb is None:
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(Ite(c, x, y) for x, y in zip(a, b))
        return a if bool(c) else b      # not solver values: fork
    if ta.sort == T.B and tb.sort == T.B:
        return mkbool(T.t_ite(c.e, ta, tb))
    if ta.sort == T.U or tb.sort == T.U:
        if ta.sort != tb.sort:
            return a if bool(c) else b
        return SymVal(T.t_ite(c.e, ta, tb))
    ta, tb = T._co(ta, tb)
    return mknum(T.t_ite(c.e, ta, tb))


def Select(idx, items):
    """items[idx] for a symbolic index, as an if-then-else term"""
    if not isinstance(idx, Sym):
        return items[idx]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = Ite(idx == k, items[k], r)
    return r


# ----------------------------------------------------------------------------------------------
# environments


class BaseEnv:
    symbolic = False

    def __init__(self):
        self.covers = set()
        self.stashed = []
        self.counts = {}
        self.notes = set()
        self.keep = []          # objects kept alive for the duration of the path

    def stash(self, x):
        self.stashed.append(x)
        return len(self.stashed) - 1

    def fresh(self, base):
        k = self.counts.get(base, 0)
        self.counts[base] = k + 1
        return f'{base}#{k}'

    def cover(self, label):
        self.covers.add(label)

    def choose(self, k, name='ch'):
        """nondeterministic choice of one of k alternatives / of an element of a sequence"""
        items = None
        if not isinstance(k, int):
            items = list(k)
            k = len(items)
        if k <= 0:
            raise PathAbort('empty choice')
        i = 0 if k == 1 else self._choose(k, self.fresh(name))
        return items[i] if items is not None else i


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, prefix, shared):
        super().__init__()
        self.prefix = prefix          # list of recorded decisions to replay
        self.trace = []               # decisions of this run
        self.pending = []             # alternative prefixes discovered
        self.sh = shared              # solver + counters
        self.solver = shared.solver
        self.model = None
        self.vars = {}                # name -> (term, kind)
        self.known = {}
        self.checks = 0
        self.cexs = []
        self.max_decisions = shared.max_decisions
        self.hash_mode = 'const'
        self.fmt_mode = 'opaque'
        self.deadline = None
        self.path = []
        self.truthy_used = False

    # -- formatting of symbolic values
    def fmt(self, x):
        if self.fmt_mode == 'concretize':
            if isinstance(x, SymBool):
                return str(bool(x))
            if isinstance(x, SymInt):
                return str(self.concretize(x.e))
        self.notes.add('opaque-format')
        return f'<{x.e.op}:{x.e.h:x}>'

    def hash_num(self, x):
        if self.hash_mode == 'concretize' and isinstance(x, SymInt):
            return hash(self.concretize(x.e))
        return CONST_HASH

    # -- inputs
    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = T.var(name, T.I)
        if name not in self.vars:
            self.vars[name] = (v, 'int')
            if lo is not None:
                self._add(T.t_le(T.const(lo), v))
            if hi is not None:
                self._add(T.t_le(v, T.const(hi)))
        return SymInt(v)

    def bool(self, name):
        v = T.var(name, T.B)
        self.vars[name] = (v, 'bool')
        return SymBool(v)

    def val(self, name):
        v = T.var(name, T.U)
        self.vars[name] = (v, 'val')
        return SymVal(v)

    def real(self, name, lo=None, hi=None):
        v = T.var(name, T.R)
        if name not in self.vars:
            self.vars[name] = (v, 'real')
            if lo is not None:
                self._add(T.t_le(T.const(Fraction(lo)), v))
            if hi is not None:
                self._add(T.t_le(v, T.const(Fraction(hi))))
        return SymReal(v)

    def _choose(self, k, name):
        v = T.var(name, T.I)
        self.vars[name] = (v, 'int')
        self._add(T.t_le(T.const(0), v))
        self._add(T.t_lt(v, T.const(k)))
        for i in range(k - 1):
            if self.branch(T.t_eq(v, T.const(i))):
                return i
        return k - 1

    # -- constraints
    def _assert(self, t):
        self.solver.add(T.to_z3(t))
        self.path.append(t)

    def _add(self, t):
        if t is TRUE:
            return
        self._assert(t)
        if self.model is not None:
            if not z3.is_true(self._eval(T.to_z3(t))):
                self.model = None

    def _eval(self, x):
        with z3_guard():
            try:
                return self.model.eval(x, model_completion=True)
            except z3.Z3Exception as e:
                raise Inconclusive(f'model evaluation: {e}')

    def _check(self, extra=None):
        s = self.solver
        t0 = time.monotonic()
        if extra is not None:
            s.push()
            s.add(T.to_z3(extra))
        with z3_guard():
            r = s.check()
            m = s.model() if r == z3.sat else None
        if r == z3.unknown:
            # once more from scratch, with another seed
            s2 = z3.SimpleSolver()
            s2.set('rlimit', self.sh.rlimit)
            s2.set('random_seed', 17)
            s2.add(s.assertions())
            with z3_guard():
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            reason = s2.reason_unknown() if r == z3.unknown else ''
        if extra is not None:
            s.pop()
        self.sh.queries += 1
        self.sh.solver_s += time.monotonic() - t0
        if r == z3.unknown:
            raise Inconclusive(reason)
        return m

    def assume(self, c):
        if not isinstance(c, SymBool):
            if not c:
                raise PathAbort('assume')
            return
        self._add(c.e)
        if len(self.trace) >= len(self.prefix) and self.model is None:
            self.model = self._check()
            if self.model is None:
                raise PathAbort('assume')

    def branch(self, e):
        if e is TRUE:
            return True
        if e is FALSE:
            return False
        kn = self.known.get(e)
        if kn is not None:
            return kn
        pos = len(self.trace)
        if pos >= self.max_decisions:
            raise PathTimeout('decision bound')
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if not isinstance(v, int) or v >> 2 != e.h:
                raise Inconclusive('re-execution diverges (nondeterministic code)')
            val = bool(v & 1)
            self.trace.append(v)
            if not v & 2:
                self._assert(e if val else T.t_not(e))
        else:
            if self.model is None:
                self.model = self._check()
                if self.model is None:
                    raise PathAbort('infeasible')
            val = z3.is_true(self._eval(T.to_z3(e)))
            m2 = self._check(T.t_not(e) if val else e)
            hh = e.h << 2
            if m2 is None:
                self.trace.append(hh | (1 if val else 0) | 2)
            else:
                self.pending.append(self.trace + [hh | (0 if val else 1)])
                self.trace.append(hh | (1 if val else 0))
                self._assert(e if val else T.t_not(e))
        self._learn(e, val)
        return val

    def _learn(self, e, val):
        known = self.known
        known[e] = val
        known[T.t_not(e)] = not val
        if val and e.op == 'and' or not val and e.op == 'or':
            for a in e.args:
                if a not in known:
                    self._learn(a, val)

    def concretize(self, e):
        """fork over the feasible values of an int term"""
        if T.isk(e):
            return T.kval(e)
        for n in range(256):
            pos = len(self.trace)
            if pos < len(self.prefix):
                v = self.prefix[pos]
                if isinstance(v, int):
                    raise Inconclusive('re-execution diverges (nondeterministic code)')
                v = v[1]
            else:
                if self.model is None:
                    self.model = self._check()
                    if self.model is None:
                        raise PathAbort('infeasible')
                v = self._eval(T.to_z3(e)).as_long()
            self.trace.append(('c', v))
            if self.branch(T.t_equal(e, T.const(v))):
                return v
        raise PathTimeout('concretize: unbounded domain')

    # -- assertions
    def check(self, c, msg=''):
        """assert c on this path: discharged by the solver for all inputs of the path"""
        self.checks += 1
        self.sh.obligations += 1
        if not isinstance(c, SymBool):
            if c:
                return
            self._record(None, msg)
            raise CexFound()
        if len(self.trace) < len(self.prefix):
            # same path condition as in the run that discovered this prefix: discharged there
            self._assert(c.e)
            self.known.setdefault(c.e, True)
            return
        m = self._check(T.t_not(c.e))
        if m is not None:
            self._record_model(m, msg)
            raise CexFound()
        self._assert(c.e)
        self.known.setdefault(c.e, True)

    def fail(self, msg):
        self.check(False, msg)

    def _record(self, extra, msg):
        m = self._check(extra)
        if m is None:
            raise PathAbort('infeasible')
        self._record_model(m, msg)

    def _record_model(self, m, msg):
        inp = {}
        uni = {}
        falsy = 0
        for name, (v, kind) in self.vars.items():
            mv = m.eval(T.to_z3(v), model_completion=True)
            if kind == 'int':
                inp[name] = mv.as_long()
            elif kind == 'bool':
                inp[name] = z3.is_true(mv)
            elif kind == 'val':
                k = str(mv)
                if k not in uni:
                    if self.truthy_used and not z3.is_true(m.eval(T.to_z3(T.t_truthy(v)), model_completion=True)):
                        falsy += 1
                        uni[k] = -falsy
                    else:
                        uni[k] = len(uni)
                inp[name] = uni[k]
            else:
                if z3.is_algebraic_value(mv):
                    mv = mv.approx(20)
                inp[name] = [mv.numerator_as_long(), mv.denominator_as_long()]
        self.cexs.append({'msg': msg, 'inputs': inp})

    def feasible_inputs(self, msg):
        """concrete inputs for this path (unexpected exception / time out)"""
        try:
            self._record(None, msg)
        except PathAbort:
            pass


class ConcreteEnv(BaseEnv):
    """replays recorded inputs on the real code, no symbolic values at all"""

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.failures = []
        self.fmt_mode = 'opaque'
        self.hash_mode = 'const'

    def fmt(self, x):
        return str(x)

    def int(self, name, lo=None, hi=None):
        return int(self.inputs.get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def val(self, name):
        k = self.inputs.get(name, 0)
        if k < 0:
            if -k > len(FALSY):
                raise PathAbort('too many different falsy values')
            return FALSY[-k - 1]
        return f"o{k}"

    def real(self, name, lo=None, hi=None):
        n, d = self.inputs.get(name, [lo or 0, 1])
        return n / d

    def _choose(self, k, name):
        return int(self.inputs.get(name, 0))

    def assume(self, c):
        if not c:
            raise PathAbort('assume')

    def check(self, c, msg=''):
        if not c:
            self.failures.append(msg)
            raise CexFound()

    def fail(self, msg):
        self.check(False, msg)


class Shared:
    def __init__(self, max_decisions=4000, rlimit=200_000_000):
        self.solver = z3.Solver()
        # a deterministic resource limit; z3's wall clock timeout uses threads
        self.solver.set('rlimit', rlimit)
        self.rlimit = rlimit
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.max_decisions = max_decisions
