"""Hash-consed terms.

A small deterministic term layer in front of z3: re-execution based exploration needs the same
decisions to appear at the same positions in every run and every worker process, which z3's own
simplifier (it orders arguments by internal ids) does not give.
"""
import zlib
from fractions import Fraction
import z3

B, I, R, U = 'B', 'I', 'R', 'U'
_tab = {}
USORT = None


class Term:
    __slots__ = ('op', 'args', 'sort', 'h', 'z', '__weakref__')

    def __init__(self, op, args, sort, h):
        self.op = op
        self.args = args
        self.sort = sort
        self.h = h
        self.z = None


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        s = op + sort
        for a in args:
            s += ',' + (str(a.h) if isinstance(a, Term) else repr(a))
        t = Term(op, args, sort, zlib.crc32(s.encode()) | (zlib.adler32(s.encode()) << 32))
        _tab[key] = t
    return t


TRUE = _mk('k', (True, 'b'), B)
FALSE = _mk('k', (False, 'b'), B)


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return _mk('k', (v, 'i'), I)
    v = Fraction(v)
    return _mk('k', (v, 'r'), R)


def var(name, sort):
    return _mk('v', (name,), sort)


def isk(t):
    return t.op == 'k'


def kval(t):
    return t.args[0]


def t_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), B)


def _nary(op, xs, unit, zero):
    out = []
    seen = set()
    for x in xs:
        if x.op == op:
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y is unit or y in seen:
                continue
            if y is zero or t_not(y) in seen:
                return zero
            seen.add(y)
            out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return _mk(op, tuple(out), B)


def t_and(xs):
    return _nary('and', xs, TRUE, FALSE)


def t_or(xs):
    return _nary('or', xs, FALSE, TRUE)


def t_ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return t_ite(c.args[0], b, a)
    if a.sort == B:
        if a is TRUE:
            return t_or((c, b))
        if a is FALSE:
            return t_and((t_not(c), b))
        if b is TRUE:
            return t_or((t_not(c), a))
        if b is FALSE:
            return t_and((c, a))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.sort)


def t_eq(a, b):
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return TRUE if kval(a) == kval(b) else FALSE
    if a.sort == B:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return t_not(b)
        if b is FALSE:
            return t_not(a)
        if t_not(a) is b:
            return FALSE
    if isk(a):
        a, b = b, a
    if isk(b) and a.op == 'ite':
        c, x, y = a.args
        if isk(x) or isk(y):
            return t_ite(c, t_eq(x, b), t_eq(y, b))
    if not isk(b) and a.h > b.h:
        a, b = b, a
    return _mk('eq', (a, b), B)


def t_num(t):
    if t.sort == B:
        return t_ite(t, const(1), const(0))
    return t


def t_real(t):
    t = t_num(t)
    if t.sort == R:
        return t
    if isk(t):
        return const(Fraction(kval(t)))
    if t.op == 'ite':
        return t_ite(t.args[0], t_real(t.args[1]), t_real(t.args[2]))
    return _mk('toreal', (t,), R)


def _co(a, b):
    a, b = t_num(a), t_num(b)
    if a.sort != b.sort:
        a, b = t_real(a), t_real(b)
    return a, b


def t_lt(a, b):
    a, b = _co(a, b)
    if a is b:
        return FALSE
    if isk(a) and isk(b):
        return TRUE if kval(a) < kval(b) else FALSE
    if isk(b) and a.op == 'ite' and (isk(a.args[1]) or isk(a.args[2])):
        return t_ite(a.args[0], t_lt(a.args[1], b), t_lt(a.args[2], b))
    if isk(a) and b.op == 'ite' and (isk(b.args[1]) or isk(b.args[2])):
        return t_ite(b.args[0], t_lt(a, b.args[1]), t_lt(a, b.args[2]))
    return _mk('lt', (a, b), B)


def t_le(a, b):
    return t_not(t_lt(b, a))


def t_neq(a, b):
    return t_not(t_equal(a, b))


def t_equal(a, b):
    if a.sort == U or b.sort == U:
        if a.sort != b.sort:
            return FALSE
        return t_eq(a, b)
    if a.sort == B and b.sort == B:
        return t_eq(a, b)
    return t_eq(*_co(a, b))


def t_add(a, b):
    a, b = _co(a, b)
    if isk(a) and isk(b):
        return const(kval(a) + kval(b))
    if isk(a):
        a, b = b, a
    if isk(b):
        if kval(b) == 0:
            return a
        if a.op == 'add' and isk(a.args[1]):
            return t_add(a.args[0], const(kval(a.args[1]) + kval(b)))
    elif a.sort == I and (_has_sub(a) or _has_sub(b)):
        # x + (c - x) and the like
        c, lin = _linear(a)
        c2, lin2 = _linear(b)
        lin = dict(lin)
        for x, k in lin2.items():
            lin[x] = lin.get(x, 0) + k
            if not lin[x]:
                del lin[x]
        if not lin:
            return const(c + c2)
    return _mk('add', (a, b), a.sort)


def _has_sub(t):
    while t.op == 'add':
        if t.args[1].op in ('sub', 'neg'):
            return True
        t = t.args[0]
    return t.op in ('sub', 'neg')


def _linear(t):
    if isk(t):
        return kval(t), {}
    if t.op not in ('add', 'sub', 'neg'):
        return 0, {t: 1}
    if t.op == 'neg':
        c, l = _linear(t.args[0])
        return -c, {x: -k for x, k in l.items()}
    c, l = _linear(t.args[0])
    c2, l2 = _linear(t.args[1])
    s = 1 if t.op == 'add' else -1
    l = dict(l)
    for x, k in l2.items():
        l[x] = l.get(x, 0) + s * k
        if not l[x]:
            del l[x]
    return c + s * c2, l


def t_neg(a):
    a = t_num(a)
    if isk(a):
        return const(-kval(a))
    if a.op == 'neg':
        return a.args[0]
    return _mk('neg', (a,), a.sort)


def t_sub(a, b):
    a, b = _co(a, b)
    if a is b:
        return const(0) if a.sort == I else const(Fraction(0))
    if isk(b):
        return t_add(a, const(-kval(b)))
    return _mk('sub', (a, b), a.sort)


def t_mul(a, b):
    a, b = _co(a, b)
    if isk(a) and isk(b):
        return const(kval(a) * kval(b))
    if isk(a):
        a, b = b, a
    if isk(b):
        if kval(b) == 1:
            return a
        if kval(b) == 0:
            return b
    return _mk('mul', (a, b), a.sort)


def t_div(a, b):
    a, b = t_real(a), t_real(b)
    if isk(b) and isk(a):
        return const(kval(a) / kval(b))
    if isk(b) and kval(b) == 1:
        return a
    return _mk('div', (a, b), R)


def t_idiv(a, b):
    """floor division for positive b"""
    if isk(a) and isk(b):
        return const(kval(a) // kval(b))
    return _mk('idiv', (a, b), I)


_ufs = {}


def t_uf(name, args):
    """uninterpreted real function (used to abstract sqrt/log)"""
    return _mk('uf', (name,) + tuple(t_real(a) for a in args), R)


def t_truthy(a):
    """python truth value of an arbitrary value"""
    return _mk('truthy', (a,), B)


_truthy = None


def usort():
    global USORT
    if USORT is None:
        USORT = z3.DeclareSort('Val')
    return USORT


def to_z3(t):
    if t.z is not None:
        return t.z
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Term) and a.z is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        x.z = _conv(x)
    return t.z


def _conv(t):
    op = t.op
    if op == 'k':
        v = t.args[0]
        if t.sort == B:
            return z3.BoolVal(v)
        if t.sort == I:
            return z3.IntVal(v)
        return z3.RealVal(v)
    if op == 'v':
        n = t.args[0]
        if t.sort == B:
            return z3.Bool(n)
        if t.sort == I:
            return z3.Int(n)
        if t.sort == R:
            return z3.Real(n)
        return z3.Const(n, usort())
    if op == 'uf':
        n = t.args[0]
        zs = [a.z for a in t.args[1:]]
        f = _ufs.get((n, len(zs)))
        if f is None:
            f = z3.Function(n, *([z3.RealSort()] * (len(zs) + 1)))
            _ufs[(n, len(zs))] = f
        return f(*zs)
    zs = [a.z for a in t.args]
    if op == 'truthy':
        global _truthy
        if _truthy is None:
            _truthy = z3.Function('truthy', usort(), z3.BoolSort())
        return _truthy(zs[0])
    if op == 'not':
        return z3.Not(zs[0])
    if op == 'and':
        return z3.And(zs)
    if op == 'or':
        return z3.Or(zs)
    if op == 'ite':
        return z3.If(*zs)
    if op == 'eq':
        return zs[0] == zs[1]
    if op == 'lt':
        return zs[0] < zs[1]
    if op == 'add':
        return zs[0] + zs[1]
    if op == 'sub':
        return zs[0] - zs[1]
    if op == 'neg':
        return -zs[0]
    if op == 'mul':
        return zs[0] * zs[1]
    if op == 'div':
        return zs[0] / zs[1]
    if op == 'idiv':
        return zs[0] / zs[1]
    if op == 'toreal':
        return z3.ToReal(zs[0])
    raise AssertionError(op)
