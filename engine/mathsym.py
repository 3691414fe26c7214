"""Symbolic stand-ins for math.sqrt and float() while code under test runs on symbolic numbers.

sqrt(x) becomes a non-negative real r with r*r = x (one symbol per argument term), so the real formulas are
encoded exactly; log is only applied to concrete arguments and stays the float function.
"""
import builtins
import contextlib
import math
from fractions import Fraction
from . import sym
from . import terms as T
from .bootstrap import AALPY_MODULES

_sqrt, _log, _float = math.sqrt, math.log, builtins.float


def sqrt(x):
    env = sym.ENV
    if not isinstance(env, sym.SymEnv):
        return _sqrt(x)
    if not isinstance(x, sym.Sym):
        if x < 0:
            raise ValueError('math domain error')
        r = Fraction(_sqrt(x))
        return sym.SymReal(T.const(r)) if env.__dict__.get('exact_floats') else _sqrt(x)
    x = x if isinstance(x, sym.SymNum) else x + 0
    if env.branch(T.t_lt(x.e, T.const(0))):
        raise ValueError('math domain error')
    memo = env.__dict__.setdefault('sqrt_memo', {})
    r = memo.get(x.e)
    if r is None:
        r = memo[x.e] = env.real(f'sqrt{len(memo)}', 0)
        env.assume(sym.Eq(r * r, x))
        if env.branch(T.t_equal(x.e, T.const(0))):
            return 0.0
        env.assume(r > 0)
    return r


def log(x, *a):
    if isinstance(x, sym.Sym):
        raise NotImplementedError('symbolic logarithm')
    return _log(x, *a)


class Float(float):
    def __new__(cls, x=0.0):
        if isinstance(x, sym.Sym):
            if isinstance(x, sym.SymReal):
                return x
            return sym.SymReal(T.t_real(T.t_num(x.e)))
        return _float(x)


@contextlib.contextmanager
def symbolic_math():
    saved = []
    for n, orig, new in (('sqrt', _sqrt, sqrt), ('log', _log, log)):
        saved.append((math, n, orig))
        setattr(math, n, new)
        for mod in AALPY_MODULES.values():
            if vars(mod).get(n) is orig:
                saved.append((mod, n, orig))
                setattr(mod, n, new)
    added = []
    for mod in AALPY_MODULES.values():
        if 'float' not in vars(mod):
            mod.float = Float
            added.append(mod)
    try:
        yield
    finally:
        for mod, n, orig in saved:
            setattr(mod, n, orig)
        for mod in added:
            del mod.float
