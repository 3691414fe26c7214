"""W-method and Wp-method find every fault within their state bound"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq, truth
from engine.stubs import random_stubbed
from checks.p19 import hypo

PROPERTY = 'P20'
OUTSIDE = 'larger hypotheses, systems and bounds; more than two hypotheses in a row'
ASSUMPTIONS = ['hypotheses are minimal, input complete, know the access sequences of their states and have at most the configured number of '
               'states; state-output machines agree with the system on the empty word (the learners ask it first)',
               'outputs are arbitrary values that support equality only (for DFA: Booleans)']

SHAPED = ['s1', 's2', 's3', 's4', 's5', 'r5', 'u5']


def perturbed(shape, extra=False):
    """transition structure like the given one, with two arbitrary transitions and possibly one more state"""
    f = [list(r) for r in STRUCTURES[shape]]
    n = len(f)
    f[n - 1][1] = f[n - 2][0] = None
    if extra:
        f[n - 2][0] = STRUCTURES[shape][n - 2][0]
        f.append(list(STRUCTURES[shape][1]))
    return f


def split(shape, src, letter, free=1):
    """systems of the given structure with one more state: a copy of the target of one transition, reached by that transition, with one
    arbitrary transition"""
    f = [list(r) for r in shape]
    row = list(f[f[src][letter]])
    row[free] = None
    f[src][letter] = len(f)
    return f + [row]


T3 = {'a': [[1, 0], [2, 0], [0, 2]], 'b': [[1, 2], [0, 1], [2, 0]], 'c': [[0, 1], [1, 2], [2, 0]]}


def h_split(env, kind, method, shape, na=2):
    f = split(T3[shape], env.choose(3, 'split source'), env.choose(2, 'split letter'), env.choose(2, 'free letter'))
    h_complete(env, kind, method, [3], 4, 4, na, shapes=[T3[shape]], system=f)


def h_complete(env, kind, method, sizes, ns, bound, na, order=False, shapes=None, system=None):
    from aalpy.oracles import WMethodEqOracle, WpMethodEqOracle
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, ns, A, 's', family=system)
    sul = MachineSUL(m)
    orc = {'w': WMethodEqOracle, 'wp': WpMethodEqOracle}[method](A, sul, bound)
    with random_stubbed(shuffle='id'):
        for c, n in enumerate(sizes):
            h, t = hypo(env, kind, n, A, f'h{c}', minimal=True, shape=shapes and shapes[c])
            if order and n > 1:
                h.states = h.states[::-1] if env.choose(2, 'order') else h.states
            if kind != 'mealy':
                env.assume(Not(differs(m, h, ())))
            cex = orc.find_cex(h)
            if cex is None:
                env.cover(f'none{c}')
                assert_equivalent(env, m, h, 'no counterexample although hypothesis and system differ')
            else:
                env.cover(f'cex{c}')
                env.check(differs(m, h, tuple(cex)), 'counterexample is not genuine')


def h_learn(env, kind, method, n, na, learner):
    """a learner with this oracle and a sufficient bound returns the exact model"""
    from aalpy.oracles import WMethodEqOracle, WpMethodEqOracle
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, 's')
    sul = MachineSUL(m)
    orc = {'w': WMethodEqOracle, 'wp': WpMethodEqOracle}[method](A, sul, n)
    if learner == 'lstar':
        h = run_Lstar(A, sul, orc, kind, print_level=0)
    elif learner == 'kv':
        h = run_KV(A, sul, orc, kind, print_level=0)
    else:
        h = run_Lsharp(A, sul, orc, kind, print_level=0)
    assert_equivalent(env, m, h)


# these also with the letters 0, 1, ...
ZERO = ['w-mealy-h1m2', 'wp-dfa-h2m2']


def configs(tier):
    T = tier == 'thorough'
    out = []
    for meth in ('w', 'wp'):
        for kind in ('mealy', 'moore', 'dfa'):
            def add(name, cov=('none0', 'cex0'), **kw):
                out.append(Config(f'{meth}-{kind}-{name}', h_complete, dict(kind=kind, method=meth, **kw), covers=cov))
            add('h1m1', cov=['none0'], sizes=[1], ns=1, bound=1, na=2)
            add('h1m2', sizes=[1], ns=2, bound=2, na=2)
            add('h2m2', sizes=[2], ns=2, bound=2, na=2, order=True)
            add('h2m3a1', sizes=[2], ns=3, bound=3, na=1)
            add('h3m3a1', sizes=[3], ns=3, bound=3, na=1, order=True)
            add('h1m3a1', sizes=[1], ns=3, bound=3, na=1)
            add('h12m2', sizes=[1, 2], ns=2, bound=2, na=1 if not T else 2)
            add('h23m3a1', sizes=[2, 3], ns=3, bound=3, na=1)
            add('h22m2', sizes=[2, 2], ns=2, bound=2, na=1)
            for sh in SHAPED:
                k = len(STRUCTURES[sh])
                if k == 4 or kind != 'mealy' or T:
                    add(sh, sizes=[k], ns=k, bound=k, na=2, shapes=[sh], system=perturbed(sh))
                if k == 4:
                    add(f'{sh}-extra', sizes=[k], ns=k + 1, bound=k + 1, na=2, shapes=[sh], system=perturbed(sh, True))
            for sh in T3:
                out.append(Config(f'{meth}-{kind}-split-{sh}', h_split, dict(kind=kind, method=meth, shape=sh), covers=['none0', 'cex0']))
            if T:
                add('h2m3', sizes=[2], ns=3, bound=3, na=2)
                add('h3m3', sizes=[3], ns=3, bound=3, na=2)
                add('h4m4a1', sizes=[4], ns=4, bound=4, na=1)
                add('h3m4a1', sizes=[3], ns=4, bound=4, na=1)
            elif kind != 'moore':
                pass
            for learner in ('lstar', 'kv', 'lsharp'):
                out.append(Config(f'{meth}-{kind}-{learner}', h_learn, dict(kind=kind, method=meth, n=2, na=2 if T or kind == 'dfa' else 1, learner=learner)))
                out.append(Config(f'{meth}-{kind}-{learner}-n3', h_learn, dict(kind=kind, method=meth, n=3, na=1, learner=learner)))
    return out
