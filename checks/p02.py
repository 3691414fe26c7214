"""KV: exact learning"""
from engine.runner import Config
from engine.models import *

PROPERTY = 'P02'
QUICK_BUDGET = 400
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
OUTSIDE = ('systems with more states or inputs than listed per configuration, counterexamples longer than listed, '
           'max_learning_rounds; visibly pushdown systems (P32)')
ASSUMPTIONS = ['the equivalence oracle is exact (modelled: it returns a word on whose last input system and hypothesis '
               'differ, or None when the solver proves there is none)',
               'outputs are arbitrary values that support equality only (for DFA: Booleans)']


def h_kv(env, kind, n, na, cexp, style, cache='choose', maxlen=None, pad=1, family=None):
    from aalpy.learning_algs import run_KV
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    sul = MachineSUL(m)
    if cache == 'choose':
        cache = not env.choose(2, 'cache')
    orc = ExactOracle(A, sul, m, style, maxlen, pad, as_list=bool(len(cexp) % 2), limit=n)
    h, info = run_KV(list(A), sul, orc, kind, cex_processing=cexp, cache_and_non_det_check=cache,
                     return_data=True, print_level=0)
    assert_wellformed(env, h, A)
    assert_equivalent(env, m, h)
    env.cover(f'size{len(h.states)}')
    if orc.cexs:
        env.cover('cex')


def cfg(kind, n, na, cexp, style, **kw):
    name = f'{kind}-n{n}a{na}-{cexp}-{style}' + ''.join(f'-{k}{v}' for k, v in kw.items())
    return Config(name, h_kv, dict(kind=kind, n=n, na=na, cexp=cexp, style=style, **kw),
                  covers=[f'size{n}', 'cex'])


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-rs-shortest', 'dfa-n2a2-linear_bwd-shortest']


def configs(tier):
    out = []
    for kind in ('mealy', 'dfa', 'moore'):
        for c in CEX:
            out.append(cfg(kind, 2, 2, c, 'shortest'))
            if tier == 'quick':
                out.append(cfg(kind, 4, 1, c, 'any', maxlen=6, cache=True))
    for c in CEX:
        out.append(cfg('dfa', 3, 2, c, 'long', pad=1, cache=c != 'rs'))
    out.append(cfg('mealy', 3, 2, 'rs', 'shortest', cache=True))
    out.append(cfg('dfa', 4, 2, 'rs', 'shortest', family='lock', cache=True))
    out.append(cfg('dfa', 4, 2, 'exponential_bwd', 'shortest', family='lock', cache=False))
    for f in SHAPES:
        for c in CEX:
            for st, pad in (('shortest', 1), ('long', 2)):
                out.append(cfg('dfa', 4, 2, c, st, family=f, pad=pad, cache=True))
            if tier == 'thorough':
                out.append(cfg('mealy', 4, 2, c, 'shortest', family=f, cache=True))
                out.append(cfg('dfa', 4, 2, c, 'long', family=f, pad=4, cache=True))
    if tier == 'thorough':
        for kind in ('mealy', 'dfa', 'moore'):
            for c in CEX:
                out.append(cfg(kind, 4, 1, c, 'any', maxlen=6))
                out.append(cfg(kind, 2, 3, c, 'shortest', cache=True))
                out.append(cfg(kind, 3, 2, c, 'shortest', cache=True))
                out.append(cfg(kind, 4, 2, c, 'shortest', family='lock', cache=True))
        for c in CEX:
            out.append(cfg('dfa', 3, 2, c, 'any', maxlen=4, cache=True))
            out.append(cfg('dfa', 6, 1, c, 'any', maxlen=8, cache=True))
            out.append(cfg('dfa', 5, 2, c, 'shortest', family='lock', cache=True))
        out.append(cfg('dfa', 4, 2, 'rs', 'shortest', cache=True))
    return out
