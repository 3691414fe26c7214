"""L*: exact learning"""
from engine.runner import Config
from engine.models import *

PROPERTY = 'P01'
QUICK_BUDGET = 400
CEX = [None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
CLOSE = ['shortest_first', 'longest_first', 'single']
OUTSIDE = ('systems with more states or inputs than listed per configuration, counterexamples longer than listed, '
           'max_learning_rounds')
ASSUMPTIONS = ['the equivalence oracle is exact (modelled: it returns a word on whose last input system and hypothesis '
               'differ, or None when the solver proves there is none)',
               'outputs are arbitrary values that support equality only (for DFA: Booleans)']


def h_lstar(env, kind, n, na, cexp, style, closing='choose', closed='choose', prefix_in='choose', cache='choose',
            maxlen=None, pad=1, family=None):
    from aalpy.learning_algs import run_Lstar
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    sul = MachineSUL(m)
    if closing == 'choose':
        closing = env.choose(CLOSE, 'closing')
    if closed == 'choose':
        closed = bool(env.choose(2, 'closed'))
    if prefix_in == 'choose':
        prefix_in = bool(env.choose(2, 'prefix_in'))
    if cache == 'choose':
        cache = not env.choose(2, 'cache')
    orc = ExactOracle(A, sul, m, style, maxlen, pad, as_list=cexp is None, limit=n)
    h, info = run_Lstar(list(A), sul, orc, kind, closing_strategy=closing, cex_processing=cexp,
                        e_set_suffix_closed=closed, all_prefixes_in_obs_table=prefix_in,
                        cache_and_non_det_check=cache, return_data=True, print_level=0)
    assert_wellformed(env, h, A)
    assert_equivalent(env, m, h)
    env.cover(f'size{len(h.states)}')
    if orc.cexs:
        env.cover('cex')


def cfg(kind, n, na, cexp, style, need_cex=None, **kw):
    name = f'{kind}-n{n}a{na}-{cexp}-{style}' + ''.join(f'-{v}' for v in kw.values())
    if need_cex is None:
        need_cex = n > 2
    return Config(name, h_lstar, dict(kind=kind, n=n, na=na, cexp=cexp, style=style, **kw),
                  covers=[f'size{n}'] + (['cex'] if need_cex else []))


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-rs-shortest-True', 'dfa-n2a2-longest_prefix-shortest-True', 'moore-n2a2-None-shortest-True']


def configs(tier):
    out = []
    D = dict(closing='shortest_first', closed=False, prefix_in=True, cache=True)
    for kind in ('mealy', 'dfa', 'moore'):
        for c in CEX:
            out.append(cfg(kind, 2, 2, c, 'shortest', cache=True))
            if tier == 'quick':
                out.append(cfg(kind, 4, 1, c, 'any', maxlen=5, **dict(D, closed='choose')))
    for c in CEX:
        out.append(cfg('dfa', 3, 2, c, 'long', pad=1, **D))
    out.append(cfg('mealy', 3, 2, 'rs', 'shortest', **D))
    out.append(cfg('dfa', 4, 2, 'rs', 'shortest', family='lock', **D))
    out.append(cfg('dfa', 4, 2, 'exponential_fwd', 'shortest', family='lock', **dict(D, prefix_in=False)))
    # several refinements per counterexample
    for f in SHAPES:
        for c in CEX:
            for st, pad in (('shortest', 1), ('long', 2)):
                out.append(cfg('dfa', 4, 2, c, st, family=f, pad=pad, **dict(D, closed='choose')))
            if tier == 'thorough':
                out.append(cfg('mealy', 4, 2, c, 'shortest', family=f, **dict(D, closed='choose')))
                out.append(cfg('dfa', 4, 2, c, 'long', family=f, pad=4, **dict(D, closed='choose')))
    if tier == 'thorough':
        for kind in ('mealy', 'dfa', 'moore'):
            for c in CEX:
                out.append(cfg(kind, 2, 2, c, 'shortest', cache=False))
                out.append(cfg(kind, 4, 1, c, 'any', maxlen=6))
                out.append(cfg(kind, 2, 3, c, 'shortest', cache=True))
                out.append(cfg(kind, 4, 2, c, 'shortest', family='lock', **dict(D, closing='choose')))
        out.append(cfg('dfa', 3, 2, 'rs', 'any', maxlen=4, **D))
        out.append(cfg('dfa', 6, 1, 'rs', 'any', maxlen=8, **D))
        out.append(cfg('dfa', 5, 2, 'rs', 'shortest', family='lock', **D))
        for c in CEX:
            for cl in CLOSE:
                out.append(cfg('dfa', 3, 2, c, 'shortest', **dict(D, closing=cl, closed='choose', prefix_in='choose')))
                out.append(cfg('mealy', 3, 2, c, 'shortest', **dict(D, closing=cl)))
                out.append(cfg('moore', 3, 2, c, 'shortest', **dict(D, closing=cl)))
        out.append(cfg('dfa', 4, 2, 'rs', 'shortest', **D))
    return out
