"""L#: exact learning"""
from engine.runner import Config
from engine.models import *

PROPERTY = 'P03'
QUICK_BUDGET = 400
EXT = [None, 'SepSeq', 'ADS']
SEP = ['SepSeq', 'ADS']
OUTSIDE = ('systems with more states or inputs than listed per configuration, counterexamples longer than listed, '
           'max_learning_rounds')
ASSUMPTIONS = ['the equivalence oracle is exact (modelled: it returns a word on whose last input system and hypothesis '
               'differ, or None when the solver proves there is none)',
               'outputs are arbitrary values that support equality only (for DFA: Booleans)',
               'termination is checked as: at most 4 n^2 equivalence queries']


def h_lsharp(env, kind, n, na, ext, sep, style, cache='choose', maxlen=None, pad=1, family=None):
    from aalpy.learning_algs import run_Lsharp
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    sul = MachineSUL(m)
    if cache == 'choose':
        cache = not env.choose(2, 'cache')
    orc = ExactOracle(A, sul, m, style, maxlen, pad)
    h, info = run_Lsharp(list(A), sul, orc, kind, extension_rule=ext, separation_rule=sep,
                         cache_and_non_det_check=cache, return_data=True, print_level=0)
    assert_wellformed(env, h, A)
    assert_equivalent(env, m, h)
    env.cover(f'size{len(h.states)}')
    if orc.cexs:
        env.cover('cex')


def cfg(kind, n, na, ext, sep, style, **kw):
    name = f'{kind}-n{n}a{na}-{ext}-{sep}-{style}' + ''.join(f'-{k}{v}' for k, v in kw.items())
    return Config(name, h_lsharp, dict(kind=kind, n=n, na=na, ext=ext, sep=sep, style=style, **kw),
                  covers=[f'size{n}'] + (['cex'] if n > 2 else []))


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-None-ADS-shortest', 'dfa-n2a2-SepSeq-SepSeq-shortest', 'moore-n2a2-ADS-ADS-shortest']


def configs(tier):
    out = []
    for kind in ('mealy', 'dfa', 'moore'):
        for ext in EXT:
            for sep in SEP:
                out.append(cfg(kind, 2, 2, ext, sep, 'shortest'))
                if tier == 'quick':
                    out.append(cfg(kind, 4, 1, ext, sep, 'any', maxlen=5, cache=True))
    for ext in EXT:
        for sep in SEP:
            out.append(cfg('dfa', 3, 2, ext, sep, 'long', pad=1, cache=sep == 'ADS'))
    out.append(cfg('mealy', 3, 2, 'SepSeq', 'ADS', 'shortest', cache=True))
    out.append(cfg('dfa', 4, 2, 'SepSeq', 'ADS', 'shortest', family='lock', cache=True))
    out.append(cfg('dfa', 4, 2, 'ADS', 'SepSeq', 'shortest', family='lock', cache=False))
    for f in SHAPES:
        for ext in EXT:
            for sep in SEP:
                for st, pad in (('shortest', 1), ('long', 2)):
                    out.append(cfg('dfa', 4, 2, ext, sep, st, family=f, pad=pad, cache=True))
                if tier == 'thorough':
                    out.append(cfg('mealy', 4, 2, ext, sep, 'shortest', family=f, cache=True))
                    out.append(cfg('dfa', 4, 2, ext, sep, 'long', family=f, pad=4, cache=True))
    if tier == 'thorough':
        for ext in EXT:
            for sep in SEP:
                for kind in ('mealy', 'dfa', 'moore'):
                    out.append(cfg(kind, 4, 1, ext, sep, 'any', maxlen=6))
                    out.append(cfg(kind, 2, 3, ext, sep, 'shortest', cache=True))
                    out.append(cfg(kind, 3, 2, ext, sep, 'shortest', cache=True))
                    out.append(cfg(kind, 4, 2, ext, sep, 'shortest', family='lock', cache=True))
                out.append(cfg('dfa', 3, 2, ext, sep, 'any', maxlen=4, cache=True))
                out.append(cfg('dfa', 6, 1, ext, sep, 'any', maxlen=8, cache=True))
                out.append(cfg('dfa', 5, 2, ext, sep, 'shortest', family='lock', cache=True))
        out.append(cfg('dfa', 4, 2, 'SepSeq', 'ADS', 'shortest', cache=True))
    return out
