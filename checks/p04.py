"""Adaptive L#: references never influence the result"""
from engine.runner import Config
from engine.models import *
from engine.models import SHAPES as SYSTEMS

PROPERTY = 'P04'
QUICK_BUDGET = 400
OUTSIDE = ('larger systems and references, more references, references that are not input complete over their own '
           'alphabet, max_learning_rounds')
ASSUMPTIONS = ['the equivalence oracle is exact',
               'outputs are arbitrary values that support equality only (for DFA: Booleans)',
               'termination is checked as: at most 4 n^2 equivalence queries']
MODES = [(True, None), (True, 'Total'), (True, 'Approximate'), (False, 'Total'), (False, 'Approximate')]

# reference shapes: list of (number of states, alphabet, initial)
SHAPES = {
    'none': [],
    'same2': [(2, 'ab', 0)],
    'same1': [(1, 'ab', 0)],
    'sub2': [(2, 'a', 0)],
    'overlap2': [(2, 'bc', 0)],
    'disjoint': [(1, 'c', 0)],
    'disjoint+same': [(1, 'c', 0), (2, 'ab', 0)],
    'same+disjoint+sub': [(1, 'ab', 0), (1, 'c', 0), (2, 'b', 0)],
    'two': [(1, 'a', 0), (2, 'b', 0)],
    'init2': [(2, 'ab', 1)],
    'sub3': [(3, 'a', 0)],
    'same3': [(3, 'ab', 0)],
}


def h_adaptive(env, kind, n, na, shape, ext='choose', sep='choose', mode='choose', cache=True, style='shortest',
               maxlen=None, structs=None, family=None):
    from aalpy.learning_algs import run_adaptive_Lsharp
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    sul = MachineSUL(m)
    ext = env.choose([None, 'SepSeq', 'ADS'], 'ext') if ext == 'choose' else ext
    sep = env.choose(['SepSeq', 'ADS'], 'sep') if sep == 'choose' else sep
    reb, match = env.choose(MODES, 'mode') if mode == 'choose' else mode
    refs = []
    for r, (k, al, i0) in enumerate(SHAPES[shape]):
        st = None
        if structs:
            st = env.choose(structs, f'st{r}')
            st = [[x % k for x in row[:len(al)]] for row in st[:k]]
        refs.append(sym_automaton(env, kind, k, list(al), f'r{r}', lazy=False, initial=i0, structure=st))
    given = list(refs)
    orc = ExactOracle(A, sul, m, style, maxlen)
    h, info = run_adaptive_Lsharp(list(A), sul, refs, orc, kind, extension_rule=ext, separation_rule=sep,
                                  rebuilding=reb, state_matching=match, cache_and_non_det_check=cache,
                                  return_data=True, print_level=0)
    assert_wellformed(env, h, A)
    assert_equivalent(env, m, h)
    env.cover(f'size{len(h.states)}')
    if info.get('rebuild_states', 0):
        env.cover('rebuilt')
    if info.get('matching_states', 0):
        env.cover('matched')


S3 = [[[1, 0], [2, 1], [0, 2]], [[1, 1], [1, 2], [2, 0]]]


def cfg(kind, n, na, shape, **kw):
    name = f'{kind}-n{n}a{na}-{shape}' + ''.join(f'-{k}{v}' for k, v in kw.items() if k != 'structs')
    return Config(name, h_adaptive, dict(kind=kind, n=n, na=na, shape=shape, **kw), covers=[f'size{n}'])


def configs(tier):
    out = []
    D = dict(ext=None, sep='SepSeq', structs=S3)
    if tier == 'quick':
        for sh in SHAPES:
            if sh not in ('same3', 'none'):
                for kind in ('dfa', 'moore'):
                    out.append(cfg(kind, 2, 2, sh, **dict(D, structs=S3[:1])))
        for sh in ('none', 'same1', 'sub2', 'disjoint+same'):
            out.append(cfg('mealy', 2, 2, sh, **dict(D, structs=S3[:1])))
        for ext, sep in ((None, 'ADS'), ('SepSeq', 'SepSeq'), ('ADS', 'ADS')):
            for sh in ('sub2', 'overlap2'):
                out.append(cfg('dfa', 2, 2, sh, structs=S3[:1], ext=ext, sep=sep, cache=False))
        out.append(cfg('dfa', 3, 2, 'sub2', structs=S3[:1], ext=None, sep='SepSeq', mode=(True, 'Approximate')))
        # larger systems
        for k, f in enumerate(SYSTEMS):
            for j, sh in enumerate(('sub2', 'same2', 'overlap2')):
                out.append(cfg('dfa', 4, 2, sh, structs=S3[:1], ext=[None, 'SepSeq', 'ADS'][(k + j) % 3], sep=['SepSeq', 'ADS'][k % 2], family=f))
        out.append(cfg('mealy', 2, 2, 'same2', structs=S3[:1], ext=None, sep='SepSeq', mode=(True, 'Total')))
    else:
        for kind in ('mealy', 'dfa', 'moore'):
            for sh in SHAPES:
                if sh != 'same3':
                    for ext in (None, 'SepSeq', 'ADS'):
                        for sep in ('SepSeq', 'ADS'):
                            out.append(cfg(kind, 2, 2, sh, ext=ext, sep=sep, structs=S3))
        for f in SYSTEMS:
            for sh in ('sub2', 'same2', 'overlap2', 'disjoint+same', 'sub3', 'same3'):
                for ext in (None, 'SepSeq', 'ADS'):
                    out.append(cfg('dfa', 4, 2, sh, structs=S3[:1], ext=ext, sep='SepSeq', family=f))
                out.append(cfg('moore', 4, 2, sh, structs=S3[:1], ext=None, sep='ADS', family=f, mode=(True, 'Approximate'))) if sh in ('sub2', 'same2') else None
        for mode in MODES:
            for sh in ('sub2', 'same2', 'overlap2', 'sub3', 'same3'):
                out.append(cfg('dfa', 3, 2, sh, structs=S3, ext=None, sep='SepSeq', mode=mode))
                out.append(cfg('dfa', 4, 1, sh, structs=S3, ext=None, sep='SepSeq', mode=mode, style='any', maxlen=6))
            out.append(cfg('mealy', 3, 2, 'sub2', structs=S3[:1], ext=None, sep='SepSeq', mode=mode))
            out.append(cfg('moore', 3, 2, 'sub2', structs=S3[:1], ext=None, sep='SepSeq', mode=mode))
    return out
