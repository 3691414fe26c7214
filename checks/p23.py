"""RPNI identifies the target from a characteristic sample"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not
from checks.p22 import agrees

PROPERTY = 'P23'
OUTSIDE = 'larger targets and alphabets; samples that are characteristic without containing all words up to a length'
ASSUMPTIONS = ['the data are all words up to length 2n-1 (n = number of states of the target), which is characteristic: access sequences and '
               'their extensions have length <= n and different states are told apart by a word of length <= n-1',
               'labels are arbitrary values that support equality only (DFA: Booleans)']


def h_target(env, kind, alg, n, na, order='given', family=None, extra=0):
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    L = 2 * n - 1 + extra
    W = list(words(A, 0 if kind != 'mealy' else 1, L))
    if order == 'reversed':
        W = W[::-1]
    elif order == 'long-first':
        W = sorted(W, key=lambda w: (-len(w), [-ord(c) for c in w][::-1]))
    data = [(w, m.output(w)) for w in W]
    from aalpy.learning_algs import run_RPNI, run_EDSM
    hs = []
    for a in (['gsm', 'classic'] if alg == 'both' else [alg]):
        if a == 'edsm':
            h = run_EDSM(list(data), kind, print_info=False)
        else:
            h = run_RPNI(list(data), kind, algorithm=a, print_info=False)
        if h is None:
            env.fail('a consistent sample is rejected')
        hs.append(h)
    env.cover('learned')
    for h in hs:
        if alg == 'edsm':
            agrees(env, h, kind, data)
            continue
        env.check(h.is_input_complete() and set(h.get_input_alphabet()) == set(A), 'the learned model is not input complete')
        env.check(h.size <= n, 'the learned model has more states than the target')
        if h.size > 1:
            env.cover('multi')
        assert_equivalent(env, m, h, 'the target is not identified')
    if len(hs) > 1:
        env.check(hs[0].size == hs[1].size, 'the two implementations return models of different size')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, **kw):
        out.append(Config(name, h_target, kw, covers=['learned'] + (['multi'] if kw.get('n', 2) > 1 else [])))
    for kind in ('dfa', 'moore', 'mealy'):
        add(f'{kind}-n1', kind=kind, alg='both', n=1, na=2)
        add(f'{kind}-n2', kind=kind, alg='both', n=2, na=2)
        add(f'{kind}-n2rev', kind=kind, alg='both', n=2, na=2, order='reversed')
        add(f'{kind}-n3a1', kind=kind, alg='both', n=3, na=1)
        add(f'{kind}-n3a1rev', kind=kind, alg='both', n=3, na=1, order='long-first')
        add(f'{kind}-n4a1', kind=kind, alg='both', n=4, na=1)
        for alg in ('gsm', 'classic'):
            add(f'{alg}-{kind}-n3lock', kind=kind, alg=alg, n=3, na=2, family='lock')
            if T or alg == 'gsm' or kind == 'dfa':
                add(f'{alg}-{kind}-n3rev', kind=kind, alg=alg, n=3, na=2, order='long-first', family='chain')
                add(f'{alg}-{kind}-n5a1', kind=kind, alg=alg, n=5, na=1)
                add(f'{alg}-{kind}-n2a3', kind=kind, alg=alg, n=2, na=3)
            if T or (alg == 'gsm' and kind == 'dfa'):
                add(f'{alg}-{kind}-n3', kind=kind, alg=alg, n=3, na=2)
            add(f'{alg}-{kind}-n2x1', kind=kind, alg=alg, n=2, na=2, extra=1)
            if T:
                add(f'{alg}-{kind}-n2x2', kind=kind, alg=alg, n=2, na=2, extra=2)
                if alg == 'gsm':
                    add(f'{alg}-{kind}-n4lock', kind=kind, alg=alg, n=4, na=2, family='lock')
                    add(f'{alg}-{kind}-n6a1', kind=kind, alg=alg, n=6, na=1)
        if T:
            add(f'edsm-{kind}-n2', kind=kind, alg='edsm', n=2, na=2)
            add(f'edsm-{kind}-n3lock', kind=kind, alg='edsm', n=3, na=2, family='lock')
    return out
