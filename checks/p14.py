"""bisimilarity and model comparison"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq
from engine.stubs import random_stubbed

PROPERTY = 'P14'
OUTSIDE = 'larger automata; more than the listed number of free random draws in compare_automata (later draws take the first alternative)'
ASSUMPTIONS = ['for state-output machines that are not input complete (an input only one of them defines is a difference) the counterexample '
               'may be one letter longer than the shortest',
               'outputs are arbitrary values that support equality only (for DFA: Booleans)',
               'compare_automata: both models are input complete and all states are reachable']

SHAPE_PAIRS = [('s1', 's2'), ('tree5', 's3'), ('part4', 'part4'), ('funnel5', 'funnel5'), ('free4', 's4'), ('part5', 'part5')]


def fix(t):
    """tables of a partial automaton as words: outputs, or None where undefined"""
    return t


def first_diff(env, t1, t2, mealy, A, depth):
    """reference: list of (word, condition that the two differ on it for the first time)"""
    out = []

    def state_diff(p, q):
        return False if mealy else Not(Eq(t1.out[p], t2.out[q]))
    layer = [((), t1.init, t2.init)]
    out.append(((), state_diff(t1.init, t2.init)))
    for _ in range(depth):
        nxt = []
        for w, p, q in layer:
            for a in A:
                d1, d2 = a in t1.delta[p], a in t2.delta[q]
                if not d1 and not d2:
                    continue
                if d1 != d2:
                    out.append((w + (a,), True))
                    continue
                p2, q2 = t1.delta[p][a], t2.delta[q][a]
                out.append((w + (a,), Not(Eq(t1.out[p][a], t2.out[q][a])) if mealy else state_diff(p2, q2)))
                nxt.append((w + (a,), p2, q2))
        layer = nxt
    return out


def h_bisim(env, kind, n1, n2, na, partial, shapes=(None, None)):
    from aalpy.utils import bisimilar
    A = ['a', 'b', 'c'][:na]
    x = sym_automaton(env, kind, n1, A, 'x', lazy=not partial, partial=partial, initial='choose' if partial and not shapes[0] else 0, structure=STRUCTURES.get(shapes[0]))
    y = sym_automaton(env, kind, n2, A, 'y', lazy=not partial, partial=partial, initial=0, structure=STRUCTURES.get(shapes[1]))
    cex = bisimilar(x, y, return_cex=True)
    res = bisimilar(x, y)
    rev = bisimilar(y, x)
    eq = x == y
    t1, t2 = snapshot(x), snapshot(y)
    mealy = kind == 'mealy'
    depth = n1 + n2 - 1
    diffs = first_diff(env, t1, t2, mealy, A, depth)
    same = cex is None
    env.check(res is same and rev is same and eq is same, 'the answers of bisimilar disagree with each other')
    if same:
        env.cover('same')
        env.check(Not(Or([d for w, d in diffs])), 'different automata reported bisimilar')
    else:
        env.cover('different')
        w = tuple(cex)
        env.check(Or([d for v, d in diffs if v == w]), 'the counterexample is not one')
        # an input only one of two state-output machines defines is noticed before the outputs of states found at the same time
        slack = 1 if partial and not mealy else 0
        env.check(Not(Or([d for v, d in diffs if len(v) < len(w) - slack])), 'the counterexample is not the shortest')


def h_self(env, kind, n, na):
    from aalpy.utils import bisimilar
    m = sym_automaton(env, kind, n, ['a', 'b'][:na], 'x', lazy=False)
    env.check(bisimilar(m, m) is True and bisimilar(m, m, return_cex=True) is None, 'an automaton differs from itself')
    env.check(m == m and m == m.copy(), 'an automaton differs from its copy')


def h_compare(env, kind, n1, n2, na, num, budget):
    from aalpy.utils import compare_automata
    A = ['a', 'b', 'c'][:na]
    x = sym_automaton(env, kind, n1, A, 'x', lazy=False, initial=0)
    y = sym_automaton(env, kind, n2, A, 'y', lazy=False, initial=0)
    t1, t2 = snapshot(x), snapshot(y)
    if len(t1.reach()) < n1 or len(t2.reach()) < n2:
        return
    with random_stubbed(shuffle='id', budget=budget):
        res = compare_automata(x, y, num_cex=num)
    env.check(len({tuple(c) for c in res}) == len(res), 'duplicate counterexamples')
    env.check(len(res) <= num, 'too many counterexamples')
    env.check([len(c) for c in res] == sorted(len(c) for c in res), 'counterexamples are not sorted by length')
    env.cover('cex' if res else 'none')
    for c in res:
        o1, o2 = t1.run(t1.init, c)[1], t2.run(t2.init, c)[1]
        env.check(Not(Eq(o1, o2)), 'a returned counterexample is not one')
    for t, h in ((t1, x), (t2, y)):
        t3 = snapshot(h)
        env.check(t.delta == t3.delta and t.init == t3.init, 'comparison changes an automaton')


# these also with the letters 0, 1, ...
ZERO = ['mealy-2x2a2', 'compare-dfa-1x2a2', 'moore-partial-2x1a2']


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('mealy', 'moore', 'dfa'):
        cov = ['same', 'different']
        out.append(Config(f'{kind}-2x2a2', h_bisim, dict(kind=kind, n1=2, n2=2, na=2, partial=False), covers=cov))
        out.append(Config(f'{kind}-3x3a1', h_bisim, dict(kind=kind, n1=3, n2=3, na=1, partial=False), covers=cov))
        out.append(Config(f'{kind}-3x1a2', h_bisim, dict(kind=kind, n1=3, n2=1, na=2, partial=False), covers=cov))
        out.append(Config(f'{kind}-partial-2x2a1', h_bisim, dict(kind=kind, n1=2, n2=2, na=1, partial=True), covers=cov))
        out.append(Config(f'{kind}-partial-2x1a2', h_bisim, dict(kind=kind, n1=2, n2=1, na=2, partial=True), covers=cov))
        out.append(Config(f'{kind}-self', h_self, dict(kind=kind, n=2, na=2)))
        out.append(Config(f'compare-{kind}-2x2a1', h_compare, dict(kind=kind, n1=2, n2=2, na=1, num=2, budget=2), covers=['cex', 'none']))
        out.append(Config(f'compare-{kind}-1x2a2', h_compare, dict(kind=kind, n1=1, n2=2, na=2, num=2, budget=3), covers=['cex', 'none']))
        for sh in SHAPE_PAIRS[:6 if T else 4]:
            out.append(Config(f'{kind}-{sh[0]}-{sh[1]}', h_bisim, dict(kind=kind, n1=len(STRUCTURES[sh[0]]), n2=len(STRUCTURES[sh[1]]), na=2, shapes=sh, partial='part' in sh[0])))
        if T:
            out.append(Config(f'{kind}-3x3a2', h_bisim, dict(kind=kind, n1=3, n2=3, na=2, partial=False), covers=cov))
            out.append(Config(f'{kind}-4x4a1', h_bisim, dict(kind=kind, n1=4, n2=4, na=1, partial=False), covers=cov))
            out.append(Config(f'{kind}-partial-2x2a2', h_bisim, dict(kind=kind, n1=2, n2=2, na=2, partial=True), covers=cov))
            out.append(Config(f'compare-{kind}-2x2a2', h_compare, dict(kind=kind, n1=2, n2=2, na=2, num=3, budget=6), covers=['cex', 'none']))
    return out
