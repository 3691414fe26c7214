"""distinguishing sequences, characterization sets, minimality test"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P11'
OUTSIDE = 'larger automata, automata that are not input complete, other initial sets'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only (for DFA: Booleans)',
               'initial sets contain tuples']
SH = [x for x in STRUCTURES if not x.startswith(('part', 't2', 'chain', 'ring'))]
INITS = {'none': None, 'a': [('a',)], 'al': [('a',), ('b',)], 'ab': [('a', 'a')], 'eps': [(), ('a',)]}


def separates(m, s, t, w):
    if not w:
        return False if type(m).__name__ == 'MealyMachine' else Not(Eq(state_out(m, s), state_out(m, t)))
    o1, o2 = run(m, s, w), run(m, t, w)
    return Not(Eq(o1, o2))


def run(m, s, w):
    mealy = type(m).__name__ == 'MealyMachine'
    outs = []
    for a in w:
        if mealy:
            outs.append(s.output_fun[a])
        s = s.transitions[a]
        if not mealy:
            outs.append(state_out(m, s))
    return outs


def h_dist(env, kind, n, na, shape=None):
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A, initial=0, structure=STRUCTURES.get(shape))
    m.current_state = m.states[n - 1]
    i = env.choose(n, 'i')
    j = env.choose(n, 'j')
    s, t = m.states[i], m.states[j]
    seq = m.find_distinguishing_seq(s, t, A)
    env.check(m.current_state is m.states[n - 1], 'the machine was moved')
    if seq is None:
        env.cover('none')
        # no input sequence tells the states apart; shortest differing words are shorter than n + 1
        env.check(state_equiv(m, s, t, A, n), 'no sequence found for distinguishable states')
    else:
        env.cover(f'len{len(seq)}')
        seq = tuple(seq)
        env.check(separates(m, s, t, seq), 'returned sequence does not distinguish the states')
        for w in words(A, 0, len(seq) - 1):
            env.check(Not(separates(m, s, t, w)), 'returned sequence is not the shortest')


def h_char(env, kind, n, na, init, closure, split, shape=None):
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A, initial=0, structure=STRUCTURES.get(shape))
    order = list(m.states)
    given = INITS[init]
    mine = list(given) if given is not None else None
    res = m.compute_characterization_set(mine, online_suffix_closure=closure, split_all_blocks=split, raise_warning=False)
    env.check(mine == given, 'the initial set was modified')
    env.check(all(x is y for x, y in zip(order, m.states)) and len(order) == n, 'the states were changed')
    pairs = [(order[a], order[b]) for a in range(n) for b in range(a)]
    if res is None:
        env.cover('none')
        env.check(Or([state_equiv(m, s, t, A, n) for s, t in pairs]), 'no characterization set for a minimal automaton')
    else:
        env.cover('set')
        env.check(len(set(res)) == len(res), 'duplicates in the characterization set')
        env.check(And([Or([separates(m, s, t, w) for w in res]) for s, t in pairs]), 'the set does not separate all states')
        if closure:
            base = set(mine or [])
            for w in res:
                if w not in base:
                    env.check(all(w[k:] in res for k in range(1, len(w))), 'the set is not suffix closed')
        for w in mine or []:
            env.check(w in res, 'an initial sequence got lost')
    env.check(m.is_minimal() == (res is not None), 'minimality test disagrees')
    pair = m.compute_characterization_set(return_same_states=True)
    env.check(isinstance(pair, tuple) and len(pair) == 2, 'not a pair of states')
    if res is None:
        env.check(pair[0] is not None and pair[1] is not None and pair[0] is not pair[1], 'no pair of equivalent states returned')
        env.check(state_equiv(m, pair[0], pair[1], A, n), 'the returned states are not equivalent')
    else:
        env.check(pair == (None, None), 'equivalent states reported in a minimal automaton')


def h_incomplete(env, kind, n, na):
    A = ['a', 'b'][:na]
    m = sym_automaton(env, kind, n, A, initial=0, lazy=False, partial=True)
    al = set().union(*[set(s.transitions) for s in m.states])
    if all(set(s.transitions) == al for s in m.states):
        return
    env.check(m.is_minimal() is False, 'incomplete automaton reported minimal')


# these also with the letters 0, 1, ...
ZERO = ['dist-mealy-n2a2', 'dist-moore-n2a2', 'char-mealy-al-c1s1-n2a2']


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('mealy', 'moore', 'dfa'):
        out.append(Config(f'dist-{kind}-n2a2', h_dist, dict(kind=kind, n=2, na=2), covers=['none', 'len1' if kind == 'mealy' else 'len0']))
        out.append(Config(f'dist-{kind}-n3a1', h_dist, dict(kind=kind, n=3, na=1), covers=['none', 'len1', 'len2' if kind == 'mealy' else 'none']))
        out.append(Config(f'dist-{kind}-n3a2', h_dist, dict(kind=kind, n=3, na=2), covers=['none', 'len1']))
        if T:
            out.append(Config(f'dist-{kind}-n4a1', h_dist, dict(kind=kind, n=4, na=1)))
            out.append(Config(f'dist-{kind}-n5a1', h_dist, dict(kind=kind, n=5, na=1)))
            out.append(Config(f'dist-{kind}-n4a2', h_dist, dict(kind=kind, n=4, na=2)))
        for sh in SH:
            k = len(STRUCTURES[sh])
            if k == 4 or kind == 'dfa' or T:
                out.append(Config(f'dist-{kind}-{sh}', h_dist, dict(kind=kind, n=k, na=2, shape=sh)))
        for init in INITS:
            for closure in (True, False):
                for split in (True, False):
                    for sh in SH:
                        k = len(STRUCTURES[sh])
                        if T or init in ('none', 'a') and (k == 4 and (kind == 'dfa' or sh in ('loops', 'pairs', 'funnel') and init == 'none')):
                            out.append(Config(f'char-{kind}-{init}-c{int(closure)}s{int(split)}-{sh}', h_char,
                                              dict(kind=kind, n=k, na=2, init=init, closure=closure, split=split, shape=sh)))
                    c = f'{kind}-{init}-c{int(closure)}s{int(split)}'
                    if init != 'al':
                        out.append(Config(f'char-{c}-n3a1', h_char, dict(kind=kind, n=3, na=1, init=init, closure=closure, split=split),
                                          covers=['none', 'set']))
                    if T or init == 'al' or kind == 'dfa':
                        out.append(Config(f'char-{c}-n2a2', h_char, dict(kind=kind, n=2, na=2, init=init, closure=closure, split=split)))
                    if T or (kind == 'mealy' and init == 'none'):
                        out.append(Config(f'char-{c}-n3a2', h_char, dict(kind=kind, n=3, na=2, init=init, closure=closure, split=split)))
                    if T and init in ('none', 'a'):
                        out.append(Config(f'char-{c}-n4a1', h_char, dict(kind=kind, n=4, na=1, init=init, closure=closure, split=split)))
        out.append(Config(f'incomplete-{kind}', h_incomplete, dict(kind=kind, n=2, na=2)))
    return out
