"""minimization"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P12'
OUTSIDE = 'larger automata'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only (for DFA: Booleans)']


def h_min(env, kind, n, na, prefixes, shape=None, initial='choose'):
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A, lazy=False, structure=STRUCTURES.get(shape), initial=initial)
    old = snapshot(m)
    if prefixes:
        m.compute_prefixes()
    if env.choose(2, 'moved'):
        m.current_state = m.states[-1]
    orig = {id(s) for s in m.states}
    r = m.minimize()
    sts = m.states
    ids = {id(s) for s in sts}
    env.check(len(ids) == len(sts), 'a state is listed twice')
    env.check(id(m.initial_state) in ids, 'the initial state is not a state of the minimized machine')
    for s in sts:
        env.check(set(s.transitions) == set(A), 'transitions got lost')
        env.check(all(id(t) in ids for t in s.transitions.values()), 'a transition leaves the minimized machine')
    new = snapshot(m)
    env.check(old.equiv(old.init, new.init, new), 'minimization changes the behaviour')
    k = len(sts)
    env.cover(f'size{k}')
    env.check(And([Not(new.equiv(i, j)) for i in range(k) for j in range(i)]), 'equivalent states are left')
    for i in new.reach():
        p = sts[i].prefix
        env.check(p is not None and new.run(new.init, p)[0] == i, 'a reachable state has no valid access sequence')
    m.reset_to_initial()
    for w in words(A, 1, 2):
        env.check(SeqEq(m.execute_sequence(m.initial_state, w), old.run(old.init, w)[1]), 'the minimized machine answers differently')


def h_incomplete(env, kind, n, na):
    A = ['a', 'b'][:na]
    m = sym_automaton(env, kind, n, A, lazy=False, partial=True)
    al = set().union(*[set(s.transitions) for s in m.states])
    if all(set(s.transitions) == al for s in m.states):
        return
    old = snapshot(m)
    m.minimize()
    new = snapshot(m)
    env.check(old.delta == new.delta and old.init == new.init, 'an incomplete automaton was changed')
    env.check(Eq([tuple(x.items()) if isinstance(x, dict) else x for x in old.out],
                 [tuple(x.items()) if isinstance(x, dict) else x for x in new.out]), 'an incomplete automaton was changed')


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-p0', 'moore-n2a2-p1']


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('mealy', 'moore', 'dfa'):
        for p in (False, True):
            out.append(Config(f'{kind}-n2a2-p{int(p)}', h_min, dict(kind=kind, n=2, na=2, prefixes=p), covers=['size1', 'size2']))
            out.append(Config(f'{kind}-n3a1-p{int(p)}', h_min, dict(kind=kind, n=3, na=1, prefixes=p), covers=['size1', 'size2', 'size3']))
            if T:
                out.append(Config(f'{kind}-n3a2-p{int(p)}', h_min, dict(kind=kind, n=3, na=2, prefixes=p)))
                out.append(Config(f'{kind}-n4a1-p{int(p)}', h_min, dict(kind=kind, n=4, na=1, prefixes=p)))
        for sh in (['loops', 'funnel', 'pairs', 'tree5', 'free4'] if not T else [x for x in STRUCTURES if not x.startswith(('part', 't2', 'chain', 'ring12'))]):
            out.append(Config(f'{kind}-{sh}', h_min, dict(kind=kind, n=len(STRUCTURES[sh]), na=2, prefixes=False, shape=sh, initial='choose' if T or kind == 'dfa' else 1)))
        out.append(Config(f'incomplete-{kind}', h_incomplete, dict(kind=kind, n=2, na=2)))
    if not T:
        out.append(Config('dfa-n3a2-p0', h_min, dict(kind='dfa', n=3, na=2, prefixes=False), covers=['size1', 'size2', 'size3']))
    return out
