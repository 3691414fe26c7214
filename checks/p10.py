"""shortest paths, connectivity, prefixes"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P10'
OUTSIDE = 'larger automata'
ASSUMPTIONS = ['transition targets are arbitrary (also undefined); outputs do not matter for these functions and are arbitrary']


def h_paths(env, kind, n, na, ops, shape=None):
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A, lazy=False, partial=True, structure=STRUCTURES.get(shape))
    t = snapshot(m)
    m.current_state = m.states[n - 1]
    if 'path' in ops:
        for i in range(n):
            d = t.dist(i)
            for j in range(n):
                p = m.get_shortest_path(m.states[i], m.states[j])
                if j not in d:
                    env.check(p is None, 'path to an unreachable state')
                    env.cover('unreachable')
                    continue
                env.check(p is not None, 'no path to a reachable state')
                env.check(type(p) is tuple and t.defined(i, p) and t.run(i, p)[0] == j, 'the path does not lead to the target')
                env.check(len(p) == d[j], 'the path is not the shortest')
                env.cover(f'len{len(p)}')
        other = sym_automaton(env, kind, 1, A, 'x', structure=[[0] * na])
        env.check(m.get_shortest_path(m.states[0], other.states[0]) is None, 'path to a foreign state')
    if 'conn' in ops:
        sc = all(len(t.reach(i)) == n for i in range(n))
        env.check(m.is_strongly_connected() == sc, 'wrong verdict on strong connectivity')
        env.cover('connected' if sc else 'disconnected')
        ic = all(set(x) == set().union(*t.delta) for x in t.delta)
        env.check(m.is_input_complete() == ic, 'wrong verdict on input completeness')
        al = m.get_input_alphabet()
        env.check(len(al) == len(set(al)) and set(al) == set().union(*t.delta), 'wrong input alphabet')
        for i, s in enumerate(m.states):
            env.check(sorted(s.get_diff_state_transitions()) == sorted(a for a, x in t.delta[i].items() if x != i),
                      'wrong list of transitions to other states')
            env.check(sorted(s.get_same_state_transitions()) == sorted(a for a, x in t.delta[i].items() if x == i),
                      'wrong list of self loops')
    if 'prefix' in ops:
        m.compute_prefixes()
        d = t.dist(t.init)
        for j, s in enumerate(m.states):
            if j not in d:
                env.check(s.prefix is None, 'prefix of an unreachable state')
            else:
                p = s.prefix
                env.check(p is not None and t.defined(t.init, p) and t.run(t.init, p)[0] == j and len(p) == d[j],
                          'prefix is not a shortest access sequence')
    env.check(m.current_state is m.states[n - 1], 'the machine was moved')


def h_ids(env, n):
    """get_state_by_id: a state with that id, or nothing"""
    from aalpy.automata import Dfa, DfaState
    ids = [env.val(f'id{i}') for i in range(n)]
    m = Dfa(None, [DfaState(i) for i in ids])
    q = env.val('q')
    s = m.get_state_by_id(q)
    if s is None:
        env.check(And([Not(Eq(q, i)) for i in ids]), 'state not found by its id')
    else:
        env.check(any(s is x for x in m.states) and Eq(s.state_id, q), 'state with another id returned')


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2', 'dfa-n2a2']


def configs(tier):
    T = tier == 'thorough'
    out = [Config('ids', h_ids, dict(n=3))]
    for kind in ('mealy', 'moore', 'dfa'):
        out.append(Config(f'{kind}-n2a2', h_paths, dict(kind=kind, n=2, na=2, ops=['path', 'conn', 'prefix']),
                          covers=['unreachable', 'len1', 'connected', 'disconnected']))
        out.append(Config(f'{kind}-n3a1', h_paths, dict(kind=kind, n=3, na=1, ops=['path', 'conn', 'prefix']), covers=['len2']))
    out.append(Config('dfa-n3a2', h_paths, dict(kind='dfa', n=3, na=2, ops=['path', 'conn', 'prefix']), covers=['len2', 'unreachable']))
    out.append(Config('mealy-n4a1', h_paths, dict(kind='mealy', n=4, na=1, ops=['path', 'conn', 'prefix']), covers=['len3', 'unreachable']))
    for i, sh in enumerate(['tree5', 'funnel5', 'ring6', 'free4', 'free5', 'part4', 'part5']):
        out.append(Config(f'shape-{sh}', h_paths, dict(kind=['dfa', 'mealy', 'moore'][i % 3], n=len(STRUCTURES[sh]), na=2, ops=['path', 'conn', 'prefix'], shape=sh)))
    if T:
        out.append(Config('mealy-n3a2', h_paths, dict(kind='mealy', n=3, na=2, ops=['path', 'conn', 'prefix'])))
        out.append(Config('moore-n5a1', h_paths, dict(kind='moore', n=5, na=1, ops=['path', 'conn', 'prefix'])))
        out.append(Config('dfa-n3a3', h_paths, dict(kind='dfa', n=3, na=3, ops=['path', 'conn', 'prefix'])))
        out.append(Config('dfa-n4a2', h_paths, dict(kind='dfa', n=4, na=2, ops=['path', 'prefix'])))
    return out
