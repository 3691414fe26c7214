"""making models input complete"""
from engine.runner import Config
from engine.models import *
from engine.nd import sym_nd, NdTables, ND_STRUCTURES
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P15'
OUTSIDE = 'larger automata; inputs that have an empty list of transitions instead of none'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only, probabilities arbitrary positive reals summing to one']


def h_det(env, kind, n, na, mode, via, shape=None):
    from aalpy.utils import make_input_complete
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A, lazy=False, partial=True, structure=STRUCTURES.get(shape))
    old = snapshot(m)
    states = list(m.states)
    al = set().union(*[set(d) for d in old.delta])
    complete = all(set(d) == al for d in old.delta)
    if via == 'method':
        m.make_input_complete(mode)
        r = m
    elif via == 'default':
        r = make_input_complete(m)
    else:
        r = make_input_complete(m, mode)
    env.check(r is m, 'another automaton is returned')
    env.check(all(a is b for a, b in zip(states, m.states)), 'the original states changed')
    sink = len(m.states) > n
    env.cover('complete' if complete else 'incomplete')
    env.check(len(m.states) == n + (1 if mode == 'sink_state' and not complete else 0), 'wrong number of states')
    env.check(m.initial_state is states[old.init], 'the initial state changed')
    new = snapshot(m)
    env.check(all(set(d) == al for d in new.delta), 'the result is not input complete')
    env.check(m.is_input_complete() is True, 'is_input_complete disagrees')
    conj = []
    for i in range(len(new.delta)):
        for a in al:
            t = new.delta[i][a]
            if i < n and a in old.delta[i]:
                env.check(t == old.delta[i][a], 'an existing transition was changed')
                if kind == 'mealy':
                    conj.append(Eq(new.out[i][a], old.out[i][a]))
                continue
            env.check(t == (n if sink else i), 'a missing input leads elsewhere')
            if kind == 'mealy':
                conj.append(new.out[i][a] == 'epsilon')
        if kind != 'mealy':
            if i < n:
                conj.append(Eq(new.out[i], old.out[i]))
            elif kind == 'dfa':
                env.check(new.out[i] is False, 'sink state is accepting')
            else:
                env.check(new.out[i] == 'sink_state', 'sink state has another output than documented')
    env.check(And(conj), 'outputs are not as documented')


def h_nd(env, kind, n, na, mode, maxb=2, shape=None):
    from aalpy.utils import make_input_complete
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, kind, n, A, maxb=maxb, observable=False, structure=ND_STRUCTURES.get(shape))
    old = NdTables(m)
    states = list(m.states)
    al = set().union(*[set(d) for d in old.tr])
    complete = all(set(d) == al for d in old.tr)
    r = make_input_complete(m, mode)
    env.check(r is m, 'another automaton is returned')
    env.check(all(a is b for a, b in zip(states, m.states)), 'the original states changed')
    sink = len(m.states) > n
    env.check(len(m.states) == n + (1 if mode == 'sink_state' and not complete else 0), 'wrong number of states')
    env.check(m.initial_state is states[old.init], 'the initial state changed')
    new = NdTables(m)
    env.check(new.closed and all(set(d) == al for d in new.tr), 'the result is not input complete')
    env.cover('complete' if complete else 'incomplete')
    conj = []
    for i in range(len(new.tr)):
        if i < n:
            conj.append(Eq(new.out[i], old.out[i]) if new.out[i] is not None else True)
        elif kind in ('mdp', 'ndmoore'):
            env.check(new.out[i] == 'sink_state', 'sink state has another output than documented')
        for a in al:
            l = new.tr[i][a]
            if i < n and a in old.tr[i]:
                k = old.tr[i][a]
                env.check([t for t, _, _ in l] == [t for t, _, _ in k], 'an existing transition was changed')
                conj += [Eq(x[1], y[1]) for x, y in zip(l, k)]
                conj += [Eq(x[2], y[2]) for x, y in zip(l, k) if x[2] is not None or y[2] is not None]
                continue
            env.check(len(l) == 1 and l[0][0] == (n if sink else i), 'a missing input leads elsewhere')
            if kind in ('smm', 'onfsm'):
                env.check(l[0][1] == 'epsilon', 'a missing input has another output than documented')
            if kind in ('smm', 'mdp'):
                env.check(l[0][2] == 1, 'a missing input has another probability than one')
    env.check(And(conj), 'outputs or probabilities changed')


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-self_loop-default', 'dfa-n2a2-sink_state-fun', 'mdp-n2a2-sink_state', 'onfsm-n2a2-self_loop']


def configs(tier):
    T = tier == 'thorough'
    out = []
    cov = ['complete', 'incomplete']
    for mode in ('self_loop', 'sink_state'):
        for kind in ('mealy', 'moore', 'dfa'):
            for n, na in ((2, 2), (3, 1)) + (((3, 2),) if T else ()):
                for via in ('fun', 'method', 'default'):
                    if via != 'default' or mode == 'self_loop':
                        out.append(Config(f'{kind}-n{n}a{na}-{mode}-{via}', h_det, dict(kind=kind, n=n, na=na, mode=mode, via=via), covers=cov))
        for sh in ('part4', 'part5', 'chain12', 'tree5'):
            for kind in ('mealy', 'moore', 'dfa'):
                out.append(Config(f'{kind}-{sh}-{mode}', h_det, dict(kind=kind, n=len(STRUCTURES[sh]), na=len(STRUCTURES[sh][0]), mode=mode, via='fun', shape=sh),
                                  covers=['complete' if sh == 'tree5' else 'incomplete']))
        for sh, st in ND_STRUCTURES.items():
            for kind in ('mdp', 'smm', 'onfsm', 'ndmoore'):
                out.append(Config(f'{kind}-{sh}-{mode}', h_nd, dict(kind=kind, n=len(st), na=len(st[0]), mode=mode, shape=sh), covers=['incomplete']))
        for kind in ('mdp', 'smm', 'onfsm', 'ndmoore'):
            out.append(Config(f'{kind}-n2a2-{mode}', h_nd, dict(kind=kind, n=2, na=2, mode=mode, maxb=2 if T or kind in ('mdp', 'ndmoore') else 1), covers=cov))
            out.append(Config(f'{kind}-n3a1-{mode}', h_nd, dict(kind=kind, n=3, na=1, mode=mode, maxb=2 if T or kind in ('mdp', 'ndmoore') else 1), covers=cov))
            out.append(Config(f'{kind}-n2a1-{mode}', h_nd, dict(kind=kind, n=2, na=1, mode=mode, maxb=3), covers=cov))
    return out
