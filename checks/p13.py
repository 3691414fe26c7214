"""copies, pickles, state setups"""
import copy
import pickle
from engine.runner import Config
from engine.models import *
from engine.nd import sym_nd, NdTables, ND_STRUCTURES, sym_sevpa, sym_vpa, PdaTables
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P13'
OUTSIDE = ('larger automata; Markov chains and ONFSMs (their state setups are not implemented by the library); state ids that are not '
           'unique; the implicit error sink state of VPAs')
ASSUMPTIONS = ['outputs are arbitrary values that support equality only, probabilities arbitrary positive reals summing to one']
OPS = ['copy', 'pickle', 'setup', 'deepcopy']


def dup(m, op):
    if op == 'copy':
        return m.copy()
    if op == 'pickle':
        return pickle.loads(pickle.dumps(m))
    if op == 'deepcopy':
        return copy.deepcopy(m)
    return type(m).from_state_setup(m.to_state_setup())


def structural(env, m, c, before):
    env.check(type(c) is type(m), 'copy has another type')
    mine = {id(s) for s in m.states}
    env.check(not any(id(s) in mine for s in c.states if s.state_id != 'ErrorSinkState'), 'copy shares states with the original')
    tabs = {id(s.transitions) for s in m.states}
    env.check(not any(id(s.transitions) in tabs for s in c.states if s.state_id != 'ErrorSinkState'), 'copy shares transition tables')
    env.check(c.states is not m.states, 'copy shares the list of states')
    ids = [s.state_id for s in c.states]
    env.check(len(set(ids)) == len(ids), 'state ids are not unique')
    env.check(any(s is c.initial_state for s in c.states), 'initial state is not a state of the copy')
    env.check(c.initial_state.state_id == before, 'copy has another initial state')


def h_det(env, kind, n, na, op, partial, shape=None):
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A, lazy=False, partial=partial, structure=STRUCTURES.get(shape))
    if env.choose(2, 'prefixes'):
        m.compute_prefixes()
    old = snapshot(m)
    oi = m.initial_state.state_id
    c = dup(m, op)
    structural(env, m, c, oi)
    env.check(c.size == n, 'copy has another size')
    env.check(c.current_state is c.initial_state, 'copy does not start in its initial state')
    idx = {s.state_id: k for k, s in enumerate(c.states)}
    env.check(set(idx) == {s.state_id for s in m.states}, 'copy has other states')
    for which, h in (('copy', c), ('original after copying', m)):
        new = snapshot(h)
        ix = {s.state_id: k for k, s in enumerate(h.states)}
        order = [ix[f'h{i}'] for i in range(n)]
        env.check(new.init == order[old.init], f'{which} has another initial state')
        for i in range(n):
            env.check({a: order[t] for a, t in old.delta[i].items()} == new.delta[order[i]], f'{which} has other transitions')
            o1, o2 = old.out[i], new.out[order[i]]
            if kind == 'mealy':
                env.check(set(o1) == set(o2) and And([Eq(o1[a], o2[a]) for a in o1]), f'{which} has other outputs')
            else:
                env.check(Eq(o1, o2), f'{which} has other outputs')
    # independence
    for s in c.states:
        s.transitions.clear()
    env.check(sum(len(s.transitions) for s in m.states) == sum(len(d) for d in old.delta), 'changing the copy changes the original')


def h_nd(env, kind, n, na, op, maxb=2, shape=None):
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, kind, n, A, maxb=maxb, observable=False, structure=ND_STRUCTURES.get(shape))
    old = NdTables(m)
    oi = m.initial_state.state_id
    c = dup(m, op)
    structural(env, m, c, oi)
    env.check(c.size == n, 'copy has another size')
    for which, h in (('copy', c), ('original after copying', m)):
        new = NdTables(h)
        ix = {s: k for k, s in enumerate(new.ids)}
        env.check(set(ix) == set(old.ids) and new.closed, f'{which} has other states')
        env.check(old.same(new, [ix[i] for i in old.ids]), f'{which} has other outputs, transitions or probabilities')
    for s in c.states:
        s.transitions.clear()
    env.check(NdTables(m).same(NdTables(m)) and sum(len(r) for r in NdTables(m).tr) == sum(len(r) for r in old.tr),
              'changing the copy changes the original')


def h_pda(env, kind, n, na, op):
    I, C, R = (['i'], ['c'], ['r']) if na else ([], ['c'], ['r'])
    m = (sym_sevpa if kind == 'sevpa' else sym_vpa)(env, n, I, C, R)
    old = PdaTables(m)
    oi = m.initial_state.state_id
    c = dup(m, op)
    structural(env, m, c, oi)
    env.check(old.same(PdaTables(c)), 'copy has other states or transitions')
    env.check(old.same(PdaTables(m)), 'copying changes the original')
    al, al2 = m.input_alphabet, c.input_alphabet
    for x in ('internal_alphabet', 'call_alphabet', 'return_alphabet'):
        env.check(sorted(getattr(al, x)) == sorted(getattr(al2, x)), 'copy has another alphabet')


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-setup', 'moore-n2a2-copy', 'mdp-n2a2-setup', 'smm-n2a2-copy', 'ndmoore-n2a2-copy']


def configs(tier):
    T = tier == 'thorough'
    out = []
    for op in OPS:
        for kind in ('mealy', 'moore', 'dfa'):
            out.append(Config(f'{kind}-n2a2-{op}', h_det, dict(kind=kind, n=2, na=2, op=op, partial=True)))
            out.append(Config(f'{kind}-n3a1-{op}', h_det, dict(kind=kind, n=3, na=1, op=op, partial=True)))
            if T:
                out.append(Config(f'{kind}-n3a2-{op}', h_det, dict(kind=kind, n=3, na=2, op=op, partial=True)))
                out.append(Config(f'{kind}-n4a1-{op}', h_det, dict(kind=kind, n=4, na=1, op=op, partial=True)))
        for kind in ('mdp', 'smm', 'ndmoore'):
            if kind != 'smm':
                out.append(Config(f'{kind}-n3a1-{op}', h_nd, dict(kind=kind, n=3, na=1, op=op)))
            out.append(Config(f'{kind}-n2a2-{op}', h_nd, dict(kind=kind, n=2, na=2, op=op, maxb=2 if kind != 'smm' or T else 1)))
            out.append(Config(f'{kind}-n2a1-{op}', h_nd, dict(kind=kind, n=2, na=1, op=op, maxb=3 if kind == 'smm' else 2)))
            if T:
                out.append(Config(f'{kind}-n3a1b3-{op}', h_nd, dict(kind=kind, n=3, na=1, op=op, maxb=3)))
        for sh in ('part4', 'part5', 'chain12'):
            for kind in ('mealy', 'moore', 'dfa'):
                out.append(Config(f'{kind}-{sh}-{op}', h_det, dict(kind=kind, n=len(STRUCTURES[sh]), na=len(STRUCTURES[sh][0]), op=op, partial=True, shape=sh)))
        for sh, st in ND_STRUCTURES.items():
            for kind in ('mdp', 'smm', 'ndmoore'):
                out.append(Config(f'{kind}-{sh}-{op}', h_nd, dict(kind=kind, n=len(st), na=len(st[0]), op=op, shape=sh)))
        for kind in ('sevpa', 'vpa'):
            out.append(Config(f'{kind}-n2-{op}', h_pda, dict(kind=kind, n=2, na=0, op=op)))
            if T or op in ('copy',):
                out.append(Config(f'{kind}-n2i-{op}', h_pda, dict(kind=kind, n=2, na=1, op=op)))
    return out
