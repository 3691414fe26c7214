"""stepping probabilistic and nondeterministic machines"""
from engine.runner import Config
from engine.models import *
from engine.nd import sym_nd, NdTables
from engine.sym import Eq, And, Or, Not, SeqEq, truth
from engine.stubs import random_stubbed

PROPERTY = 'P17'
OUTSIDE = 'larger machines and more alternatives per input; floating-point rounding of probabilities'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only, probabilities arbitrary positive reals summing to one',
               'Python\'s random functions are uniform/weighted as documented; every outcome they can produce is considered',
               'step_to: machines are observable (deterministic given input and output)']


def share(env, st, cell, k):
    """the draw that selected alternative k has exactly that alternative's share of the random draws"""
    env.check(len(st.calls) == 1, 'one step uses more than one random draw')
    c = st.calls[0]
    if c[0] == 'random':
        r = c[1]
        lo = 0
        for x in range(k):
            lo = lo + cell[x][2]
        env.check(And(truth(lo <= r), truth(r <= lo + cell[k][2])), 'an alternative is drawn outside its share of the draws')
    elif c[0] == 'choices':
        env.check(len(c[1]) == len(cell), 'not all alternatives take part in the draw')
        if cell[0][2] is None:
            env.check(And([Eq(x, c[2][0]) for x in c[2]]), 'draw is not uniform')
        else:
            env.check(And([Eq(x, y[2]) for x, y in zip(c[2], cell)]), 'an alternative is drawn with another probability')
    elif cell[0][2] is None:
        env.check(len(c[1]) == len(cell), 'not all alternatives take part in the draw')
    else:
        env.check(len(cell) == 1, 'weighted alternatives are drawn uniformly')


def h_step(env, kind, n, na, maxb, K):
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, kind, n, A, maxb=maxb, observable=True, empty=kind == 'mc')
    t = NdTables(m)
    cur = env.choose(n, 'cur')
    m.current_state = m.states[cur]
    for _ in range(K):
        op = env.choose(['step', 'reset'] + (['none'] if kind == 'mdp' else []), 'op')
        if op == 'reset':
            m.reset_to_initial()
            cur = t.init
            env.check(m.current_state is m.states[cur], 'reset does not return to the initial state')
            continue
        if op == 'none':
            env.check(Eq(m.step(None), t.out[cur]) and m.current_state is m.states[cur], 'step without an input must give the current output')
            continue
        a = env.choose(A, 'a') if kind != 'mc' else None
        cell = t.tr[cur].get(a, [])
        with random_stubbed() as st:
            o = m.step(a) if kind != 'mc' else m.step(None if env.choose(2, 'arg') else 'x')
        if not cell:
            env.check(Eq(o, t.out[cur]) and m.current_state is m.states[cur], 'a state without transitions must be kept')
            env.cover('absorbing')
            continue
        if kind in ('onfsm', 'smm'):
            # observable: the output identifies the alternative; without a draw only one alternative may exist
            ks = [k for k in range(len(cell)) if m.current_state is m.states[cell[k][0]] and Eq(o, cell[k][1])]
        else:
            ks = [k for k in range(len(cell)) if m.current_state is m.states[cell[k][0]]]
        env.check(len(ks) >= 1, 'step leaves the transition table')
        k = ks[0]
        env.check(Eq(o, cell[k][1]), 'step returns another output than that of the transition')
        if len(cell) > 1 or st.calls:
            share(env, st, cell, k)
        env.cover(f'alt{k}')
        cur = cell[k][0]
    new = NdTables(m)
    env.check(t.same(new), 'stepping changes the machine')


def h_step_to(env, kind, n, na, maxb, K=2):
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, kind, n, A, maxb=maxb, observable=True)
    t = NdTables(m)
    cur = env.choose(n, 'cur')
    m.current_state = m.states[cur]
    for k in range(K):
        a = env.choose(A, 'a') if kind != 'mc' else None
        o = env.val(f'o{k}')
        if kind == 'onfsm':
            env.check(SeqEq(m.outputs_on_input(a), [x[1] for x in t.tr[cur].get(a, [])]), 'outputs_on_input is wrong')
            tr = m.current_state.get_transition(a, o)
            exp = [x for x in t.tr[cur].get(a, []) if Eq(x[1], o)]
            if exp:
                env.check(tr is not None and tr[1] is m.states[exp[0][0]] and Eq(tr[0], o), 'get_transition finds a wrong transition')
            else:
                env.check(tr is None, 'get_transition finds a transition that does not exist')
            env.check(len(m.current_state.get_transition(a)) == len(t.tr[cur].get(a, [])), 'get_transition misses transitions')
        r = m.step_to(o) if kind == 'mc' else m.step_to(a, o)
        hit = [x for x in t.tr[cur].get(a, []) if Eq(x[1], o)]
        if hit:
            env.cover('hit')
            env.check(r is not None and Eq(r, o), 'a possible output is refused')
            env.check(m.current_state is m.states[hit[0][0]], 'step_to moves to another state than prescribed')
            cur = hit[0][0]
        else:
            env.cover('miss')
            env.check(r is None, 'an impossible output is accepted')
            env.check(m.current_state is m.states[cur], 'the state changes although the output is impossible')
    env.check(t.same(NdTables(m)), 'step_to changes the machine')


# these also with the letters 0, 1, ...
ZERO = ['mdp-n2-hist', 'smm-n2-hist', 'onfsm-n2-hist', 'ndmoore-n2-hist', 'to-mdp-n2-hist', 'to-onfsm-n2-hist']


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('mc', 'mdp', 'smm', 'onfsm', 'ndmoore'):
        na = 1 if kind == 'mc' else 2
        out.append(Config(f'{kind}-n2', h_step, dict(kind=kind, n=2, na=na, maxb=2, K=1), covers=['alt0', 'alt1']))
        out.append(Config(f'{kind}-n3a1', h_step, dict(kind=kind, n=3, na=1, maxb=2 if kind in ('smm', 'onfsm') else 3, K=1), covers=['alt0', 'alt1']))
        if kind in ('smm', 'onfsm'):
            out.append(Config(f'{kind}-n2b3', h_step, dict(kind=kind, n=2, na=1, maxb=3, K=1), covers=['alt2']))
        out.append(Config(f'{kind}-n2-hist', h_step, dict(kind=kind, n=2, na=1, maxb=2, K=3)))
        if T:
            out.append(Config(f'{kind}-n3-hist', h_step, dict(kind=kind, n=3, na=1, maxb=2, K=3)))
            out.append(Config(f'{kind}-n2b4', h_step, dict(kind=kind, n=2, na=1, maxb=4, K=1)))
        if kind != 'ndmoore':
            out.append(Config(f'to-{kind}-n2', h_step_to, dict(kind=kind, n=2, na=na, maxb=2, K=2 if T else 1), covers=['hit', 'miss']))
            out.append(Config(f'to-{kind}-n2-hist', h_step_to, dict(kind=kind, n=2, na=1, maxb=2, K=3 if T else 2), covers=['hit', 'miss']))
            out.append(Config(f'to-{kind}-n3a1', h_step_to, dict(kind=kind, n=3, na=1, maxb=2, K=1), covers=['hit', 'miss']))
    return out
