"""generated random models have the requested shape"""
import random
import warnings
from engine.runner import Config
from engine.models import snapshot
from engine.sym import And, Or, Not, Eq, truth
from engine.stubs import random_stubbed

PROPERTY = 'P33'
OUTSIDE = ('larger models; an unlimited number of symbolic draws (after the stated number of free draws the draws are pseudo-random with '
           'a fixed seed); user-supplied probability lists that need more outputs than the model has; one-symbol output alphabets; '
           'reachability of the states of generated ONFSMs and SEVPAs, which is not promised')
ASSUMPTIONS = ['every outcome of the random functions is considered for the stated number of draws']


def stub(budget, shuffle='all', seed=5):
    return random_stubbed(shuffle=shuffle, budget=budget, after=random.Random(seed))


def fresh_letters(env, k, what):
    """user-supplied symbols: arbitrary values, pairwise different"""
    L = [f'{what}{x}' for x in range(k)]
    return L


def h_det(env, kind, n, na, no, budget, minimal, api='generic', acc=None, warn_ok=False, seed=5):
    """deterministic generators: every arrangement of the successor buffer and of the outputs"""
    from aalpy.utils import (generate_random_deterministic_automata, generate_random_dfa, generate_random_mealy_machine,
                             generate_random_moore_machine)
    from aalpy.automata import Dfa, MealyMachine, MooreMachine
    A = [f'i{x + 1}' for x in range(na)]
    outs = None
    with warnings.catch_warnings(record=True) as w, stub(budget, seed=seed):
        warnings.simplefilter('always')
        if api == 'generic':
            kw = {} if acc is None else {'num_accepting_states': acc}
            m = generate_random_deterministic_automata(kind, n, na, no, ensure_minimality=minimal, **kw)
            outs = [f'o{x + 1}' for x in range(max(2, no or 2))]
        else:
            A = ['x', 7, ('y', 1)][:na]
            outs = [env.val(f'out{x}') for x in range(no)] if kind != 'dfa' else None
            if outs:
                for x in range(no):
                    for y in range(x):
                        env.assume(Not(Eq(outs[x], outs[y])))
            if kind == 'dfa':
                m = generate_random_dfa(n, A, num_accepting_states=acc, ensure_minimality=minimal)
            elif kind == 'mealy':
                m = generate_random_mealy_machine(n, A, list(outs), ensure_minimality=minimal)
            else:
                m = generate_random_moore_machine(n, A, list(outs), ensure_minimality=minimal)
    env.check(type(m) is {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}[kind], 'type of the model')
    env.check(len(m.states) == n == len({id(s) for s in m.states}) == len({s.state_id for s in m.states}), 'number of states')
    env.check(any(m.initial_state is s for s in m.states), 'initial state')
    env.check(all(set(s.transitions) == set(A) for s in m.states), 'inputs')
    env.check(all(any(t is s for s in m.states) for q in m.states for t in q.transitions.values()), 'transition to a foreign state')
    env.check(sorted(map(str, m.get_input_alphabet())) == sorted(map(str, A)), 'input alphabet')
    t = snapshot(m)
    env.check(len(t.reach()) == n, 'unreachable state')
    for s in m.states:
        q = m.initial_state
        env.check(s.prefix is not None, 'access sequence missing')
        for a in s.prefix:
            q = q.transitions[a]
        env.check(q is s, 'access sequence leads elsewhere')
    if kind == 'dfa':
        k = acc if acc is not None else n // 2
        if api != 'generic' and n <= acc:
            k = n // 2
        env.check(all(isinstance(s.is_accepting, bool) for s in m.states), 'acceptance')
        env.check(sum(s.is_accepting for s in m.states) == k, 'number of accepting states')
    else:
        if kind == 'moore':
            used = [s.output for s in m.states]
        else:
            env.check(all(set(s.output_fun) == set(A) for s in m.states), 'outputs of a state')
            used = [s.output_fun[a] for s in m.states for a in A]
        env.check(And([Or([Eq(u, o) for o in outs]) for u in used]), 'output outside of the alphabet')
        ks = [truth(Or([Eq(u, o) for u in used])) for o in outs]
        env.check(sum(ks) == min(len(outs), len(used)), 'unused outputs')
    if minimal:
        distinct = all(truth(Not(t.equiv(i, j))) for i in range(n) for j in range(i))
        warned = any('on-minimal' in str(x.message) for x in w)
        env.check(distinct or warned, 'not minimal, and no warning')
        if distinct:
            env.cover('minimal')
        else:
            env.cover('warned')
    else:
        env.cover('generated')


def probs(env, kinds):
    """user-supplied probability lists: every list positive with sum one"""
    out = []
    for x, k in enumerate(kinds):
        p = [env.real(f'p{x}{y}', 0) for y in range(k - 1)]
        for q in p:
            env.assume(q > 0)
        last = 1 - sum(p) if p else 1
        if p:
            env.assume(last > 0)
        out.append(tuple(p) + (last,))
    return out


def one(x):
    """sum of probabilities is one, up to float rounding for the built-in lists"""
    if isinstance(x, float):
        return abs(x - 1) < 1e-9
    return Eq(x, 1)


def h_stochastic(env, kind, n, na, no, budget, own=None, seed=5):
    from aalpy.utils import generate_random_mdp, generate_random_smm
    from aalpy.automata import Mdp, StochasticMealyMachine
    pp = probs(env, own) if own else None
    with stub(budget, seed=seed) as st:
        m = (generate_random_mdp if kind == 'mdp' else generate_random_smm)(n, na, no, pp)
    A = [f'i{x + 1}' for x in range(na)]
    outs = [f'o{x + 1}' for x in range(max(2, no))]
    env.check(type(m) is (Mdp if kind == 'mdp' else StochasticMealyMachine), 'type of the model')
    env.check(len(m.states) == n == len({id(s) for s in m.states}) == len({s.state_id for s in m.states}), 'number of states')
    env.check(m.initial_state is m.states[0], 'initial state')
    seen = {id(m.initial_state)}
    todo = [m.initial_state]
    while todo:
        q = todo.pop()
        env.check(set(q.transitions) == set(A), 'inputs')
        for a in A:
            l = q.transitions[a]
            env.check(len(l) > 0, 'input without transition')
            env.check(And([x[-1] > 0 for x in l]), 'probability')
            total = l[0][-1]
            for x in l[1:]:
                total = total + x[-1]
            env.check(one(total), 'probabilities do not sum to one')
            if pp:
                env.check(any(len(p) == len(l) and truth(And([Eq(x[-1], y) for x, y in zip(l, p)])) for p in pp), 'not one of the requested distributions')
            labels = [x[0].output if kind == 'mdp' else x[1] for x in l]
            env.check(len(labels) == len(set(labels)), 'two transitions with the same output')
            env.check(all(o in outs for o in labels), 'output outside of the alphabet')
            if len(l) > 1:
                env.cover('branching')
            if len(l) > 2:
                env.cover('branching3')
            for x in l:
                env.check(any(x[0] is s for s in m.states), 'transition to a foreign state')
                if id(x[0]) not in seen:
                    seen.add(id(x[0]))
                    todo.append(x[0])
    env.check(len(seen) == n, 'unreachable state')
    if kind == 'mdp':
        used = {s.output for s in m.states}
        env.check(used <= set(outs) and len(used) == min(len(outs), n), 'outputs')
    else:
        used = {x[1] for s in m.states for a in A for x in s.transitions[a]}
        env.check(len(used) == min(len(outs), n * na), 'outputs')
    env.cover('generated')


def h_onfsm(env, n, na, no, budget, seed=5):
    from aalpy.utils import generate_random_ONFSM
    from aalpy.automata import Onfsm
    p = env.real('p', 0)
    env.assume(p <= 1)
    with stub(budget, seed=seed) as st:
        m = generate_random_ONFSM(n, na, no, p)
    A = [f'i{x + 1}' for x in range(na)]
    outs = [f'o{x + 1}' for x in range(no)]
    env.check(type(m) is Onfsm and len(m.states) == n == len({s.state_id for s in m.states}), 'number of states')
    env.check(any(m.initial_state is s for s in m.states), 'initial state')
    targets, slots, draws = set(), 0, [r for k, r in st.calls if k == 'random']
    x = 0
    for q in m.states:
        env.check(set(q.transitions) == set(A), 'inputs')
        for a in A:
            l = q.transitions[a]
            os = [o for o, _ in l]
            env.check(1 <= len(os) == len(set(os)) and all(o in outs for o in os), 'outputs')
            env.check(all(any(t is s for s in m.states) for _, t in l), 'transition to a foreign state')
            targets |= {id(t) for _, t in l}
            slots += len(l)
            if x < len(draws):
                # several outputs exactly with the requested probability
                env.check(Eq(draws[x] <= p, len(l) > 1) if no > 1 else len(l) == 1, 'probability of several outputs')
            x += 1
            env.cover('single' if len(l) == 1 else 'several')
    env.check(slots < n or len(targets) == n, 'a state without incoming transition')


def h_mc(env, n, budget, seed=5):
    from aalpy.utils import generate_random_markov_chain
    from aalpy.automata import MarkovChain
    with stub(budget, seed=seed):
        m = generate_random_markov_chain(n)
    env.check(type(m) is MarkovChain and len(m.states) == n, 'number of states')
    env.check([s.state_id for s in m.states] == [f'q{i}' for i in range(n)] and [s.output for s in m.states] == list(range(n)), 'states')
    env.check(m.initial_state is m.states[0] and not m.states[-1].transitions, 'initial and last state')
    for i, s in enumerate(m.states[:-1]):
        l = s.transitions
        env.check(l[0][0] is m.states[i + 1] and len({id(t) for t, _ in l}) == len(l), 'successors')
        env.check(all(any(t is q for q in m.states) for t, _ in l) and all(p > 0 for _, p in l), 'probabilities')
        env.check(abs(sum(p for _, p in l) - 1) < 1e-9, 'probabilities do not sum to one')
        env.cover(f'branch{len(l)}')


def h_sevpa(env, n, nI, nC, nR, budget, seed=5):
    from aalpy.utils import generate_random_sevpa
    from aalpy.automata import Sevpa
    pa, pr = env.real('pa', 0), env.real('pr', 0)
    env.assume(pa <= 1)
    env.assume(pr <= 1)
    with stub(budget, seed=seed) as st:
        m = generate_random_sevpa(n, nI, nC, nR, pa, pr)
    draws = [r for k, r in st.calls if k == 'random'][:n]
    I, C, R = [f'i{x}' for x in range(nI)], [f'c{x}' for x in range(nC)], [f'r{x}' for x in range(nR)]
    env.check(type(m) is Sevpa and len(m.states) == n == len({s.state_id for s in m.states}), 'number of states')
    env.check(any(m.initial_state is s for s in m.states), 'initial state')
    for d, s in zip(draws, m.states):
        env.check(Eq(d < pa, bool(truth(s.is_accepting))), 'acceptance probability')
    al = m.get_input_alphabet()
    env.check(sorted(al.internal_alphabet) == I and sorted(al.call_alphabet) == C and sorted(al.return_alphabet) == R, 'alphabet')
    for q in m.states:
        for a, l in q.transitions.items():
            env.check(a in I or a in R or not l, 'letter of a transition')
            for t in l:
                env.check(t.letter == a and any(t.target_state is s for s in m.states), 'transition')
        for a in I:
            l = q.transitions[a]
            env.check(len(l) == 1, 'internal transition missing or ambiguous')
            env.check(l[0].action is None and l[0].stack_guard is None, 'internal transition')
        for a in R:
            l = q.transitions[a]
            env.check(all(t.action == 'pop' for t in l), 'return transition')
            guards = [t.stack_guard for t in l]
            env.check(len(guards) == len(set(guards)) and set(guards) == {(s.state_id, c) for s in m.states for c in C},
                      'return transition missing or ambiguous')
    env.cover('sevpa')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers, **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=20))
    for kind in ('dfa', 'moore', 'mealy'):
        no = None if kind == 'dfa' else 2
        add(f'{kind}-n2', h_det, ['generated'], kind=kind, n=2, na=2, no=no, budget=14 if T else 10, minimal=False)
        add(f'{kind}-n3', h_det, ['generated'], kind=kind, n=3, na=1, no=None if kind == 'dfa' else 3, budget=15 if T else 11, minimal=False)
        add(f'{kind}-min2', h_det, ['minimal'], kind=kind, n=2, na=2, no=no, budget=15 if T else 11, minimal=True)
        add(f'{kind}-min3', h_det, ['minimal'], kind=kind, n=3, na=1, no=None if kind == 'dfa' else 3, budget=12 if T else 9, minimal=True)
        add(f'{kind}-own', h_det, ['minimal'], kind=kind, n=2, na=3 if T else 2, no=2, budget=11 if T else 8, minimal=True, api='own', acc=1)
        add(f'{kind}-n4', h_det, ['minimal'], kind=kind, n=4, na=2, no=None if kind == 'dfa' else 3, budget=9 if T else 7, minimal=True)
        add(f'{kind}-one', h_det, ['minimal'], kind=kind, n=1, na=2, no=no, budget=20, minimal=True)
    add('dfa-acc', h_det, ['generated'], kind='dfa', n=3, na=1, no=None, budget=9, minimal=False, acc=1)
    add('dfa-acc2', h_det, ['minimal'], kind='dfa', n=2, na=1, no=None, budget=9, minimal=True, acc=3, api='own')
    add('dfa-allacc', h_det, ['warned'], kind='dfa', n=2, na=1, no=None, budget=2, minimal=True, acc=0)
    for kind in ('mdp', 'smm'):
        add(f'{kind}-n2', h_stochastic, ['generated', 'branching'], kind=kind, n=2, na=1, no=2, budget=13 if T else 10)
        add(f'{kind}-n3', h_stochastic, ['generated', 'branching', 'branching3'], kind=kind, n=3, na=1, no=3, budget=12 if T else 9)
        add(f'{kind}-tail', h_stochastic, ['generated', 'branching', 'branching3'], kind=kind, n=3, na=2, no=3, budget=11 if T else 9, seed=9)
        add(f'{kind}-own', h_stochastic, ['generated', 'branching'], kind=kind, n=2, na=1, no=3, budget=12 if T else 10, own=(1, 2))
        add(f'{kind}-own3', h_stochastic, ['generated', 'branching', 'branching3'], kind=kind, n=3, na=1, no=3, budget=11 if T else 8, own=(3,))
        add(f'{kind}-out1', h_stochastic, ['generated'], kind=kind, n=2, na=1, no=1, budget=8)
    add('onfsm-n2', h_onfsm, ['single', 'several'], n=2, na=1, no=2, budget=12)
    add('onfsm-n2b', h_onfsm, ['single', 'several'], n=2, na=2, no=2, budget=15 if T else 11)
    add('onfsm-o3', h_onfsm, ['single', 'several'], n=2, na=1, no=3, budget=13 if T else 11)
    add('onfsm-n3', h_onfsm, ['single', 'several'], n=3, na=1, no=2, budget=17 if T else 12)
    add('onfsm-o1', h_onfsm, ['single'], n=3, na=1, no=1, budget=12)
    add('mc-3', h_mc, ['branch1', 'branch2'], n=3, budget=20)
    add('mc-4', h_mc, ['branch1', 'branch2'], n=4, budget=20)
    if T:
        add('mc-5', h_mc, ['branch1', 'branch2'], n=5, budget=20)
    add('sevpa-n1', h_sevpa, ['sevpa'], n=1, nI=1, nC=1, nR=1, budget=20)
    add('sevpa-n2', h_sevpa, ['sevpa'], n=2, nI=1, nC=1, nR=1, budget=15 if T else 11)
    add('sevpa-n2i2', h_sevpa, ['sevpa'], n=2, nI=2, nC=1, nR=1, budget=14 if T else 11)
    add('sevpa-n2c2', h_sevpa, ['sevpa'], n=2, nI=0, nC=2, nR=2, budget=13 if T else 10)
    add('sevpa-n3', h_sevpa, ['sevpa'], n=3, nI=1, nC=1, nR=1, budget=12 if T else 10)
    return out
