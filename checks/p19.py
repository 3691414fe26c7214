"""every counterexample of an equivalence oracle is genuine"""
from engine.runner import Config
from engine.models import *
from engine.nd import sym_nd, NdTables
from engine.sym import Eq, And, Or, Not, SeqEq, truth
from engine.stubs import random_stubbed

PROPERTY = 'P19'
OUTSIDE = ('larger hypotheses and systems, longer walks, more than two calls; the interactive oracle (its answer is the user\'s); '
           'hypotheses with unreachable states')
ASSUMPTIONS = ['outputs are arbitrary values that support equality only',
               'every outcome of the random functions is considered up to the stated number of draws, afterwards the first one',
               'hypotheses are input complete and know the access sequences of their states, as the learners leave them']
FIRST = {'bfe', 'pac', 'word', 'walk', 'w', 'wp', 'rw', 'rwp', 'kstate', 'ktrans', 'ktrans_prefix', 'focus', 'provided'}


def make(name, A, sul, m, small):
    from aalpy.oracles import (BreadthFirstExplorationEqOracle, PacOracle, RandomWordEqOracle, RandomWalkEqOracle, WMethodEqOracle,
                               WpMethodEqOracle, RandomWMethodEqOracle, RandomWpMethodEqOracle, KWayStateCoverageEqOracle,
                               KWayTransitionCoverageEqOracle, TransitionFocusOracle, StatePrefixEqOracle, CacheBasedEqOracle,
                               ProvidedSequencesOracleWrapper)
    if name == 'bfe':
        return BreadthFirstExplorationEqOracle(A, sul, depth=2 if small else 3)
    if name == 'pac':
        return PacOracle(A, sul, epsilon=0.9, delta=0.5, min_walk_len=1, max_walk_len=2 if small else 3)
    if name == 'word':
        return RandomWordEqOracle(A, sul, num_walks=2, min_walk_len=1, max_walk_len=2)
    if name == 'word_total':
        return RandomWordEqOracle(A, sul, num_walks=3, min_walk_len=1, max_walk_len=2, reset_after_cex=False)
    if name == 'walk':
        return RandomWalkEqOracle(A, sul, num_steps=3, reset_prob=0.3)
    if name == 'walk_total':
        return RandomWalkEqOracle(A, sul, num_steps=4, reset_prob=0.3, reset_after_cex=False)
    if name == 'w':
        return WMethodEqOracle(A, sul, max_number_of_states=2 if small else 3)
    if name == 'wp':
        return WpMethodEqOracle(A, sul, max_number_of_states=2 if small else 3)
    if name == 'rw':
        return RandomWMethodEqOracle(A, sul, walks_per_state=1, walk_len=2)
    if name == 'rwp':
        return RandomWpMethodEqOracle(A, sul, min_length=1, expected_length=1, num_tests=2)
    if name in ('kstate', 'kstate_comb'):
        return KWayStateCoverageEqOracle(A, sul, k=2, random_walk_len=2, method='permutations' if name == 'kstate' else 'combinations')
    if name in ('ktrans', 'ktrans_prefix'):
        return KWayTransitionCoverageEqOracle(A, sul, k=2, method='random' if name == 'ktrans' else 'prefix', num_generate_paths=1,
                                              max_path_len=2, random_walk_len=1)
    if name == 'ktrans_queries':
        return KWayTransitionCoverageEqOracle(A, sul, k=2, method='random', num_generate_paths=1, max_path_len=3, random_walk_len=0,
                                              optimize='queries', max_number_of_steps=3)
    if name == 'focus':
        return TransitionFocusOracle(A, sul, num_random_walks=1, walk_len=3)
    if name in ('prefix', 'prefix_shuffled'):
        return StatePrefixEqOracle(A, sul, walks_per_state=1, walk_len=2, depth_first=name == 'prefix', max_tests=None if name == 'prefix' else 2)
    if name == 'cache':
        return CacheBasedEqOracle(A, sul, num_walks=2, depth_increase=1)
    if name == 'provided':
        given = [list(w) for w in ([A[0], A[-1]], [A[-1]], [A[0], A[-1], A[0]])]
        return ProvidedSequencesOracleWrapper(A, sul, BreadthFirstExplorationEqOracle(A, sul, depth=2), given)
    if name == 'perfect':
        raise ValueError(name)
    raise ValueError(name)


def hypo(env, kind, n, A, tag, minimal=False, shape=None):
    h = sym_automaton(env, kind, n, A, tag, lazy=False, initial=0, structure=shape if isinstance(shape, list) else STRUCTURES.get(shape))
    t = snapshot(h)
    env.assume(len(t.reach()) == n)
    if minimal:
        for i in range(n):
            for j in range(i):
                env.assume(Not(t.equiv(i, j)))
    h.compute_prefixes()
    return h, t


def unchanged(env, h, t):
    now = snapshot(h)
    env.check(now.init == t.init and len(now.delta) == len(t.delta) and h.initial_state is not None, 'the oracle changed the initial state')
    env.check(And([now.equiv(now.init, t.init, t)]), 'the oracle changed the hypothesis')
    env.check(h.initial_state.prefix in ((), None), 'the oracle changed the access sequences')


def h_det(env, kind, n, ns, na, oracle, calls, budget, small=True, randint=None, shapes=None, system=None):
    from aalpy.base.SUL import CacheSUL
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, ns, A, 's', family=system)
    raw = MachineSUL(m)
    sul = CacheSUL(raw) if oracle == 'cache' else raw
    with random_stubbed(shuffle='id', budget=budget, randint=randint, after=0.0):
        if oracle == 'cache':
            for w in [(A[0], A[-1]), (A[-1], A[0])]:
                sul.query(w)
        orc = make(oracle, A, sul, m, small)
        for c in range(calls):
            h, t = hypo(env, kind, n[c], A, f'h{c}', minimal=False, shape=shapes and shapes[c])
            order = {id(s): i for i, s in enumerate(h.states)}
            delta0 = {id(s): dict(s.transitions) for s in h.states}
            try:
                cex = orc.find_cex(h)
            except SystemExit:
                env.fail('the oracle ended the program')
            env.check(len(h.states) == n[c] and all(order.get(id(s)) is not None for s in h.states), 'the oracle changed the states')
            env.check(all({a: id(x) for a, x in s.transitions.items()} == {a: id(x) for a, x in delta0[id(s)].items()} for s in h.states),
                      'the oracle changed the transitions')
            byid = sorted(h.states, key=lambda s: order[id(s)])
            h.states = byid
            unchanged(env, h, t)
            if cex is None:
                env.cover('none')
                continue
            env.cover(f'cex{min(len(cex), 4)}')
            cex = tuple(cex)
            env.check(len(cex) > 0 and all(a in A for a in cex), 'the counterexample is not a word over the alphabet')
            env.check(differs(m, h, cex), 'system and hypothesis agree on the end of the counterexample')
            if oracle.split('_')[0] in FIRST or oracle in FIRST:
                env.check(And([Not(differs(m, h, cex[:i])) for i in range(1, len(cex))]), 'the counterexample is longer than needed')
            env.check(not raw.active, 'the system was left inside a query')


class FreeSUL(SUL):
    """nondeterministic system: every step gives an arbitrary output"""

    def __init__(self, env, first=None):
        super().__init__()
        self.env, self.first = env, first
        self.log = None

    def pre(self):
        self.log = []

    def post(self):
        pass

    def step(self, letter):
        o = self.env.val(self.env.fresh('o'))
        self.log.append((letter, o))
        return o


def h_nd(env, kind, n, na, oracle, calls, budget):
    A = ['a', 'b', 'c'][:na]
    sul = FreeSUL(env)
    with random_stubbed(shuffle='id', budget=budget, after=0.0):
        orc = make(oracle, A, sul, None, True)
        for c in range(calls):
            h = sym_nd(env, kind, n, A, f'h{c}', maxb=2 if na == 1 else 1, probs='half', initial=0, empty=False)
            t = NdTables(h)
            cex = orc.find_cex(h)
            env.check(t.same(NdTables(h)), 'the oracle changed the hypothesis')
            if cex is None:
                env.cover('none')
                continue
            if kind == 'onfsm':
                env.check(len(cex) == 2 and len(cex[0]) == len(cex[1]), 'malformed counterexample')
                trace = list(zip(*cex))
            else:
                cex = list(cex)
                if kind == 'mdp':
                    env.check(Eq(cex[0], t.out[t.init]), 'counterexample does not start with the initial output')
                    cex = cex[1:]
                env.check(len(cex) % 2 == 0, 'malformed counterexample')
                trace = [(cex[i], cex[i + 1]) for i in range(0, len(cex), 2)]
            env.cover(f'cex{len(trace)}')
            env.check(0 < len(trace) <= len(sul.log), 'the counterexample was not observed')
            obs = sul.log
            env.check(len(trace) == len(obs) and And([x[0] == y[0] and Eq(x[1], y[1]) for x, y in zip(trace, obs)]),
                      'the counterexample is not what the system did')
            # hypothesis: allows all but the last step
            states = {t.init}
            for k, (a, o) in enumerate(trace):
                nxt = set()
                for s in states:
                    for x in t.tr[s].get(a, []):
                        if Eq(x[1], o):
                            nxt.add(x[0])
                if k < len(trace) - 1:
                    env.check(bool(nxt), 'the hypothesis cannot do the beginning of the counterexample')
                else:
                    env.check(not nxt, 'the hypothesis allows the counterexample')
                states = nxt


def h_reset(env, kind, oracle):
    """walk counters can be reset at any time (the stochastic learner does)"""
    A = ['a']
    sul = FreeSUL(env)
    with random_stubbed(shuffle='id', budget=6, after=0.0):
        orc = make(oracle, A, sul, None, True)
        h = sym_nd(env, kind, 1, A, 'h', maxb=1, probs='half', initial=0, empty=False)
        for c in range(3):
            if env.choose(2, 'reset'):
                orc.reset_counter()
            orc.find_cex(h)


def h_perfect(env, kind, n, nm, na):
    from aalpy.oracles import PerfectKnowledgeEqOracle
    A = ['a', 'b', 'c'][:na]
    h, t = hypo(env, kind, n, A, 'h')
    model, tm = hypo(env, kind, nm, A, 'm')
    orc = PerfectKnowledgeEqOracle(A, MachineSUL(Machine(env, kind, 1, A, 's')), model)
    cex = orc.find_cex(h)
    unchanged(env, h, t)
    unchanged(env, model, tm)
    if cex is None:
        env.cover('none')
        env.check(t.equiv(t.init, tm.init, tm), 'no counterexample although the hypothesis differs from the model')
    else:
        env.cover('cex')
        env.check(Not(SeqEq(t.run(t.init, cex)[1], tm.run(tm.init, cex)[1])) if cex else Not(Eq(t.out[t.init], tm.out[tm.init])),
                  'model and hypothesis agree on the counterexample')


# these also with the letters 0, 1, ...
ZERO = ['mealy-word-h1h2', 'dfa-walk-h1h2', 'mealy-rw-h1h2', 'dfa-rwp-h1h2', 'mealy-bfe-h1h2', 'dfa-w-h1h2', 'mealy-cache-h1h2', 'dfa-kstate-h1h2', 'mealy-focus-h1h2']


def configs(tier):
    T = tier == 'thorough'
    out = []
    det = ['bfe', 'pac', 'word', 'word_total', 'walk', 'walk_total', 'w', 'wp', 'rw', 'rwp', 'kstate', 'kstate_comb', 'ktrans_prefix',
           'focus', 'prefix', 'prefix_shuffled', 'cache', 'provided', 'ktrans', 'ktrans_queries']
    for o in det:
        kinds = ('mealy', 'moore', 'dfa') if T else ('mealy', 'dfa')
        for kind in kinds:
            b = 5
            out.append(Config(f'{kind}-{o}-h1h2', h_det, dict(kind=kind, n=[1, 2], ns=2, na=1 if o.startswith('k') else 2, oracle=o, calls=2, budget=b if T else 4, randint=2)))
            if T:
                out.append(Config(f'{kind}-{o}-h2', h_det, dict(kind=kind, n=[2], ns=3, na=2, oracle=o, calls=1, budget=7, small=False, randint=3)))
    for o in ('kstate', 'kstate_comb', 'ktrans_prefix', 'ktrans', 'ktrans_queries'):
        out.append(Config(f'mealy-{o}-h2h3', h_det, dict(kind='mealy', n=[2, 3], ns=3, na=1, oracle=o, calls=2, budget=3, randint=2)))
        if T:
            out.append(Config(f'dfa-{o}-h2h3', h_det, dict(kind='dfa', n=[2, 3], ns=3, na=1, oracle=o, calls=2, budget=3, randint=2)))
    for i, o in enumerate(det):
        for j, sh in enumerate(['s1', 's4', 's2'] if T else ['s1', 's4']):
            kind = ('moore', 'dfa', 'mealy')[(i + j) % 3]
            out.append(Config(f'{kind}-{o}-{sh}', h_det, dict(kind=kind, n=[2, 4], ns=4, na=2, oracle=o, calls=2, budget=2 if o == 'rw' else 4 if T else 3, randint=2,
                                                              small=False, shapes=['t2', sh], system=sh)))
    for kind in ('mealy', 'moore', 'dfa'):
        out.append(Config(f'{kind}-perfect', h_perfect, dict(kind=kind, n=2, nm=2, na=1 if not T else 2), covers=['none', 'cex']))
    for o in ('word', 'walk', 'word_total', 'walk_total'):
        for kind in ('onfsm', 'mdp', 'smm'):
            out.append(Config(f'{kind}-{o}', h_nd, dict(kind=kind, n=2 if T else 1, na=1, oracle=o, calls=2, budget=4)))
            if not o.endswith('total'):
                out.append(Config(f'{kind}-{o}-reset', h_reset, dict(kind=kind, oracle=o)))
    return out
