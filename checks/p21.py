"""testing oracles execute the tests they promise"""
import importlib
import itertools
from math import ceil, log
from collections import Counter
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq, truth
from engine.stubs import patched, random_stubbed
from checks.p19 import hypo

PROPERTY = 'P21'
OUTSIDE = 'larger hypotheses, longer walks, more calls'
ASSUMPTIONS = ['every outcome of the random functions is considered up to the stated number of draws, afterwards the first one',
               'promised tests are counted on searches that find no difference (the system is one that agrees with the hypothesis)',
               'hypotheses are input complete, all states reachable']


class HypSUL(SUL):
    """system given by tables; keeps every query word"""

    def __init__(self, t):
        super().__init__()
        self.t = t
        self.words = []

    def pre(self):
        self.words.append(())

    def post(self):
        pass

    def step(self, letter):
        if letter is None:
            return None
        self.words[-1] += (letter,)
        return self.t.run(self.t.init, self.words[-1])[1][-1]


def h_bfe(env, kind, sizes, ns, na, depth):
    from aalpy.oracles import BreadthFirstExplorationEqOracle
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, ns, A, 's')
    sul = MachineSUL(m)
    with random_stubbed(shuffle='few'):
        orc = BreadthFirstExplorationEqOracle(A, sul, depth=depth)
        for c, n in enumerate(sizes):
            h, t = hypo(env, kind, n, A, f'h{c}')
            cex = orc.find_cex(h)
            if cex is None:
                env.cover(f'none{c}')
                env.check(And([Not(differs(m, h, w)) for w in words(A, 1, depth)]), 'a difference within the depth is not found')
            else:
                env.cover(f'cex{c}')
                env.check(len(cex) <= depth, 'counterexample longer than the depth')


def walks_from(t, w):
    return t.run(t.init, w)[0]


def h_tests(env, kind, n, na, oracle, budget, calls=2, p=None, first=None, randint=2, bare=False, shape=None):
    """first: size of a hypothesis that is searched before, with a system that need not agree;
    bare: the states of the hypothesis do not know their access sequences yet"""
    from aalpy import oracles as O
    from aalpy.base.SUL import CacheSUL
    A = ['a', 'b', 'c'][:na]
    p = p or {}
    sul = HypSUL(None)
    raw = sul
    with random_stubbed(shuffle='few', budget=budget, randint=randint, after=0.0):
        if first:
            h0, t0 = hypo(env, kind, first, A, 'f')
        h, t = hypo(env, kind, n, A, 'h', shape=shape)
        sul.t = t
        prefixes = [s.prefix for s in h.states]
        if bare:
            for s in h.states:
                s.prefix = None
        order = {id(s): i for i, s in enumerate(h.states)}
        if oracle == 'cache':
            sul = CacheSUL(sul)
            for w in p['words']:
                sul.query([A[i] for i in w])
        orc = {'prefix': O.StatePrefixEqOracle, 'word': O.RandomWordEqOracle, 'walk': O.RandomWalkEqOracle, 'pac': O.PacOracle,
               'kstate': O.KWayStateCoverageEqOracle, 'ktrans': O.KWayTransitionCoverageEqOracle, 'focus': O.TransitionFocusOracle,
               'rw': O.RandomWMethodEqOracle, 'rwp': O.RandomWpMethodEqOracle, 'cache': O.CacheBasedEqOracle}[oracle]
        orc = orc(A, sul, **{k: v for k, v in p.items() if k != 'words'})
        if first:
            first = 'cex' if orc.find_cex(h0) is not None else 'none'
            env.old = ([s.prefix for s in h0.states], list(raw.words), first == 'cex')
            raw.words.clear()
            calls = 1
        for c in range(calls):
            before = len(raw.words)
            steps = orc.num_steps
            if oracle == 'cache':
                leaves0 = leaves(sul.cache.root_node)
                nq = sul.num_queries
            cex = orc.find_cex(h)
            env.check(cex is None, 'counterexample although the system agrees')
            tests = [w for w in raw.words[before:]]
            CHECK[oracle](env, orc, p, t, prefixes, tests, c, A, h, order, first)
            if oracle not in ('cache', 'walk'):
                env.check(orc.num_steps - steps == sum(len(w) for w in tests), 'number of steps is not what was executed')


def leaves(node, path=()):
    if not node.children:
        return [path]
    return [x for a, c in node.children.items() for x in leaves(c, path + (a,))]


def c_prefix(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    total = p['walks_per_state'] * len(prefixes)
    cap = p.get('max_tests')
    if first:
        env.check(len(tests) <= total, 'more tests than promised')
        if not cap:
            p0, words0, found = env.old
            now = Counter(w[:len(w) - p['walk_len']] for w in tests)
            n0 = Counter(w[:len(w) - p['walk_len']] for w in (words0[:-1] if found else words0))
            # the test that found the counterexample might be cut short: it started from some state of that hypothesis
            last = [Counter({u: 1}) for u in set(p0) if words0[-1][:len(u)] == u] if found else [Counter()]
            env.check(any(now == Counter({u: p['walks_per_state'] - (n0 + x)[u] for u in prefixes if p['walks_per_state'] > (n0 + x)[u]}) for x in last),
                      'a state does not get the promised number of tests over all searches')
            env.cover('counted')
        return
    env.check(len(tests) == (0 if c else min(total, cap or total)), 'wrong number of tests')
    if c == 0:
        left = Counter(prefixes * p['walks_per_state'])
        for w in tests:
            env.check(len(w) >= p['walk_len'], 'test is too short')
            u = w[:len(w) - p['walk_len']]
            env.check(left[u] > 0, 'test does not start from a promised state')
            left[u] -= 1
        if p.get('depth_first', True) and not cap:
            ls = [len(w) for w in tests]
            env.check(ls == sorted(ls, reverse=True), 'states are not explored newest first')


def c_word(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    env.check(len(tests) == (0 if c or first == 'none' else p['num_walks']) or (first and not p.get('reset_after_cex', True)), 'wrong number of walks')
    env.check(all(p['min_walk_len'] <= len(w) <= p['max_walk_len'] for w in tests), 'walk length is not within the limits')
    if first:
        env.check(len(tests) <= p['num_walks'], 'too many walks')


def c_walk(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    n = sum(len(w) for w in tests)
    if first and not p.get('reset_after_cex', True):
        env.check(n <= p['num_steps'], 'too many steps')
    else:
        env.check(n == (0 if c or first == 'none' else p['num_steps']), 'wrong number of steps')


def c_pac(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    k = c + 1 + bool(first)
    env.check(len(tests) == ceil(1 / p['epsilon'] * (log(1 / p['delta']) + k * log(2))), 'number of tests does not match the bound')
    env.check(all(p['min_walk_len'] <= len(w) <= p['max_walk_len'] for w in tests), 'walk length is not within the limits')


def c_kstate(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    n, k, L = len(prefixes), p['k'], p['random_walk_len']
    if n == 1:
        env.check(len(tests) == L and all(len(w) == L for w in tests), 'a single state is not explored by random walks')
        return
    if c or first:
        return
    # every k states in order (or in some order) with paths between them: one test visits them, then walks on
    comb = itertools.permutations if p['method'] == 'permutations' else itertools.combinations
    found = set()
    for tu in itertools.permutations(range(n), k):
        ok = all(tu[i + 1] in t.dist(tu[i]) for i in range(k - 1))
        if not ok:
            continue
        lens = [t.dist(tu[i])[tu[i + 1]] for i in range(k - 1)]
        for w in tests:
            pos = len(prefixes[tu[0]])
            if w[:pos] != prefixes[tu[0]] or len(w) != pos + sum(lens) + L:
                continue
            good = True
            for i in range(k - 1):
                pos += lens[i]
                good = good and t.run(t.init, w[:pos])[0] == tu[i + 1]
            if good:
                found.add(tu)
    for tu in comb(range(n), k):
        perms = [tu] if p['method'] == 'permutations' else list(itertools.permutations(tu))
        if p['method'] == 'permutations':
            if all(tu[i + 1] in t.dist(tu[i]) for i in range(k - 1)):
                env.check(tu in found, 'states are not visited together by a test')
                env.cover('visited')
        elif all(all(q[i + 1] in t.dist(q[i]) for i in range(k - 1)) for q in perms):
            env.check(any(q in found for q in perms), 'states are not visited together by a test')
            env.cover('visited')


def c_ktrans(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    k = p['k']
    limit = p.get('max_number_of_steps')
    if limit:
        n = sum(map(len, tests))
        env.check(n <= limit, 'more steps than allowed')
        # a test that did not fit any more
        if n + max(p['max_path_len'], max(map(len, prefixes)) + k + p['random_walk_len']) > limit:
            env.cover('stopped')
            return
        env.cover('fits')
    got = set()
    for w in tests:
        for i in range(len(w) - k + 1):
            got.add((t.run(t.init, w[:i])[0], w[i:i + k]))
    for s in range(len(prefixes)):
        for w in itertools.product(A, repeat=k):
            env.check((s, w) in got, 'a sequence of transitions is not covered')


def c_focus(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    env.check(len(tests) == p['num_random_walks'] and all(len(w) == p['walk_len'] for w in tests), 'wrong number or length of walks')
    if p['same_state_prob'] in (-1, 1):
        for w in tests:
            s = t.init
            for a in w:
                same = [x for x in A if t.delta[s][x] == s]
                diff = [x for x in A if t.delta[s][x] != s]
                want = same if p['same_state_prob'] == 1 else diff
                env.check(not want or a in want, 'input is not chosen among the transitions in focus')
                s = t.delta[s][a]


def c_rw(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    W = [tuple(w) for w in h.characterization_set]
    if first:
        p0, words0, found = env.old
        for q in prefixes:
            rest = p['walks_per_state'] - sum(w[:len(q)] == q for w in words0)
            env.check(sum(w[:len(q)] == q for w in tests) >= rest, 'a state is not tested')
            if not any(q == u[:len(q)] or u == q[:len(u)] for u in set(prefixes) | set(p0) if u != q):
                env.check(q in p0 or sum(w[:len(q)] == q for w in tests) == rest, 'a state does not get the promised number of tests')
        if not set(p0) & set(prefixes) - {()}:
            env.check(len(tests) >= (len(prefixes) - 1) * p['walks_per_state'], 'too few tests over all searches')
            env.cover('counted')
        return
    env.check(len(tests) == (0 if c else len(prefixes) * p['walks_per_state']), 'wrong number of tests')
    for w in tests:
        env.check(any(w[:len(q)] == q and any(len(w) - len(q) - p['walk_len'] <= len(v) <= len(w) - len(q) - 1 and
                                              (not v or w[-len(v):] == v) for v in W) for q in prefixes),
                  'test is not an access sequence, a walk and a distinguishing sequence')
    if not c:
        for q in set(prefixes):
            env.check(sum(w[:len(q)] == q for w in tests) >= p['walks_per_state'], 'a state is not tested')


def c_rwp(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    env.check(len(tests) <= p['num_tests'], 'too many tests')
    if len(prefixes) > 1 and And([Not(t.equiv(i, j)) for i in range(len(prefixes)) for j in range(i)]):
        env.check(len(tests) == p['num_tests'], 'too few tests')
        env.cover('minimal')
    for w in tests:
        env.check(any(w[:len(q)] == q and len(w) >= len(q) + p['min_length'] for q in prefixes), 'test does not start from a state')


def c_cache(env, orc, p, t, prefixes, tests, c, A, h, order, first):
    want = [tuple(A[i] for i in w) for w in p['words']]
    leaf = [w for w in want if not any(v != w and v[:len(w)] == w for v in want)]
    if c == 0:
        got = orc.get_paths(orc_tree(orc, want))
        env.check(sorted(map(tuple, got)) == sorted(set(leaf)), 'the cached words are not the paths of the cache')
        L = max(len(w) for w in want) + p['depth_increase']
        # walks extend a cached word to that length; what is in the cache already is answered from it
        env.check(all(any(w[:len(v)] == v for v in leaf) for w in tests), 'a walk does not start with a cached word')
        env.check(all(len(w) == L for w in tests[len(want):]), 'a walk has another length')


def orc_tree(orc, want):
    from aalpy.base.CacheTree import CacheTree
    tree = CacheTree()
    for w in want:
        tree.reset()
        tree.add_to_cache(tuple(w), list(range(len(w))))
    return tree.root_node


CHECK = {'prefix': c_prefix, 'word': c_word, 'walk': c_walk, 'pac': c_pac, 'kstate': c_kstate, 'ktrans': c_ktrans, 'focus': c_focus,
         'rw': c_rw, 'rwp': c_rwp, 'cache': c_cache}


def h_provided(env, kind, n, na, given):
    """sequences first, in order and to their end, then the wrapped oracle"""
    from aalpy.oracles import ProvidedSequencesOracleWrapper
    from aalpy.base import Oracle
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, 's')
    sul = MachineSUL(m)
    log = []

    class Inner(Oracle):
        def find_cex(self, hyp):
            log.append(len(sul.log) + (1 if sul.active else 0))
            return None
    h, t = hypo(env, kind, n, A, 'h')
    seqs = [[A[i] for i in w] for w in given]
    mine = [list(s) for s in seqs]
    orc = ProvidedSequencesOracleWrapper(A, sul, Inner(A, sul), mine)
    cex = orc.find_cex(h)
    done = list(sul.log) + ([sul.w] if sul.active else [])
    if cex is None:
        env.cover('none')
        env.check(done == [tuple(s) for s in seqs], 'provided sequences are not executed completely and in order')
        env.check(log == [len(seqs)], 'the wrapped oracle is not asked after the sequences')
        env.check(And([Not(differs(m, h, tuple(s[:i]))) for s in seqs for i in range(1, len(s) + 1)]), 'a provided counterexample is missed')
        k = len(done)
        env.check(orc.find_cex(h) is None and len(log) == 2 and len(sul.log) <= k, 'the wrapped oracle is not asked directly later')
    else:
        env.cover('cex')
        k = len(done) - 1
        env.check(not log and done[:k] == [tuple(s) for s in seqs[:k]] and done[k] == tuple(seqs[k][:len(done[k])]) == tuple(cex),
                  'sequences are not tried in order')
        env.check(differs(m, h, tuple(cex)), 'not a counterexample')
        # the next search does not skip sequences that were not tried yet
        h2, t2 = hypo(env, kind, n, A, 'g')
        c2 = orc.find_cex(h2)
        if c2 is None:
            env.check(And([Not(differs(m, h2, tuple(s[:i]))) for s in seqs[k:] for i in range(1, len(s) + 1)]), 'a provided counterexample is missed later')


def h_user(env, kind, n, na, L, calls):
    """interactive oracle: exactly the typed letters are executed, commands do what they are documented to do"""
    from aalpy.oracles import UserInputEqOracle as mod_class
    mod = importlib.import_module('aalpy.oracles.UserInputEqOracle')
    A = ['a', 'b'][:na]
    h, t = hypo(env, kind, n, A, 'h')
    sul = HypSUL(t)
    orc = mod_class(A, sul)
    for call in range(calls):
        typed, expected = [], [()]
        done = []

        def answer(prompt=''):
            if len(expected) + sum(map(len, expected)) + len(done) > L:
                cmd = env.choose(['end', 'cex'] if typed else ['end'], 'last')
            else:
                cmd = env.choose(A + ['reset', 'cex', 'end', 'other', 'current inputs'], 'cmd')
            done.append(cmd)
            if cmd in A:
                typed.append(cmd)
                expected[-1] += (cmd,)
            elif cmd == 'reset':
                typed.clear()
                expected.append(())
            return 'unknown letter' if cmd == 'other' else cmd
        before = len(sul.words)
        steps = orc.num_steps
        with patched((mod, 'input', answer), (mod, 'print', lambda *a, **k: None), (mod, 'visualize_automaton', lambda *a, **k: None)):
            cex = orc.find_cex(h)
        env.check(done[-1] in ('end', 'cex'), 'the session ends without a command to do so')
        if done[-1] == 'end':
            env.check(cex is None, 'a counterexample is reported although the user said that there is none')
            env.cover('end')
        else:
            env.check(cex is not None and list(cex) == typed and typed, 'the counterexample is not what was typed')
            env.cover('cex')
        if 'reset' in done:
            env.cover('reset')
        env.check([w for w in sul.words[before:] if w] == [w for w in expected if w], 'other words were executed than typed')
        env.check(orc.num_steps - steps == sum(map(len, expected)), 'number of steps')
        s, outs = t.run(t.init, expected[-1])
        if not (done[-1] == 'cex'):
            env.check(h.states[s] is h.current_state, 'state of the hypothesis')
    env.cover('done')


# these also with the letters 0, 1, ...
ZERO = ['bfe-mealy', 'prefix', 'rw', 'kstate-permutations', 'ktrans-prefix-steps']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, oracle, kind='mealy', n=2, na=2, budget=5, covers=(), **kw):
        out.append(Config(name, h_tests, dict(kind=kind, n=n, na=na, oracle=oracle, budget=budget + (2 if T else 0), **kw), covers=covers))
    for kind in ('mealy', 'moore', 'dfa'):
        out.append(Config(f'bfe-{kind}', h_bfe, dict(kind=kind, sizes=[2], ns=2, na=2, depth=2), covers=['none0', 'cex0']))
        out.append(Config(f'bfe-{kind}-calls', h_bfe, dict(kind=kind, sizes=[1, 2], ns=2, na=1 if not T else 2, depth=2), covers=['none0', 'none1', 'cex0', 'cex1']))
        out.append(Config(f'bfe-{kind}-d3', h_bfe, dict(kind=kind, sizes=[2], ns=3, na=1 if not T else 2, depth=3), covers=['none0', 'cex0']))
    add('prefix', 'prefix', p=dict(walks_per_state=1, walk_len=2))
    add('prefix-2', 'prefix', na=1, p=dict(walks_per_state=2, walk_len=1))
    add('prefix-n3', 'prefix', n=3, na=1, p=dict(walks_per_state=1, walk_len=1))
    add('prefix-shuffled', 'prefix', p=dict(walks_per_state=1, walk_len=1, depth_first=False))
    add('prefix-max', 'prefix', p=dict(walks_per_state=2, walk_len=1, max_tests=3))
    add('prefix-max1', 'prefix', p=dict(walks_per_state=1, walk_len=1, max_tests=1))
    add('prefix-before', 'prefix', na=1, first=1, p=dict(walks_per_state=1, walk_len=1))
    add('prefix-before2', 'prefix', first=2, budget=3, p=dict(walks_per_state=1, walk_len=1), covers=['counted'])
    add('prefix-before-w2', 'prefix', na=1, first=2, n=3, budget=2, p=dict(walks_per_state=2, walk_len=1), covers=['counted'])
    add('prefix-bare', 'prefix', bare=True, p=dict(walks_per_state=1, walk_len=1))
    add('word', 'word', p=dict(num_walks=2, min_walk_len=1, max_walk_len=2))
    add('word-total', 'word', p=dict(num_walks=2, min_walk_len=1, max_walk_len=2, reset_after_cex=False))
    add('word-before', 'word', na=1, first=1, p=dict(num_walks=2, min_walk_len=1, max_walk_len=2))
    add('word-total-before', 'word', na=1, first=1, p=dict(num_walks=2, min_walk_len=1, max_walk_len=2, reset_after_cex=False))
    add('walk', 'walk', p=dict(num_steps=3, reset_prob=0.3))
    add('walk-before', 'walk', na=1, first=1, p=dict(num_steps=3, reset_prob=0.3))
    add('walk-total-before', 'walk', na=1, first=1, p=dict(num_steps=3, reset_prob=0.3, reset_after_cex=False))
    add('pac', 'pac', p=dict(epsilon=0.9, delta=0.5, min_walk_len=1, max_walk_len=2))
    add('pac-2', 'pac', na=1, p=dict(epsilon=0.3, delta=0.2, min_walk_len=1, max_walk_len=1))
    add('pac-before', 'pac', na=1, first=1, p=dict(epsilon=0.7, delta=0.5, min_walk_len=2, max_walk_len=2))
    for meth in ('permutations', 'combinations'):
        add(f'kstate-{meth}', 'kstate', n=2, na=2, budget=3, covers=['visited'], p=dict(k=2, random_walk_len=1, method=meth))
        add(f'kstate-{meth}-n3', 'kstate', n=3, na=1, budget=2, covers=['visited'], p=dict(k=2, random_walk_len=1, method=meth))
        add(f'kstate-{meth}-k3', 'kstate', n=3, na=1 if not T else 2, budget=2, p=dict(k=3, random_walk_len=1, method=meth), covers=['visited'])
        add(f'kstate-{meth}-n1', 'kstate', n=1, na=2, p=dict(k=2, random_walk_len=2, method=meth))
    for meth in ('random', 'prefix'):
        for opt in ('steps', 'queries'):
            add(f'ktrans-{meth}-{opt}', 'ktrans', n=2, na=2, budget=3, p=dict(k=2, method=meth, num_generate_paths=2, max_path_len=3, random_walk_len=1, optimize=opt))
            add(f'ktrans-{meth}-{opt}-n3', 'ktrans', n=3, na=1, budget=3, p=dict(k=2, method=meth, num_generate_paths=2, max_path_len=3, random_walk_len=0, optimize=opt))
            add(f'ktrans-{meth}-{opt}-before', 'ktrans', n=2, na=2 if T else 1, budget=3, first=2, p=dict(k=2, method=meth, num_generate_paths=1, max_path_len=4, random_walk_len=1, optimize=opt))
            add(f'ktrans-{meth}-{opt}-before3', 'ktrans', n=3, na=1, budget=3, first=2, p=dict(k=2, method=meth, num_generate_paths=1, max_path_len=4, random_walk_len=1, optimize=opt))
            for lim in (5, 40):
                add(f'ktrans-{meth}-{opt}-limit{lim}', 'ktrans', n=2, na=2 if T else 1, budget=3, covers=['stopped' if lim == 5 else 'fits'],
                    p=dict(k=2, method=meth, num_generate_paths=2, max_path_len=4, random_walk_len=1, optimize=opt, max_number_of_steps=lim))
    for pr in (-1, 1, 0.4):
        add(f'focus-{pr}', 'focus', budget=6 if abs(pr) == 1 else 5, p=dict(num_random_walks=1, walk_len=3, same_state_prob=pr), calls=1)
    add('rw', 'rw', budget=4, p=dict(walks_per_state=1, walk_len=2))
    add('rw-dfa', 'rw', kind='dfa', budget=4, p=dict(walks_per_state=1, walk_len=2))
    add('rw-before', 'rw', first=2, budget=3, p=dict(walks_per_state=1, walk_len=1), covers=['counted'])
    add('rw-bare', 'rw', bare=True, budget=4, p=dict(walks_per_state=1, walk_len=1))
    add('rwp', 'rwp', budget=4, calls=1, p=dict(min_length=1, expected_length=1, num_tests=2), covers=['minimal'])
    add('rwp-dfa', 'rwp', kind='dfa', budget=4, calls=1, p=dict(min_length=1, expected_length=1, num_tests=2), covers=['minimal'])
    for i, sh in enumerate(['s1', 's2', 's3', 's4', 's5', 'u5']):
        kind = ['mealy', 'dfa', 'moore'][i % 3]
        n = len(STRUCTURES[sh])
        add(f'prefix-{sh}', 'prefix', kind=kind, n=n, shape=sh, budget=4, p=dict(walks_per_state=1, walk_len=2))
        add(f'rw-{sh}', 'rw', kind=kind, n=n, shape=sh, budget=3, p=dict(walks_per_state=1, walk_len=1))
        add(f'rwp-{sh}', 'rwp', kind=kind, n=n, shape=sh, budget=3, calls=1, p=dict(min_length=1, expected_length=1, num_tests=2), covers=['minimal'])
        for meth in ('permutations', 'combinations'):
            add(f'kstate-{meth}-{sh}', 'kstate', kind=kind, n=n, shape=sh, budget=1, covers=['visited'], p=dict(k=2, random_walk_len=1, method=meth))
            if T or n == 4:
                add(f'kstate3-{meth}-{sh}', 'kstate', kind=kind, n=n, shape=sh, budget=1, covers=['visited'] if meth == 'permutations' else [], p=dict(k=3, random_walk_len=1, method=meth))
        for opt in ('steps', 'queries'):
            add(f'ktrans-{opt}-{sh}', 'ktrans', kind=kind, n=n, shape=sh, budget=2, p=dict(k=2, method='prefix', num_generate_paths=1, max_path_len=3, random_walk_len=1, optimize=opt))
            add(f'ktrans-random-{opt}-{sh}', 'ktrans', kind=kind, n=n, shape=sh, budget=2, p=dict(k=2, method='random', num_generate_paths=2, max_path_len=6, random_walk_len=1, optimize=opt))
    for i, ws in enumerate([[(0, 1), (1,), (0, 0)], [(0,), (1, 0, 1), (1, 1)], [(0, 1, 1)]]):
        add(f'cache-{i}', 'cache', p=dict(num_walks=2, depth_increase=1, words=ws), calls=1)
    for kind in ('mealy', 'dfa'):
        out.append(Config(f'provided-{kind}', h_provided, dict(kind=kind, n=2, na=2, given=[(0, 1), (1,), (0, 0)] if not T else [(0, 1), (1,), (0, 0, 1)]), covers=['none', 'cex']))
    for kind in ('mealy', 'moore', 'dfa'):
        out.append(Config(f'user-{kind}', h_user, dict(kind=kind, n=2, na=1, L=4 if T else 3, calls=1), covers=['end', 'cex', 'reset', 'done']))
    out.append(Config('user-calls', h_user, dict(kind='mealy', n=1, na=1, L=2, calls=2), covers=['end', 'cex', 'reset', 'done']))
    out.append(Config('user-a2', h_user, dict(kind='mealy', n=2 if T else 1, na=2, L=3, calls=1), covers=['end', 'cex', 'reset', 'done']))
    return out
