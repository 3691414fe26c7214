"""nondeterministic L*"""
from engine.runner import Config
from engine.models import words
from engine.sym import Eq, And, Or, Not, truth
from engine.nd import NdTables, sym_nd
from aalpy.base import SUL, Oracle

PROPERTY = 'P29'
OUTSIDE = 'larger systems and alphabets, more than two alternatives per input'
ASSUMPTIONS = ['the system is fair: repeated visits of the same input after the same trace show all outputs in turn, in an arbitrary first order, within the configured number of repetitions',
               'outputs are arbitrary values that support equality only']


class FairSystem(SUL):
    """an observable nondeterministic system; repeated visits show the alternatives in turn"""

    def __init__(self, env, t, order='choose'):
        super().__init__()
        self.env, self.t, self.order = env, t, order
        self.visits = {}
        self.first = {}
        self.log = []
        self.steps = 0

    def pre(self):
        self.log.append([])
        self.env.check(len(self.log) < 20000, 'the learner does not stop asking queries')
        self.cur = self.t.init
        self.path = ()

    def post(self):
        pass

    def step(self, letter):
        self.steps += 1
        row = self.t.tr[self.cur][letter]
        n = len(row)
        key = self.path + (letter,)
        k = self.visits.get(key, 0)
        self.visits[key] = k + 1
        if n > 1:
            f = (self.cur, letter)
            if f not in self.first:
                self.first[f] = self.env.choose(2, f'first{self.cur}{letter}') if self.order == 'choose' else 0
            k = (k + self.first[f]) % n
        else:
            k = 0
        to, out, _ = row[k]
        self.path = key + (k,)
        self.cur = to
        self.log[-1].append((letter, out))
        return out


def find(row, o):
    """the entry of a row with output o"""
    for c in row:
        if truth_(Eq(c[1], o)):
            return c
    return None


def truth_(x):
    return bool(truth(x))


def difference(t, h, A, both=True):
    """shortest input/output sequence that only one of the two observable systems allows; (inputs, outputs) or None"""
    todo = [(t.init, h.init, (), ())]
    seen = {(t.init, h.init)}
    while todo:
        p, q, ins, outs = todo.pop(0)
        for a in A:
            rp, rq = t.tr[p].get(a, []), h.tr[q].get(a, [])
            for to, o, _ in rp:
                c = find(rq, o)
                if c is None:
                    return ins + (a,), outs + (o,), 'missing'
                if (to, c[0]) not in seen:
                    seen.add((to, c[0]))
                    todo.append((to, c[0], ins + (a,), outs + (o,)))
            if both:
                for _, o, _ in rq:
                    if find(rp, o) is None:
                        return ins + (a,), outs + (o,), 'extra'
    return None


def allows(h, trace):
    s = h.init
    for a, o in trace:
        c = find(h.tr[s].get(a, []), o)
        if c is None:
            return False
        s = c[0]
    return True


def wellformed(env, m, A):
    h = NdTables(m)
    env.check(h.closed and h.init is not None and len(set(h.ids)) == len(h.ids), 'the model is not well formed')
    env.check(all(set(r) == set(A) for r in h.tr), 'the model is not input complete')
    env.check(And([Not(Eq(r[a][x][1], r[a][y][1])) for r in h.tr for a in r for x in range(len(r[a])) for y in range(x)]), 'the model is not observable')
    return h


class NdOracle(Oracle):
    """exact oracle; executes its counterexamples on the system"""

    def __init__(self, env, A, sul, t, both, execute=True, limit=None):
        super().__init__(A, sul)
        self.env, self.t, self.both, self.limit = env, t, both, limit
        self.calls = 0
        self.sizes = []

    def find_cex(self, hypothesis):
        self.calls += 1
        self.last = hypothesis
        h = wellformed(self.env, hypothesis, self.alphabet)
        d = difference(self.t, h, self.alphabet, self.both)
        if d is None:
            return None
        self.env.cover('cex-' + d[2])
        return list(d[0]), list(d[1])


def system(env, n, na, maxb, same=True, mini=False, structure=None):
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, 'onfsm', n, A, 's', maxb, empty=False, initial=0, structure=structure)
    return A, NdTables(m)


def h_learn(env, n, na, maxb, sampling, both=False, stochastic=False, samples=False, structure=None, order='choose'):
    from aalpy.learning_algs import run_non_det_Lstar
    from aalpy.automata import Onfsm, StochasticMealyMachine
    A, t = system(env, n, na, maxb, structure=structure)
    sul = FairSystem(env, t, order)
    orc = NdOracle(env, A, sul, t, both)
    given = None
    if samples:
        # genuine traces of the system, provided in advance
        given = []
        for k in range(2):
            s, ins, outs = t.init, [], []
            for x in range(2):
                a = env.choose(A, f'sa{k}{x}')
                c = t.tr[s][a][env.choose(len(t.tr[s][a]), f'so{k}{x}')]
                ins.append(a)
                outs.append(c[1])
                s = c[0]
            given.append((tuple(ins), tuple(outs)))
    m, info = run_non_det_Lstar(A, sul, orc, n_sampling=sampling, samples=given, stochastic=stochastic, return_data=True, print_level=0)
    env.check(type(m) is (StochasticMealyMachine if stochastic else Onfsm), 'model of another type')
    h = wellformed(env, m, A)
    d = difference(t, h, A, both)
    env.check(d is None, 'the model does not have the behaviour of the system')
    for q in sul.log + [list(zip(*g)) for g in given or []]:
        env.check(allows(h, q), 'an observed trace is not allowed by the model')
    env.cover('learned')
    if len(h.tr) > 1:
        env.cover('multi')
    env.check(info['automaton_size'] == m.size == len(h.tr), 'reported size')
    env.check(len(h.tr) <= n, 'the model is larger than the system')
    env.check(info['learning_rounds'] == orc.calls, 'reported rounds')
    env.check(info['queries_learning'] == len(sul.log), 'reported number of queries')
    env.check(info['steps_learning'] == sul.steps, 'reported number of steps')
    for s, row in zip(m.states, h.tr):
        # exactly the outputs of the system after the access trace
        q = t.init
        for a, o in zip(*s.prefix):
            c = find(t.tr[q][a], o)
            env.check(c is not None, 'an access trace is not a trace of the system')
            q = c[0]
        for a in A:
            env.check(len(row[a]) == len(t.tr[q][a]) and all(find(row[a], c[1]) is not None for c in t.tr[q][a]), 'a state does not allow exactly the outputs after its access trace')
    if stochastic:
        # probabilities: relative frequencies of outputs after the access trace of the state
        for s, row in zip(m.states, h.tr):
            ins, outs = s.prefix
            for a in A:
                cnt = {}
                tot = 0
                fs = [0] * len(row[a])
                for q in sul.log + [list(zip(*g)) for g in given or []]:
                    k = len(ins)
                    if len(q) > k and tuple(x for x, _ in q[:k]) == ins and q[k][0] == a and And([Eq(x[1], y) for x, y in zip(q, outs)]):
                        tot += 1
                        fs[[j for j, c in enumerate(row[a]) if truth_(Eq(c[1], q[k][1]))][0]] += 1
                env.check(all(abs(c[2] * tot - f) < 1e-9 for c, f in zip(row[a], fs)), 'a probability is not the relative frequency')


def h_cache(env, k, L, na, no, ne, cached=True):
    """the trace tree answers from exactly the recorded traces"""
    from aalpy.learning_algs.non_deterministic.TraceTree import TraceTree
    A = ['a', 'b'][:na]
    outs = ['x', 'y', 'z'][:no]
    log = []
    t = TraceTree()
    for j in range(k):
        ln = env.choose(list(range(1, L + 1)), f'len{j}')
        q = [(env.choose(A, f'i{j}.{x}'), env.choose(outs, f'o{j}.{x}')) for x in range(ln)]
        log.append(q)
        if env.choose(2, f'mode{j}'):
            t.add_trace([i for i, _ in q], [o for _, o in q])
        else:
            t.reset()
            for i, o in q:
                t.add_to_tree(i, o)
    for p in {tuple(q[:x]) for q in log for x in range(len(q) + 1)} | {(('a', 'x'), ('a', 'z'))}:
        pre = (tuple(i for i, _ in p), tuple(o for _, o in p))
        below = [q[len(p):] for q in log if tuple(q[:len(p)]) == p]
        node = t.get_to_node(*pre)
        env.check((node is None) == (not below), 'get_to_node')
        if node is not None:
            env.check(node.get_prefix() == pre[1], 'prefix of a node')
        for e in words(A, 1, ne):
            hit = [q for q in below if tuple(i for i, _ in q[:len(e)]) == e]
            want = {tuple(o for _, o in q[:len(e)]) for q in hit}
            got = t.get_all_traces(pre, e)
            env.check(sorted(got) == sorted(want), 'traces of a cell')
            env.check(t.get_s_e_sampling_frequency(pre, e) == len(hit), 'sampling frequency of a cell')
            if len(e) == 1 and hit:
                d = t.get_sampling_distributions(pre, e[0])
                env.check(set(d) == {w[0] for w in want} and all(abs(d[o] * len(hit) - sum(q[0][1] == o for q in hit)) < 1e-9 for o in d), 'sampling distribution')
    env.cover('tree')
    if not cached:
        return
    # counterexamples in the tree
    from aalpy.automata import Onfsm, OnfsmState
    s = [OnfsmState('s0'), OnfsmState('s1')]
    for i, q in enumerate(s):
        for a in A:
            os_ = [outs[:1], outs[1:2], outs[:2]][env.choose(3, f'h{i}{a}')]
            q.transitions[a] = [(o, s[env.choose(2, f'd{i}{a}{o}')]) for o in os_]
    h = Onfsm(s[0], s)
    T = NdTables(h)
    cex = t.find_cex_in_cache(h)
    bad = [q[:x] for q in log for x in range(1, len(q) + 1) if not allows(T, q[:x])]
    env.check((cex is None) == (not bad), 'a recorded counterexample is missed')
    if cex is not None:
        env.check(list(zip(*cex)) in bad and len(cex[0]) == min(map(len, bad)), 'the counterexample is not a shortest recorded one')
        env.cover('cached cex')


# these also with the letters 0, 1, ...
ZERO = ['n1a2', 'n2a1-samples']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn=h_learn, covers=('learned',), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=30))
    add('n1a2', n=1, na=2, maxb=2, sampling=6)
    add('n1b3', n=1, na=1, maxb=3, sampling=9)
    add('n2a1', covers=['learned', 'multi'], n=2, na=1, maxb=2, sampling=16)
    add('n2a1-stoch', covers=['learned', 'multi'], n=2, na=1, maxb=2, sampling=16, stochastic=True)
    add('n2a1-samples', covers=['learned', 'multi'], n=2, na=1, maxb=2, sampling=16, samples=True, order='fixed')
    for name, st in (('x', [[(0, 1), (0,)], [(1,), (0, 0)]]), ('y', [[(1,), (0,)], [(0, 1), (1, 1)]]), ('z', [[(1, 1), (0, 1)], [(0,), (0, 1)]])):
        add(f'n2a2{name}', covers=['learned', 'multi'], n=2, na=2, maxb=2, sampling=16, structure=st)
    add('n3a1x', covers=['learned', 'multi', 'cex-missing'], n=3, na=1, maxb=2, sampling=32, structure=[[(1, 2)], [(2,)], [(0,)]])
    for name, st in (('y', [[(1,)], [(1, 2)], [(2, 0)]]), ('z', [[(1, 2)], [(1,)], [(2,)]]), ('w', [[(1,)], [(2,)], [(0, 2)]])):
        add(f'n3a1{name}', covers=['learned', 'multi'], n=3, na=1, maxb=2, sampling=32, structure=st)
    # states that differ in the combinations of outputs only
    add('n5a1x', covers=['learned', 'multi'], n=5, na=1, maxb=2, sampling=32, structure=[[(1, 2)], [(3, 4)], [(4, 3)], [(0,)], [(0,)]], order='fixed')
    add('tree', h_cache, ['tree', 'cached cex'], k=2, L=2, na=1, no=2, ne=2)
    if T:
        add('n2a2', covers=['learned', 'multi'], n=2, na=2, maxb=2, sampling=16, order='fixed')
        add('n3a1', covers=['learned', 'multi'], n=3, na=1, maxb=2, sampling=64, order='fixed')
        add('tree3', h_cache, ['tree', 'cached cex'], k=3, L=2, na=1, no=2, ne=2)
        add('tree-a2', h_cache, ['tree'], k=2, L=2, na=2, no=2, ne=2, cached=False)
    return out
