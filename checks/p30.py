"""abstracted nondeterministic L*"""
from engine.runner import Config
from engine.sym import Eq, And, Or, Not, truth
from engine.nd import NdTables, sym_nd
from checks.p29 import FairSystem, difference, allows, wellformed, find
from aalpy.base import Oracle

PROPERTY = 'P30'
OUTSIDE = 'larger systems and alphabets, more than two alternatives per input, termination without a round limit when the mapping merges outputs'
ASSUMPTIONS = ['the system is fair: repeated visits of the same input after the same trace show all outputs in turn, in an arbitrary first order, within the configured number of repetitions',
               'outputs are integers in a small range (the implementation sorts them)']


def first_missing(t, h, A):
    """shortest system trace that the hypothesis cannot follow step by step; (inputs, outputs) or None"""
    todo = [(t.init, h.init, (), ())]
    seen = {(t.init, h.init)}
    while todo:
        p, q, ins, outs = todo.pop(0)
        for a in A:
            for to, o, _ in t.tr[p][a]:
                c = find(h.tr[q].get(a, []), o)
                if c is None:
                    return ins + (a,), outs + (o,)
                if (to, c[0]) not in seen:
                    seen.add((to, c[0]))
                    todo.append((to, c[0], ins + (a,), outs + (o,)))
    return None


class AbsOracle(Oracle):
    def __init__(self, env, A, sul, t, abst, exact):
        super().__init__(A, sul)
        self.env, self.t, self.abst, self.exact = env, t, abst, exact
        self.calls = 0
        self.sizes = []

    def state_after(self, ins, outs):
        q = self.t.init
        for a, o in zip(ins, outs):
            c = find(self.t.tr[q][a], o)
            if c is None:
                return None
            q = c[0]
        return q

    def cell(self, q, e):
        """abstracted output sequences for inputs e in system state q"""
        done = [(q, ())]
        for a in e:
            done = [(to, w + (self.abst(o),)) for s, w in done for to, o, _ in self.t.tr[s][a]]
        return frozenset(w for _, w in done)

    def find_cex(self, hypothesis):
        env, t, A = self.env, self.t, self.alphabet
        self.calls += 1
        self.last = hypothesis
        h = NdTables(hypothesis)
        self.sizes.append(len(h.tr))
        E = hypothesis.characterization_set
        env.check(h.closed and h.init is not None and len(set(h.ids)) == len(h.ids), 'the model is not well formed')
        env.check(all(set(r) == set(A) for r in h.tr), 'the model is not input complete')
        env.check(tuple(hypothesis.initial_state.prefix) == ((), ()), 'access trace of the initial state')
        at = [self.state_after(*s.prefix) for s in hypothesis.states]
        env.check(None not in at, 'an access trace is not a trace of the system')
        rows = {q: tuple(self.cell(q, e) for e in E) for q in range(len(t.tr))}
        env.check(len({rows[q] for q in at}) == len(at), 'two states are not distinguished by the suffixes')
        env.check(len(at) <= len(t.tr), 'more states than the system')
        for s, q, row in zip(hypothesis.states, at, h.tr):
            for a in A:
                for to, o, _ in t.tr[q][a]:
                    env.check(any(truth_(Eq(c[1], o)) and rows[at[c[0]]] == rows[to] for c in row[a]), 'a move of the system after the access trace is missing')
                for to, o, _ in row[a]:
                    env.check(any(rows[q2] == rows[q] and rows[c[0]] == rows[at[to]] and truth_(Eq(c[1], o)) for q2 in range(len(t.tr)) for c in t.tr[q2][a]),
                              'a transition is not a move of an equivalent state of the system')
        d = difference(t, h, A, False) if self.exact else first_missing(t, h, A)
        if d is None:
            return None
        env.cover('cex')
        return list(d[0]), list(d[1])


def truth_(x):
    return bool(truth(x))


class EqMap(dict):
    """dictionary that finds its keys by equality (solver values have no fixed hash)"""

    def find(self, o):
        for k in dict.keys(self):
            if truth_(Eq(o, k)):
                return k
        return None

    def __contains__(self, o):
        return self.find(o) is not None

    def __getitem__(self, o):
        k = self.find(o)
        if k is None:
            raise KeyError(o)
        return dict.__getitem__(self, k)

    def get(self, o, default=None):
        k = self.find(o)
        return default if k is None else dict.__getitem__(self, k)

    def keys(self):
        return self


def h_learn(env, n, na, maxb, sampling, mode, rounds=None, structure=None, order='choose', nout=3, pin=None, ends=False):
    from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
    from aalpy.automata import Onfsm
    A = ['a', 'b', 'c'][:na]
    t = NdTables(sym_nd(env, 'onfsm', n, A, 's', maxb, empty=False, initial=0, structure=structure, outputs=nout))
    for i, a, k, v in pin or []:
        env.assume(Eq(t.tr[i][a][k][1], v))
    sul = FairSystem(env, t, order)
    if mode == 'identity':
        mp = {}
    elif mode == 'renaming':
        mp = {o: f'o{o}' for o in range(nout)}
    else:
        # which outputs are merged
        mp = [{0: 'x', 1: 'x'}, {0: 'x', 1: 'x', 2: 'x'}, {1: 'y', 2: 'y', 0: 'z'}][env.choose(3, 'map')] if mode == 'any' else {0: 'x', 1: 'x'}
    mp = EqMap(mp)
    exact = mode in ('identity', 'renaming')

    def abst(o):
        for k, v in dict.items(mp):
            if truth_(Eq(o, k)):
                return v
        for k in range(nout):
            if truth_(Eq(o, k)):
                return k
    orc = AbsOracle(env, A, sul, t, abst, exact)
    m, info = run_abstracted_ONFSM_Lstar(A, sul, orc, mp, n_sampling=sampling, max_learning_rounds=rounds, return_data=True, print_level=0)
    env.check(type(m) is Onfsm, 'model of another type')
    env.check(m is orc.last and info['automaton_size'] == m.size == len(m.states), 'the returned model is not the last hypothesis')
    h = NdTables(m)
    if rounds is None or orc.calls < rounds or ends:
        env.check(first_missing(t, h, A) is None, 'the model does not allow every trace of the system')
    env.check(rounds is None or orc.calls <= rounds, 'more rounds than allowed')
    if exact:
        wellformed(env, m, A)
        for q in sul.log:
            env.check(allows(h, q), 'an observed trace is not allowed by the model')
        env.check(len(h.tr) <= n, 'the model is larger than the system')
    env.check(all(x <= y for x, y in zip(orc.sizes, orc.sizes[1:])), 'the model shrank')
    env.check(info['queries_learning'] == len(sul.log), 'reported number of queries')
    env.check(info['steps_learning'] == sul.steps, 'reported number of steps')
    env.cover('learned')
    if len(h.tr) > 1:
        env.cover('multi')
    if len(h.tr) < n:
        env.cover('smaller')


def h_table(env, na):
    """abstraction of single outputs"""
    from aalpy.learning_algs.non_deterministic.AbstractedOnfsmObservationTable import AbstractedNonDetObservationTable
    from aalpy.learning_algs.non_deterministic.NonDeterministicSULWrapper import NonDeterministicSULWrapper
    A = ['a', 'b'][:na]
    mp = EqMap({k: env.int(f'm{k}', 0, 2) for k in range(3) if env.choose(2, f'def{k}')})
    t = AbstractedNonDetObservationTable(A, NonDeterministicSULWrapper(FairSystem(env, None)), mp, 3)
    o = env.int('o', 0, 3)
    want = o
    for k, v in dict.items(mp):
        if truth_(Eq(o, k)):
            want = v
    env.check(Eq(t.get_abstraction(o), want), 'abstraction of an output')
    env.cover('abstraction')


# these also with the letters 0, 1, ...
ZERO = ['merge-n1a2']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn=h_learn, covers=('learned', 'multi'), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=30))
    X = [[(0, 1), (0,)], [(1,), (0, 0)]]
    Y = [[(1,), (0,)], [(0, 1), (1, 1)]]
    for mode in ('identity', 'renaming'):
        add(f'{mode}-n1a2', covers=['learned'], n=1, na=2, maxb=2, sampling=6, mode=mode, nout=3)
        add(f'{mode}-n2a1', n=2, na=1, maxb=2, sampling=16, mode=mode)
    for nm, st in (('x', X), ('y', Y)):
        add(f'identity-n2a2{nm}', n=2, na=2, maxb=2, sampling=16, mode='identity', structure=st, nout=2)
        add(f'merge-n2a2{nm}', covers=['learned', 'multi', 'smaller'], n=2, na=2, maxb=2, sampling=16, mode='one', rounds=3, structure=st, order='fixed')
    add('identity-n3a1', covers=['learned', 'multi', 'cex'], n=3, na=1, maxb=2, sampling=32, mode='identity', structure=[[(1, 2)], [(2,)], [(0,)]], nout=2)
    add('merge-n1a2', covers=['learned'], n=1, na=2, maxb=2, sampling=6, mode='any', rounds=3)
    add('merge-n2a1', covers=['learned', 'multi', 'smaller'], n=2, na=1, maxb=2, sampling=16, mode='any', rounds=3)
    for nm, st in (('x', [[(1, 2)], [(2,)], [(0,)]]), ('y', [[(1,)], [(1, 2)], [(2, 0)]]), ('z', [[(0, 1)], [(2, 2)], [(1,)]])):
        add(f'merge-n3a1{nm}', covers=['learned', 'multi', 'smaller'], n=3, na=1, maxb=2, sampling=32, mode='one', rounds=4, structure=st, order='fixed')
    KX = [[(1, 1), (0, 2)], [(1,), (1,)], [(0,), (0,)]]
    add('merge-n3a2', covers=['learned', 'multi', 'cex'], n=3, na=2, maxb=2, sampling=60, mode='any', rounds=4, structure=KX, order='fixed',
        pin=[(1, 'a', 0, 0), (1, 'b', 0, 0), (2, 'a', 0, 0), (0, 'a', 0, 0)])
    # systems for which learning converges only because inconsistent rows are told apart
    add('converge-n3a1', covers=['learned', 'multi', 'cex'], n=3, na=1, maxb=2, sampling=32, mode='one', rounds=8, ends=True, structure=[[(0, 1)], [(2, 2)], [(1,)]], order='fixed')
    add('abstraction', h_table, ['abstraction'], na=1)
    if T:
        add('merge-n2a2', covers=['learned', 'multi', 'smaller', 'cex'], n=2, na=2, maxb=2, sampling=16, mode='one', rounds=4, order='fixed', pin=[(0, 'a', 0, 0), (1, 'b', 0, 0), (1, 'a', 0, 1)])
        add('merge-n3a1', covers=['learned', 'multi', 'smaller', 'cex'], n=3, na=1, maxb=2, sampling=32, mode='one', rounds=4, order='fixed')
        add('identity-n2a2', covers=['learned', 'multi', 'cex'], n=2, na=2, maxb=2, sampling=16, mode='identity', order='fixed', nout=2)
    return out
