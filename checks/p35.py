"""A limit on the number of learning rounds"""
from engine.runner import Config
from engine.models import *
from engine.models import hyp_outputs, state_out
from engine.nd import PdaTables, NdTables, sym_nd, sym_sevpa
from engine.sym import And, Eq, truth
from checks.p29 import FairSystem, NdOracle, system, wellformed
from checks.p30 import AbsOracle, EqMap
from checks.p32 import PdaSUL, PdaOracle, counterexample

PROPERTY = 'P35'
OUTSIDE = ('systems with more states or inputs than listed per configuration, limits above the listed ones, run_stochastic_Lstar (its limits are '
           'part of another property)')
ASSUMPTIONS = ['the equivalence oracle is exact', 'outputs of deterministic systems are arbitrary values that support equality only',
               'a round of KV may process an old counterexample further without a new equivalence query']
CEX = {'lstar': [None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd'],
       'kv': ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']}


def tables(h, A):
    """structure of a deterministic model, by state index"""
    ix = {id(s): i for i, s in enumerate(h.states)}
    rows = []
    for s in h.states:
        assert set(s.transitions) == set(A)
        out = {a: state_out(h, s, a) for a in A} if hasattr(s, 'output_fun') else state_out(h, s)
        rows.append(({a: ix[id(s.transitions[a])] for a in A}, out))
    return ix[id(h.initial_state)], rows


def same_tables(x, y):
    if x[0] != y[0] or len(x[1]) != len(y[1]):
        return False
    for (t, o), (t2, o2) in zip(x[1], y[1]):
        if t != t2:
            return False
        if not truth(And([Eq(o[a], o2[a]) for a in o]) if isinstance(o, dict) else Eq(o, o2)):
            return False
    return True


class Rec(ExactOracle):
    """remembers the structure of every hypothesis that it is asked about"""

    def find_cex(self, hypothesis):
        if not hasattr(self, 'snaps'):
            self.snaps = []
        self.snaps.append(tables(hypothesis, self.m.A))
        cex = super().find_cex(hypothesis)
        if cex is not None and self.pad_n:
            # a longer counterexample, the same one in all runs; its last output differs too
            for j in range(self.pad_n):
                key = self.calls, j
                if key not in self.memo:
                    self.memo[key] = self.m.env.choose(self.m.A, f'pad{self.calls}.{j}')
                cex = tuple(cex) + (self.memo[key],)
            self.m.env.assume(differs(self.m, hypothesis, cex))
            self.sul.query(cex)
        return cex


def run(env, learner, kind, m, A, k, opt):
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp
    sul = MachineSUL(m)
    orc = Rec(A, sul, m, 'shortest', limit=m.n + 1)
    orc.pad_n, orc.memo = opt['pad'], opt['memo']
    kw = dict(max_learning_rounds=k, return_data=True, print_level=0, cache_and_non_det_check=opt['cache'])
    if learner == 'lstar':
        h, info = run_Lstar(list(A), sul, orc, kind, cex_processing=opt['cex'], e_set_suffix_closed=opt['closed'], **kw)
    elif learner == 'kv':
        h, info = run_KV(list(A), sul, orc, kind, cex_processing=opt['cex'], **kw)
    elif learner == 'lsharp':
        h, info = run_Lsharp(list(A), sul, orc, kind, extension_rule=opt['ext'], separation_rule=opt['sep'], **kw)
    else:
        h, info = run_adaptive_Lsharp(list(A), sul, [opt['ref']], orc, kind, extension_rule=opt['ext'], separation_rule=opt['sep'],
                                      rebuilding=opt['rebuild'], state_matching=opt['match'], **kw)
    return h, info, orc


def reference(kind, A):
    """a two-state model to adapt from"""
    from aalpy.automata import MealyMachine, MooreMachine, Dfa
    letters = {a: a for a in A}
    if kind == 'mealy':
        d = {'s0': {a: (0, 's1') for a in A}, 's1': {a: (0, 's0') for a in A}}
        d['s1'][A[0]] = (1, 's1')
        return MealyMachine.from_state_setup(d)
    if kind == 'dfa':
        return Dfa.from_state_setup({'s0': (True, {a: 's1' for a in A}), 's1': (False, {a: 's0' for a in A})})
    return MooreMachine.from_state_setup({'s0': (0, {a: 's1' for a in A}), 's1': (1, {a: 's0' for a in A})})


def h_det(env, learner, kind, n, na, maxk, cex='choose', family=None, outputs=None, pad=0, closed=True):
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family, outputs=outputs)
    opt = dict(cache=True, cex=None, pad=pad, memo={}, closed=closed)
    if learner in CEX:
        opt['cex'] = env.choose(CEX[learner], 'cexp') if cex == 'choose' else cex
    else:
        opt['ext'] = env.choose([None, 'SepSeq', 'ADS'], 'ext') if cex == 'choose' else 'SepSeq'
        opt['sep'] = env.choose(['SepSeq', 'ADS'], 'sep') if cex == 'choose' else 'ADS'
    if learner == 'adaptive':
        opt['ref'] = reference(kind, A)
        opt['rebuild'], opt['match'] = [(True, None), (True, 'Total'), (False, 'Approximate')][env.choose(3, 'adapt')] if cex == 'choose' else (True, 'Approximate')
    if cex == 'choose':
        opt['cache'] = not env.choose(2, 'cache')
    h0, info0, o0 = run(env, learner, kind, m, A, None, opt)
    R = info0['learning_rounds']
    if learner != 'kv':
        env.check(R == o0.calls, 'the reported number of rounds is not the number of equivalence queries')
    last = 0
    for k in range(1, maxk + 1):
        h, info, orc = run(env, learner, kind, m, A, k, opt)
        t = tables(h, A)
        if learner != 'kv' or k >= R:
            assert_wellformed(env, h, A)
        else:
            # an intermediate hypothesis of KV may have states that it does not reach itself
            env.check(len({s.state_id for s in h.states}) == len(h.states), 'duplicate state identifiers')
        r = info['learning_rounds']
        env.check(r == min(k, R), f'{r} rounds reported with limit {k} where {R} are needed without limit')
        env.check(info['automaton_size'] == h.size == len(h.states), 'reported size')
        if learner == 'kv':
            # an equivalence query on the one-state hypothesis comes before the first round
            env.check(orc.calls <= min(k + 1, o0.calls), 'more equivalence queries than rounds')
        else:
            env.check(orc.calls == min(k, R), 'the number of equivalence queries is not the number of rounds')
            env.check(same_tables(t, orc.snaps[-1]), 'the returned model is not the last hypothesis')
        env.check(len(orc.snaps) <= len(o0.snaps) and all(same_tables(x, y) for x, y in zip(orc.snaps, o0.snaps)), 'the rounds differ from those without limit')
        env.check(len(h.states) >= last, 'a larger limit gives a smaller model')
        last = len(h.states)
        if k >= R:
            env.check(same_tables(t, tables(h0, A)), 'a limit that is not reached changes the model')
            env.cover('enough')
        else:
            env.cover('stopped')


def h_vpa(env, n, nI, maxk, cex, missing=True):
    from aalpy.learning_algs import run_KV
    from aalpy.automata import SevpaAlphabet
    I, C, R = ['i'][:nI], ['('], [')']
    t = PdaTables(sym_sevpa(env, n, I, C, R, missing=missing, initial=0, tag='t'))
    t.calls |= set(C)

    class R_(PdaOracle):
        def find_cex(self, hypothesis):
            self.snap = PdaTables(hypothesis)
            return super().find_cex(hypothesis)

    def go(k):
        sul = PdaSUL(t)
        orc = R_(env, I + C + R, sul, t, (I, C, R), 'shortest')
        h, info = run_KV(SevpaAlphabet(I, C, R), sul, orc, 'vpa', cex_processing=cex, max_learning_rounds=k, return_data=True, print_level=0)
        return h, info, orc
    h0, info0, o0 = go(None)
    rounds = info0['learning_rounds']
    for k in range(1, maxk + 1):
        h, info, orc = go(k)
        p = PdaTables(h)
        env.check(info['learning_rounds'] == min(k, rounds), 'reported rounds')
        env.check(info['automaton_size'] == len(h.states), 'reported size')
        env.check(orc.calls <= min(k + 1, o0.calls), 'more equivalence queries than rounds')
        ids = set(p.ids)
        env.check(len(ids) == len(h.states) and p.init in ids, 'the model is not well formed')
        for (q, a), l in p.tr.items():
            env.check(all(to in ids and (g is None or g[0] in ids) for _, _, g, to in l), 'the model mentions a state that it does not have')
            env.check(len({g for _, _, g, _ in l}) == len(l), 'the model is not deterministic')
        env.check(truth(Eq(p.accepts(p.start()), t.accepts(t.start()))), 'the model is wrong on the empty word')
        if k >= rounds:
            env.check(counterexample(t, p, I, C, R) is None, 'a limit that is not reached changes the model')
            env.cover('enough')
        else:
            env.cover('stopped')


def nd_shape(m, A):
    ix = {id(s): i for i, s in enumerate(m.states)}
    return ix[id(m.initial_state)], [{a: [(o, ix[id(x)]) for o, x in s.transitions[a]] for a in A} for s in m.states]


def same_nd(x, y):
    if x[0] != y[0] or len(x[1]) != len(y[1]):
        return False
    for r, q in zip(x[1], y[1]):
        for a in r:
            if len(r[a]) != len(q[a]) or not all(any(t == t2 and truth(Eq(o, o2)) for o2, t2 in q[a]) for o, t in r[a]):
                return False
    return True


def h_nd(env, n, na, maxb, sampling, k, stochastic=False, structure=None, order='choose'):
    from aalpy.learning_algs import run_non_det_Lstar
    from aalpy.automata import StochasticMealyMachine, Onfsm
    A, t = system(env, n, na, maxb, structure=structure)
    sul = FairSystem(env, t, order)

    class O(NdOracle):
        def find_cex(self, hypothesis):
            self.shape = nd_shape(hypothesis, self.alphabet)
            r = super().find_cex(hypothesis)
            self.over = r is None
            return r
    orc = O(env, A, sul, t, False)
    m, info = run_non_det_Lstar(A, sul, orc, n_sampling=sampling, stochastic=stochastic, max_learning_rounds=k, return_data=True, print_level=0)
    env.check(type(m) is (StochasticMealyMachine if stochastic else Onfsm), 'model of another type')
    env.check(orc.calls <= k, 'more rounds than allowed')
    env.check(info['learning_rounds'] == orc.calls, 'reported rounds')
    env.check(info['automaton_size'] == m.size == len(m.states), 'reported size')
    wellformed(env, m, A)
    if not stochastic:
        env.check(same_nd(nd_shape(m, A), orc.shape), 'the returned model is not the last hypothesis')
    else:
        for s in m.states:
            for a in A:
                l = s.transitions[a]
                env.check(l and abs(sum(c[2] for c in l) - 1) < 1e-9, 'probabilities do not sum up to one')
        ix = {id(s): i for i, s in enumerate(m.states)}
        sh = ix[id(m.initial_state)], [{a: [(c[1], ix[id(c[0])]) for c in s.transitions[a]] for a in A} for s in m.states]
        env.check(same_nd(sh, orc.shape), 'the returned model is not the last hypothesis')
    env.cover('enough' if orc.over else 'stopped')


def h_abs(env, n, na, maxb, sampling, mode, k, structure=None, nout=3):
    from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
    A = ['a', 'b', 'c'][:na]
    t = NdTables(sym_nd(env, 'onfsm', n, A, 's', maxb, empty=False, initial=0, structure=structure, outputs=nout))
    sul = FairSystem(env, t, 'fixed')
    mp = EqMap({} if mode == 'identity' else {0: 'x', 1: 'x'})

    def abst(o):
        for key, v in dict.items(mp):
            if truth(Eq(o, key)):
                return v
        for key in range(nout):
            if truth(Eq(o, key)):
                return key

    class O(AbsOracle):
        over = False

        def find_cex(self, hypothesis):
            self.shape = nd_shape(hypothesis, self.alphabet)
            r = super().find_cex(hypothesis)
            self.over = r is None
            return r
    orc = O(env, A, sul, t, abst, mode == 'identity')
    m, info = run_abstracted_ONFSM_Lstar(A, sul, orc, mp, n_sampling=sampling, max_learning_rounds=k, return_data=True, print_level=0)
    env.check(orc.calls <= k, 'more rounds than allowed')
    env.check(info['learning_rounds'] == orc.calls, 'reported rounds')
    env.check(orc.over or orc.calls == k, 'fewer rounds than allowed')
    env.check(info['automaton_size'] == m.size == len(m.states), 'reported size')
    env.check(same_nd(nd_shape(m, A), orc.shape), 'the returned model is not the last hypothesis')
    env.cover('enough' if orc.over else 'stopped')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn=h_det, covers=('stopped', 'enough'), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=30))
    for kind in ('mealy', 'moore', 'dfa'):
        for l in ('lstar', 'kv', 'lsharp'):
            add(f'{l}-{kind}-n2', learner=l, kind=kind, n=2, na=2, maxk=2, covers=['enough'])
            add(f'{l}-{kind}-n3', learner=l, kind=kind, n=3, na=1, maxk=3)
            add(f'{l}-{kind}-n3a2', learner=l, kind=kind, n=3, na=2, maxk=2, family=None if T and kind == 'dfa' else 'chain', outputs=None if kind == 'dfa' else 2, cex='choose' if T else 'rs' if l in CEX else 'one')
        add(f'adaptive-{kind}-n2', learner='adaptive', kind=kind, n=2, na=1, maxk=2, outputs=None if kind == 'dfa' else 2, covers=['enough'])
        add(f'adaptive-{kind}-n3', learner='adaptive', kind=kind, n=3, na=1, maxk=3, outputs=None if kind == 'dfa' else 2, cex='one' if not T else 'choose')
    for l in ('lstar', 'kv', 'lsharp', 'adaptive'):
        add(f'{l}-chain-n4', learner=l, kind='dfa', n=4, na=1 if not T else 2, maxk=3, family='chain', cex='rs' if l in CEX else 'one')
        add(f'{l}-lock-n4', learner=l, kind='mealy', outputs=2, n=4, na=1 if not T else 2, maxk=3, family='lock', cex='linear_bwd' if l in CEX else 'one')
    # long counterexamples, which need more than one refinement
    for f in SHAPES:
        for l in ('lstar', 'kv', 'lsharp'):
            for c in ('rs', 'exponential_bwd', 'linear_fwd') if l in CEX else ('one',):
                for pad in (0, 2) if f in ('s4', 's5') or T else (0,):
                    add(f'{l}-{f}-{c}-{pad}', learner=l, kind='dfa', n=4, na=2, maxk=3, family=f, cex=c, pad=pad, closed=pad > 0, covers=['enough'])
    for c in CEX['kv']:
        add(f'vpa-n2-{c}', h_vpa, n=2, nI=0, maxk=2, cex=c)
        add(f'vpa-n3-{c}', h_vpa, n=3, nI=0, maxk=3, cex=c, missing=False) if T and c in ('rs', 'exponential_fwd') else None
    add('vpa-n2i', h_vpa, covers=('stopped', 'enough') if T else ['enough'], n=2, nI=1, maxk=2, cex='rs', missing=T)
    Y = [[(1,), (0,)], [(0, 1), (1, 1)]]
    W = [[(1,)], [(2,)], [(0, 2)]]
    V = [[(1,)], [(2,)], [(3,)], [(0, 3)]]
    for k in (1, 2, 3) if T else (1, 2):
        for st in (False, True):
            s = '-stochastic' if st else ''
            add(f'nd-n3a1-k{k}{s}', h_nd, covers=('stopped', 'enough') if k == 1 else ['enough'], n=3, na=1, maxb=2, sampling=32, k=k, structure=W, stochastic=st, order='fixed')
            add(f'nd-n4a1-k{k}{s}', h_nd, n=4, na=1, maxb=2, sampling=48, k=k, structure=V, stochastic=st, order='fixed', covers=('stopped', 'enough') if k == 1 else ['enough'])
            add(f'nd-n2a2-k{k}{s}', h_nd, covers=('enough',), n=2, na=2, maxb=2, sampling=16, k=k, structure=Y, stochastic=st, order='fixed')
        for mode in ('identity', 'merge'):
            add(f'abs-{mode}-n2a2-k{k}', h_abs, covers=('enough',), n=2, na=2, maxb=2, sampling=16, mode=mode, k=k, structure=Y)
            add(f'abs-{mode}-n3a1-k{k}', h_abs, n=3, na=1, maxb=2, sampling=32, mode=mode, k=k, structure=[[(1, 2)], [(2,)], [(0,)]], covers=('stopped', 'enough') if k == 1 else ['enough'])
    return out
