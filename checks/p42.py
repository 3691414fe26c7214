"""stochastic L*: what is sampled again, how counterexamples enter the table"""
import random as _r
from engine.runner import Config
from engine.sym import Eq, And, Or, Not, truth, Sym
from engine.stubs import random_stubbed, patched
from checks.p28 import AnySystem, X, Y, any_log, fill_teacher

PROPERTY = 'P42'
OUTSIDE = 'counterexample processing "rs" (documented as experimental), more recorded traces; rows removed by trimming'
ASSUMPTIONS = ['every observed trace has an arbitrary positive frequency (consistent along the trace) and the compatibility test may answer anything',
               'counterexamples of the equivalence oracle are arbitrary traces']


def make_table(env, kind, k, L, na, strategy, cex, arb, n_c=1, weights=False):
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker
    A = ['a', 'b'][:na]
    log = any_log(env, A, [X, Y], k, L)
    ws = [env.int(f'w{j}', 1, 9) for j in range(k)] if weights else None
    memo = {}

    def cell(c1, c2, t1, t2):
        if not c1 or not c2 or t1 == t2:
            return False
        key = frozenset((t1, t2))
        if key not in memo:
            memo[key] = bool(env.choose(2, f'd{len(memo)}')) if len(memo) < arb else set(c1) != set(c2)
        return memo[key]

    class Diff(DifferenceChecker):
        def are_cells_different(self, c1, c2, s1=None, s2=None, e=None, **kw):
            if s1 is None:
                return bool(c1) and bool(c2) and set(c1) != set(c2)
            return cell(c1, c2, s1 + e, s2 + e)
    ck = Diff()
    t, counts = fill_teacher(env, kind, log, n_c, ck, ws)
    tab = SamplingBasedObservationTable(A, kind, t, ck, strategy='classic' if strategy == 'classic' else ck, cex_processing=cex)
    return A, t, counts, tab, cell


def h_refine(env, kind, k, L, na, strategy, uniform=False, cex=None, arb=3, extra=True):
    """the cells that are sampled again, their weights and the number of queries"""
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    mdp = kind == 'mdp'
    off = 1 if mdp else 0
    classic = strategy == 'classic'
    n_c = env.int('n_c', 1, 20) if classic else 1
    A, t, counts, tab, cell = make_table(env, kind, k, L, na, strategy, cex, arb, n_c, weights=classic)
    root = (X,) if mdp else ()
    if extra:
        # a longer column, as counterexamples and inconsistencies add them
        tab.E.append((A[0], env.choose([X, Y], 'column'), A[-1]))
    tab.update_obs_table_with_freq_obs()
    if not uniform:
        tab.make_closed_and_consistent()
    S, E = list(tab.S), list(tab.E)
    at = lambda tr: counts.get(tr[off:-1], tr[-1])
    rows = list(S)
    for s in S:
        for i in A:
            for o, n in at(s + (i,)).items():
                if s + (i, o) not in rows:
                    rows.append(s + (i, o))
    calls = []

    def tree_query(self, r):
        calls.append(r)

    resample = env.choose([1, 3], 'n_resample')
    with patched((StochasticTeacher, 'tree_query', tree_query)):
        r = tab.refine_not_completed_cells(resample, uniform=uniform)

    def complete(tr):
        p = ()
        for x in range(off, len(tr) - 1, 2):
            f = counts.get(p, tr[x])
            if tr[x + 1] not in f:
                return truth(sum(f.values()) >= n_c)
            p += (tr[x], tr[x + 1])
        return truth(sum(counts.get(p, tr[-1]).values()) >= n_c)

    def similar(s1, s2):
        if mdp and s1[-1] != s2[-1]:
            return False
        return not any(cell(at(s1 + e), at(s2 + e), s1 + e, s2 + e) for e in E)
    want, total = {}, 0
    reps = tab.compatibility_classes_representatives
    for s in rows:
        for e in E:
            tr = (s + e)[off:]
            if classic:
                if complete(s + e):
                    continue
                w = 0
            elif uniform:
                w = 1
            else:
                p = (s + e)[:-1]
                while p not in rows:
                    p = p[:-1]
                w = max(2 * (sum(similar(p, q) for q in reps) - 1), 1)
                total += w
            for x in range(0, len(tr), 2):
                want[tr[:x + 1]] = want.get(tr[:x + 1], 0) + w
    if classic and not want:
        env.check(r is False and not calls, 'something is sampled although every cell is complete')
        env.cover('complete')
        return
    env.check(r is True, 'sampling is not reported')
    env.check(len(calls) == (resample if classic else max(total // 2, 500)), f'{len(calls)} queries')
    env.check(all(c is calls[0] for c in calls), 'another tree')
    got = {}

    def walk(n, p):
        for i, d in n.children.items():
            got[p + (i,)] = n.input_frequencies.get(i, 0)
            for o, c in d.items():
                if c.children:
                    walk(c, p + (i, o))
    walk(calls[0], ())
    env.check(set(got) == set(want), 'other cells are sampled than the table needs')
    env.check(got == want, f'weights {got} instead of {want}')
    env.cover('sampled')
    if not classic and max(want.values(), default=0) > len(rows) * len(E):
        env.cover('ambiguous')


def h_closed(env, kind, k, L, na, strategy, cex, arb=6):
    """closed and consistent tables"""
    mdp = kind == 'mdp'
    off = 1 if mdp else 0
    A, t, counts, tab, cell = make_table(env, kind, k, L, na, strategy, cex, arb)
    # rows added by a counterexample
    s = tab.S[0]
    for j in range(env.choose(range(3), 'rows')):
        i, o = A[0] if na == 1 else env.choose(A, f'row{j}'), env.choose([X, Y], f'rowout{j}')
        s += (i, o)
        tab.S.append(s)
    tab.update_obs_table_with_freq_obs()
    tab.make_closed_and_consistent()
    S, E = list(tab.S), list(tab.E)
    at = lambda tr: counts.get(tr[off:-1], tr[-1])
    reps = tab.compatibility_classes_representatives

    def similar(s1, s2):
        if mdp and s1[-1] != s2[-1]:
            return False
        return not any(cell(at(s1 + e), at(s2 + e), s1 + e, s2 + e) for e in E)
    env.check(len(set(S)) == len(S) and len(set(E)) == len(E), 'a row or column twice')
    env.check(all(r in S for r in reps) and len(set(reps)) == len(reps), 'a representative that is no row')
    for n, r in enumerate(reps):
        env.check(not any(similar(r, q) for q in reps[:n]), 'two compatible representatives')
    for s in S:
        env.check(any(similar(r, s) for r in reps), 'a row without representative')
        env.check(tab.get_representative(s) in reps and similar(tab.get_representative(s), s), 'representative of a row')
    for s in S:
        for i in A:
            f = at(s + (i,))
            env.check(tab.T[s][(i,)] == f, 'a cell is not what was observed')
            for o in f:
                n = s + (i, o)
                env.check(any(similar(r, n) for r in reps), 'the table is not closed')
                g = tab.get_representative(n)
                env.check(g in reps and similar(g, n), 'representative of an extension')
    if cex is None:
        for n, s1 in enumerate(S):
            for s2 in S[n + 1:]:
                if not similar(s1, s2):
                    continue
                for i in A:
                    for o in set(at(s1 + (i,))) & set(at(s2 + (i,))):
                        p, q = s1 + (i, o), s2 + (i, o)
                        env.check(not any(cell(at(p + e), at(q + e), p + e, q + e) for e in E), 'the table is not consistent')
                        env.cover('pair')
    env.cover('closed')
    if len(E) > na:
        env.cover('column')
    if len(reps) > 1:
        env.cover('rows')


def h_cex(env, kind, strategy, processing, rounds, L):
    """counterexamples enter the table in the documented way"""
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable as Tab
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    from aalpy.base import Oracle
    mdp = kind == 'mdp'
    refine, query, hyp = Tab.refine_not_completed_cells, StochasticTeacher.tree_query, Tab.generate_hypothesis
    state = dict(n=0, round=0, cex=None, S=None, E=None, table=None, sampled=0, given=[])

    def my_gen(self):
        state['table'] = self
        state['round'] += 1
        state['cex'] = None
        h = hyp(self)
        state['h'] = h
        return h

    def my_eq(self, h):
        tab = state['table']
        env.check(not any((s.output if mdp else s.state_id) == 'chaos' for s in h.states), 'an equivalence query with a chaos state')
        state['n'] += 1
        if state['n'] > rounds or not env.choose(2, f'cex{state["n"]}'):
            return None
        tr = (X,) if mdp else ()
        for j in range(env.choose(range(L + 1), f'len{state["n"]}')):
            tr += ('a', env.choose([X, Y], f'o{state["n"]}.{j}'))
        tr += ('a',)
        state.update(cex=tr, S=list(tab.S), E=list(tab.E), X=list(tab.get_extended_s()))
        return tr

    def my_query(self, root):
        if state['sampled'] < 8 * (1 + state['round']):
            state['sampled'] += 1
            return query(self, root)

    def my_refine(self, *a, **kw):
        if state['cex'] is not None:
            cex, S, E = state['cex'], state['S'], state['E']
            off = 1 if mdp else 0
            if processing is None:
                pre = [cex[:n] for n in range(off, len(cex), 2)]
                want = S + [p for p in pre if p not in S]
                env.check(list(self.S) == want, f'rows after the counterexample {cex}: {self.S} instead of {want}')
                env.check(list(self.E) == E, 'columns changed')
                env.cover('rows' if want != S else 'known')
            else:
                ps = [p for p in S + state['X'] if p == cex[:len(p)]]
                suf = cex[max(map(len, ps), default=0):]
                want = E + ([suf] if suf not in E else [])
                env.check(list(self.E) == want, f'columns after the counterexample {cex}: {self.E} instead of {want}')
                env.check(list(self.S) == S, 'rows changed')
                env.cover('column' if want != E else 'known')
        refine(self, *a, **kw)
        return state['n'] < rounds + 1

    class No(Oracle):
        def find_cex(self, hypothesis):
            return None
    sul = AnySystem(env, mdp, 0, [X, Y])
    with patched((Tab, 'refine_not_completed_cells', my_refine), (Tab, 'generate_hypothesis', my_gen), (StochasticTeacher, 'equivalence_query', my_eq),
                 (StochasticTeacher, 'tree_query', my_query)), random_stubbed(budget=0, after=_r.Random(5)):
        run_stochastic_Lstar(['a'], sul, No(['a'], sul), automaton_type=kind, strategy=strategy, cex_processing=processing, min_rounds=3, max_rounds=rounds + 4,
                             n_c=2, n_resample=1, custom_oracle=True, print_level=0, target_unambiguity=2, stopping_range_dict={})


def h_equivalence(env, kind, na, L):
    """the counterexample of an equivalence query: the last one until the hypothesis explains it, then a new one"""
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    from aalpy.automata import Mdp, MdpState, StochasticMealyMachine, StochasticMealyState
    from aalpy.base import Oracle
    mdp = kind == 'mdp'
    A = ['a', 'b'][:na]
    off = (X,) if mdp else ()
    st = [MdpState('s0', X), MdpState('s1', Y)] if mdp else [StochasticMealyState('s0'), StochasticMealyState('s1')]
    allowed = {}
    for n, s in enumerate(st):
        for i in A:
            outs = env.choose([(X,), (Y,), (X, Y)], f'outs{n}{i}')
            for o in outs:
                if mdp:
                    tgt = 0 if o == X else 1
                    s.transitions[i].append((st[tgt], 1 / len(outs)))
                else:
                    tgt = env.choose(2, f't{n}{i}{o}')
                    s.transitions[i].append((st[tgt], o, 1 / len(outs)))
                allowed[n, i, o] = tgt
    h = (Mdp if mdp else StochasticMealyMachine)(st[0], list(st))

    def possible(cex):
        n, tr = 0, cex[len(off):]
        for x in range(0, len(tr) - 1, 2):
            n = allowed.get((n, tr[x], tr[x + 1]))
            if n is None:
                return False
        return True

    def trace(name):
        tr = off
        for j in range(env.choose(range(L + 1), f'{name}len')):
            tr += (env.choose(A, f'{name}i{j}'), env.choose([X, Y], f'{name}o{j}'))
        return tr + (env.choose(A, f'{name}last'),)
    answers, given = [], []

    class Ask(Oracle):
        def find_cex(self, hypothesis):
            env.check(hypothesis is h, 'another hypothesis is given to the oracle')
            c = trace(f'c{len(given)}') + (env.choose([X, Y], f'c{len(given)}out'),) if env.choose(2, f'cex{len(given)}') else None
            given.append(c)
            return c
    sul = AnySystem(env, mdp, 0, [X, Y])
    t = StochasticTeacher(sul, 1, Ask(A, sul), kind, None, None)
    last = None
    with random_stubbed(budget=0, after=_r.Random(1)):
        for r in range(2):
            before = len(given)
            got = t.equivalence_query(h)
            if last is not None and not possible(last):
                env.check(tuple(got) == last and len(given) == before, 'a counterexample is dropped before the hypothesis explains it')
                env.cover('again')
            else:
                env.check(len(given) == before + 1, 'the oracle is not asked')
                c = given[-1]
                env.check(got is None if c is None else tuple(got) == c[:-1], 'another counterexample than the one of the oracle')
                env.cover('new' if last else 'first')
                last = None if c is None else c[:-1]


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers, **kw):
        out.append(Config(name, fn, kw, covers=covers))
    for kind in ('mdp', 'smm'):
        for ex in (False, True):
            x = '-column' if ex else ''
            add(f'refine-{kind}-classic{x}', h_refine, ['sampled'] + ([] if ex else ['complete']), kind=kind, k=2, L=2, na=2 if T else 1, strategy='classic', extra=ex, cex='longest_prefix')
            add(f'refine-{kind}-normal{x}', h_refine, ['sampled'], kind=kind, k=3 if T else 2, L=3 if T else 2, na=1, strategy='normal', extra=ex, arb=6)
            add(f'refine-{kind}-uniform{x}', h_refine, ['sampled'], kind=kind, k=2, L=2, na=2, strategy='normal', extra=ex, uniform=True, arb=0)
        add(f'refine-{kind}-k3', h_refine, ['sampled'], kind=kind, k=3, L=2, na=1, strategy='normal', extra=False, arb=6)
        add(f'refine-{kind}-a2', h_refine, ['sampled'], kind=kind, k=2, L=2, na=2, strategy='normal', extra=False, arb=4)
        for cex in (None, 'longest_prefix'):
            add(f'closed-{kind}-{cex}', h_closed, ['closed', 'rows'] + (['pair', 'column'] if cex is None else []), kind=kind, k=3 if T else 2, L=3, na=1, strategy='own', cex=cex)
            add(f'closed2-{kind}-{cex}', h_closed, ['closed', 'rows'], kind=kind, k=2, L=2, na=2, strategy='own', cex=cex)
            for strategy in ('normal', 'classic'):
                add(f'cex-{kind}-{strategy}-{cex}', h_cex, ['rows' if cex is None else 'column', 'known'], kind=kind, strategy=strategy, processing=cex, rounds=2, L=3 if T else 2)
        add(f'equivalence-{kind}', h_equivalence, ['first', 'new', 'again'], kind=kind, na=1, L=3 if T else 2)
    return out
