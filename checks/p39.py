"""stopping criteria of stochastic L*"""
import random as _r
from engine.runner import Config
from engine.sym import And, Or, Not, truth
from engine.stubs import patched, random_stubbed

PROPERTY = 'P39'
OUTSIDE = 'more rounds, larger tables; ranges over more than three values; property-based stopping (P38)'
ASSUMPTIONS = ['the values compared by the ranges are those of the rounds without counterexample and without reachable chaos state',
               'the compatibility test may answer anything for two different cells, anew in every round, but symmetrically']


def table(env, kind, strategy, log, ck):
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable as Tab
    from checks.p28 import fill_teacher
    t, counts = fill_teacher(env, kind, log, 1, ck, [7, 11, 13][:len(log)])
    tab = Tab(['a'], kind, t, ck, strategy=strategy)
    return tab


def h_stop(env, kind, strategy, rounds, two):
    """every sequence of compatibility answers, counterexamples and chaos flags, all thresholds"""
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker
    x = 'x'
    memo = {}
    at = [0]
    off = 1 if kind == 'mdp' else 0

    class Diff(DifferenceChecker):
        def are_cells_different(self, c1, c2, s1=None, s2=None, e=None, **kw):
            k = frozenset((tuple(sorted(c1.items())), tuple(sorted(c2.items()))))
            if len(k) == 1:
                return False
            if not c1 or not c2:
                return False
            if k not in memo:
                memo[k] = env.choose([False, True], f'd{at[0]}_{len(memo)}')
            return memo[k]
    ck = Diff()
    # outputs after the empty trace and after its extensions; all rows have different frequencies
    log = [[('a', o), ('a', o), ('a', 'x')] for o in ('x', 'y', 'z')]
    tab = table(env, kind, strategy if strategy != 'own' else ck, log, ck)
    if two:
        tab.S.append(tab.S[0] + ('a', 'x'))
    tab.update_obs_table_with_freq_obs()
    rows = tab.S + list(tab.get_extended_s())
    rows = list(dict.fromkeys(rows))
    env.check(len(rows) == (5 if two else 4), 'rows of the table')
    n = len(rows)
    maxr = env.choose([None, rounds], 'max')
    minr = env.int('min', 0, rounds + 1)
    if maxr is not None:
        env.assume(minr <= maxr)
    target = env.real('target', 0, 2)
    ranges = {2: env.real('d2', 0, 1), 3: env.real('d3', 0, 1)} if strategy != 'classic' else {}
    env.assume(And(*(Or(target - v >= 0.001, v - target >= 0.001) for v in (k / n for k in range(n + 1)) if n == 5)))
    for d in ranges.values():
        if n == 5:
            env.assume(And(*(Or(d - v >= 0.001, v - d >= 0.001) for v in (k / n for k in range(n + 1)))))
    values = []
    for r in range(1, rounds + 1):
        at[0] = r
        memo.clear()
        chaos = env.choose([False, True], f'chaos{r}') if r > 1 else False
        cex = env.choose([None, ('a', 'x')], f'cex{r}')
        got = tab.stop(r, chaos, cex, dict(ranges), min_rounds=minr, max_rounds=maxr, target_unambiguity=target)
        if maxr is not None and r == maxr:
            env.check(got is True or truth(got), 'goes on after the maximum number of rounds')
            env.cover('max')
            return
        if chaos or cex is not None:
            env.check(not truth(got), 'stops although the round shows that the model is wrong or incomplete')
            env.cover('cex')
            continue
        reps = tab.compatibility_classes_representatives

        def different(s, t):
            if s == t or kind == 'mdp' and s[-1] != t[-1]:
                return s != t
            c1, c2 = (tab.teacher.frequency_query(z, ('a',)) for z in (s, t))
            if not c1 or not c2 or c1 == c2:
                return False
            return memo.get(frozenset((tuple(sorted(c1.items())), tuple(sorted(c2.items())))), None)
        amb = []
        for row in rows:
            ds = [different(row, p) for p in reps]
            env.check(all(d is not None for d in ds), 'a row was not compared with a representative')
            amb.append(sum(not d for d in ds) == 1)
        u = sum(amb) / n
        values.append(u)
        stop = [minr <= r, target <= u]
        want = And(*stop)
        for k, d in ranges.items():
            if len(values) >= k:
                last = values[-k:]
                want = Or(want, And(minr <= r, max(last) - min(last) <= d))
        if truth(got):
            env.check(want, 'stops although no criterion holds')
            env.cover('stop')
            return
        env.check(Not(want), 'does not stop although a criterion holds')
        env.cover('continue')
        if u < 1:
            env.cover('ambiguous')


def h_drive(env, kind, strategy, rounds):
    """the learner asks its criteria once per round with the facts of the round and obeys"""
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable as Tab
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    from aalpy.base import Oracle
    from checks.p28 import AnySystem
    mdp = kind == 'mdp'
    hi = env.choose([None] + list(range(1, rounds + 1)), 'max')
    lo = env.choose(range(1, (hi or rounds) + 1), 'min')
    cont, asked, found = {}, [], {}
    refine, gen, stop, query = Tab.refine_not_completed_cells, Tab.generate_hypothesis, Tab.stop, StochasticTeacher.tree_query
    at, sampled = [0], [0]
    hyps = []

    def my_gen(self):
        at[0] += 1
        h = gen(self)
        hyps.append(h)
        return h

    def my_query(self, root):
        if sampled[0] < 4 * (1 + at[0]):
            sampled[0] += 1
            return query(self, root)

    def my_refine(self, *a, **kw):
        refine(self, *a, **kw)
        if at[0] == 0:
            return True
        cont[at[0]] = env.choose([True, False], f'refined{at[0]}')
        return cont[at[0]]

    def my_stop(self, learning_round, chaos_cex_present, cex, stopping_range_dict, **kw):
        env.check(learning_round == at[0], 'wrong number of the round')
        env.check((cex is None) == (found.get(at[0]) is None), 'wrong counterexample')
        env.check(kw.get('min_rounds') == lo and kw.get('max_rounds') == hi and kw.get('target_unambiguity') == 0.75, 'options are not passed on')
        env.check(stopping_range_dict == {3: 0.125}, 'ranges are not passed on')
        st = hyps[-1].states
        env.check(bool(chaos_cex_present) == any((s.output if mdp else s.state_id) == 'chaos' for s in st), 'wrong chaos flag')
        asked.append((learning_round, env.choose([False, True], f'stop{at[0]}') or learning_round in (hi, rounds)))
        return asked[-1][1]

    class MaybeCex(Oracle):
        def find_cex(self, hypothesis):
            found[at[0]] = None
            return None
    sul = AnySystem(env, mdp, 0, ['x', 'y'])
    with patched((Tab, 'refine_not_completed_cells', my_refine), (Tab, 'generate_hypothesis', my_gen), (Tab, 'stop', my_stop), (StochasticTeacher, 'tree_query', my_query)), \
            random_stubbed(budget=0, after=_r.Random(3)):
        h, info = run_stochastic_Lstar(['a'], sul, MaybeCex(['a'], sul), automaton_type=kind, strategy=strategy, min_rounds=lo, max_rounds=hi,
                                       n_c=2, n_resample=1, custom_oracle=True, return_data=True, print_level=0,
                                       target_unambiguity=0.75, stopping_range_dict={3: 0.125})
    r = info['learning_rounds']
    env.check(r == at[0], 'the reported number of rounds is not the executed one')
    env.check(info['automaton_size'] == len(h.states), 'wrong size')
    env.check(h is hyps[-1], 'the returned model is not the last hypothesis')
    env.check([a for a, _ in asked] == list(range(1, r + 1)) or asked and [a for a, _ in asked] == list(range(1, r)) and not cont.get(r, True), 'the criteria are not evaluated in every round')
    for k in range(1, r):
        env.check(not dict(asked).get(k) and cont[k], 'goes on although it should stop')
    env.check(dict(asked).get(r) or not cont.get(r, True), 'stops without reason')
    env.check(hi is None or r <= hi, 'more rounds than allowed')
    env.cover('limit' if r == hi else 'early')


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('mdp', 'smm'):
        for strategy in ('normal', 'chi2', 'classic', 'own'):
            if kind == 'mdp' and strategy in ('chi2', 'own'):
                continue
            cov = ['max', 'cex', 'stop', 'continue']
            out.append(Config(f'stop-{kind}-{strategy}', h_stop, dict(kind=kind, strategy=strategy, rounds=3 + T, two=False), covers=cov))
            out.append(Config(f'stop2-{kind}-{strategy}', h_stop, dict(kind=kind, strategy=strategy, rounds=2 + T, two=True), covers=cov))
        for strategy in ('normal', 'chi2', 'classic'):
            out.append(Config(f'drive-{kind}-{strategy}', h_drive, dict(kind=kind, strategy=strategy, rounds=4 if T else 3), covers=['limit', 'early']))
    return out
