"""sampling-based stochastic L*"""
import random as _r
from engine.runner import Config
from engine.models import words
from engine.sym import Eq, And, Or, Not, truth, Sym
from engine.stubs import random_stubbed, patched
from aalpy.base import SUL

PROPERTY = 'P28'
OUTSIDE = 'more sampled traces per round (only the first calls of the sampling routine sample), more rounds and outputs; cex processing "rs" (documented as experimental); property-based stopping (needs PRISM)'
ASSUMPTIONS = ['the first answers of the system and the first random draws are arbitrary, later ones follow a fixed pseudo-random sequence',
               'in the table configurations every observed trace has an arbitrary positive frequency (consistent along the trace) and the compatibility test may answer anything']

X, Y = 'x', 'y'


class AnySystem(SUL):
    """answers arbitrarily (budget), records everything"""

    def __init__(self, env, mdp, budget, outs=(X, Y), after=1):
        super().__init__()
        self.env, self.mdp, self.budget, self.outs = env, mdp, budget, list(outs)
        self.rng = _r.Random(after)
        self.log = []
        self.steps = 0

    def pre(self):
        self.log.append([])

    def post(self):
        pass

    def step(self, letter):
        if letter is None:
            return X
        self.steps += 1
        if self.budget > 0:
            self.budget -= 1
            o = self.env.choose(self.outs, 'o')
        else:
            o = self.rng.choice(self.outs)
        self.log[-1].append((letter, o))
        return o


class Counts:
    """frequencies of outputs after traces, from the raw log"""

    def __init__(self):
        self.c = {}

    def add(self, query, w=1):
        p = ()
        for i, o in query:
            d = self.c.setdefault(p, {}).setdefault(i, {})
            d[o] = d.get(o, 0) + w
            p += (i, o)

    def get(self, p, i):
        return self.c.get(p, {}).get(i, {})


def dist(h, s, i, mdp):
    """[(target, output, probability)]"""
    return [(t[0], t[0].output, t[1]) if mdp else (t[0], t[1], t[2]) for t in s.transitions.get(i, [])]


def mismatch(h, A, mdp, counts, complete, different, init='x'):
    """None if the hypothesis is what the observations say, otherwise (condition, message) pairs"""
    conj = []
    ids = {id(s) for s in h.states}
    if len({s.state_id for s in h.states}) != len(h.states):
        return [(False, 'state ids are not unique')]
    if not any(s is h.initial_state for s in h.states):
        return [(False, 'initial state is not a state of the model')]

    def is_chaos(s):
        return s.output == 'chaos' if mdp else s.state_id == 'chaos'
    reached_chaos = False
    off = 1 if mdp else 0
    for s in h.states:
        for i in A:
            d = dist(h, s, i, mdp)
            if is_chaos(s):
                conj.append((len(d) == 1 and d[0][0] is s and d[0][2] == 1, 'the chaos state must be a sink'))
                continue
            f = counts.get(s.prefix[off:], i)
            tot = sum(f.values())
            if any(is_chaos(t) for t, _, _ in d):
                reached_chaos = True
                conj.append((len(d) == 1 and d[0][2] == 1 and d[0][1] == 'chaos', 'chaos must be the only successor'))
                conj.append((not f or not truth(complete(tot)), 'observed behaviour leads to chaos'))
                continue
            conj.append((bool(f) and truth(complete(tot)), 'unobserved behaviour does not lead to chaos'))
            conj.append((sorted(o for _, o, _ in d) == sorted(f), 'the outputs of a state are not the observed ones'))
            for t, o, p in d:
                if o not in f:
                    continue
                if id(t) not in ids:
                    conj.append((False, 'a transition leaves the model'))
                    continue
                if isinstance(tot, Sym):
                    conj.append((Eq(p * tot, f[o]), 'a probability is not the relative frequency'))
                else:
                    conj.append((abs(p * tot - f[o]) < 1e-9, 'a probability is not the relative frequency'))
                conj.append((not different(t.prefix, s.prefix + (i, o)), 'an output leads to an incompatible state'))
        if mdp and not is_chaos(s):
            conj.append((s.prefix[-1] == s.output, 'the output of a state is not that of its trace'))
    conj.append((any(is_chaos(s) for s in h.states) == reached_chaos, 'the chaos state is part of the model exactly when it is reachable'))
    first = (init,) if mdp else ()
    conj.append((not different(h.initial_state.prefix, first), 'the initial state is not compatible with the start'))
    if mdp:
        conj.append((h.initial_state.output == init, 'wrong initial output'))
    return conj


def h_run(env, kind, strategy, cex_processing, samples, rounds, calls, budget, draws, n_c=1, oracle_steps=3, na=1, nout=2):
    """the whole learner; every hypothesis shown to the oracle and the returned one are checked against the raw log"""
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker, HoeffdingChecker, AdvancedHoeffdingChecker, ChiSquareChecker
    from aalpy.oracles import RandomWalkEqOracle
    mdp = kind == 'mdp'
    A = ['a', 'b'][:na]
    sul = AnySystem(env, mdp, budget, [X, Y, 'z'][:nout])
    classic = strategy == 'classic'
    checker = {'classic': HoeffdingChecker, 'normal': AdvancedHoeffdingChecker, 'chi2': ChiSquareChecker}.get(strategy, lambda: None)()
    if strategy == 'custom':
        class Diff(DifferenceChecker):
            """different support = different"""

            def are_cells_different(self, c1, c2, **kw):
                return bool(c1) and bool(c2) and set(c1) != set(c2)
        checker = Diff()
    complete = (lambda n: n >= n_c) if classic else (lambda n: n > 0)
    off = 1 if mdp else 0

    def different_in(counts):
        def different(t1, t2):
            if mdp and t1[-1:] != t2[-1:]:
                return True
            if t1 == t2:
                return False
            for i in A:
                c1, c2 = counts.get(t1[off:], i), counts.get(t2[off:], i)
                if classic and not (sum(c1.values()) >= n_c and sum(c2.values()) >= n_c):
                    continue
                if checker.are_cells_different(c1, c2):
                    return True
            return False
        return different

    def counts_of(k):
        c = Counts()
        for q in sul.log[:k]:
            c.add(q)
        return c

    def check_now(h):
        c = counts_of(len(sul.log))
        for ok, msg in mismatch(h, A, mdp, c, complete, different_in(c)):
            env.check(ok, msg)
        env.cover('hypothesis')

    shown = []

    class Oracle(RandomWalkEqOracle):
        def find_cex(self, hypothesis):
            check_now(hypothesis)
            shown.append(hypothesis)
            cex = super().find_cex(hypothesis)
            if cex is not None:
                env.cover('cex')
                self.check_cex(hypothesis, cex)
            return cex

        def check_cex(self, h, cex):
            q = sul.log[-1]
            env.check(tuple(cex[off:]) == tuple(x for io in q for x in io), 'counterexample is not the trace of the system')

    orc = Oracle(A, sul, num_steps=oracle_steps, reset_prob=0.4)
    left = [0]
    orig = StochasticTeacher.tree_query
    real_refine = None

    def tree_query(self, root):
        # each round samples `calls` traces
        if left[0] < calls * (1 + rounds_seen[0]):
            left[0] += 1
            return orig(self, root)
    rounds_seen = [0]
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable as Tab
    orig_gen = Tab.generate_hypothesis

    def gen(self):
        rounds_seen[0] += 1
        return orig_gen(self)
    pr = _r.Random(2)
    with random_stubbed(budget=draws, after=pr), patched((StochasticTeacher, 'tree_query', tree_query), (Tab, 'generate_hypothesis', gen)):
        h, info = run_stochastic_Lstar(A, sul, orc, automaton_type=kind, strategy=strategy if strategy != 'custom' else checker,
                                       cex_processing=cex_processing, samples_cex_strategy=samples, min_rounds=1, max_rounds=rounds,
                                       n_c=n_c, n_resample=calls, custom_oracle=True, return_data=True, print_level=0)
    from aalpy.automata import Mdp, StochasticMealyMachine
    env.check(type(h) is (Mdp if mdp else StochasticMealyMachine), 'model of another type')
    if not any(h is s for s in shown):
        # generated at some earlier point of the log
        c = Counts()
        ok = False
        msgs = []
        for k in range(len(sul.log) + 1):
            if k:
                c.add(sul.log[k - 1])
            bad = [m for cond, m in mismatch(h, A, mdp, c, complete, different_in(c)) if not cond]
            msgs = bad if not msgs or len(bad) < len(msgs) else msgs
            if not bad:
                ok = True
                break
        env.check(ok, 'the returned model never was what the observations say: ' + '; '.join(msgs[:1]))
    env.cover('done')
    if len(h.states) > 2:
        env.cover('multi')
    env.check(info['automaton_size'] == len(h.states) == h.size, 'reported size')
    env.check(info['learning_rounds'] <= rounds, 'reported rounds')
    ql = len(sul.log) - (1 if mdp else 0)
    env.check(info['queries_learning'] + info['queries_eq_oracle'] == ql, 'reported number of queries')
    env.check(info['steps_learning'] + info['steps_eq_oracle'] == sul.steps, 'reported number of steps')


def any_log(env, A, outs, k, L):
    """k queries of given lengths with arbitrary inputs and outputs"""
    log = []
    for j in range(k):
        ln = env.choose(list(range(1, L + 1)), f'len{j}')
        log.append([(env.choose(A, f'i{j}.{x}'), env.choose(outs, f'o{j}.{x}')) for x in range(ln)])
    return log


class Replay(SUL):
    def __init__(self, log):
        super().__init__()
        self.todo = list(log)

    def pre(self):
        self.cur = list(self.todo.pop(0)) if self.todo else []

    def post(self):
        pass

    def step(self, letter):
        if letter is None:
            return X
        return self.cur.pop(0)[1]


def fill_teacher(env, kind, log, n_c, checker, weights=None, samples=None):
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    mdp = kind == 'mdp'
    t = StochasticTeacher(Replay(([[]] if mdp else []) + log), n_c, None, kind, checker, samples)
    for q in log:
        t.sul.pre()
        for i, _ in q:
            t.sul.step(i)
        t.sul.post()
    counts = Counts()
    for j, q in enumerate(log):
        counts.add(q, 1 if weights is None else weights[j])
    if weights is not None:
        # every query was made arbitrarily often
        def walk(n, p):
            for i, d in n.children.items():
                n.input_frequencies[i] = sum(counts.get(p, i).values())
                for o, c in d.items():
                    c.frequency = counts.get(p, i)[o]
                    walk(c, p + (i, o))
        walk(t.root_node, ())
    return t, counts


def h_teacher(env, kind, k, L, na, Lq):
    """frequencies and completeness of queries are those of the recorded traces"""
    mdp = kind == 'mdp'
    A = ['a', 'b'][:na]
    log = any_log(env, A, [X, Y], k, L)
    n_c = env.int('n_c', 1, 9)
    weights = [env.int(f'w{j}', 1, 9) for j in range(k)]
    t, counts = fill_teacher(env, kind, log, n_c, None, weights)
    off = (X,) if mdp else ()
    for ls in range(Lq):
        for le in range(1, Lq - ls + 1):
            for ins in words(A, ls + le, ls + le):
                for outs in words([X, Y], ls + le - 1, ls + le - 1):
                    tr = []
                    for i, o in zip(ins, outs):
                        tr += [i, o]
                    s, e = off + tuple(tr[:2 * ls]), tuple(tr[2 * ls:]) + (ins[-1],)
                    # completeness: enough observations of the input at the end or where the trace was left
                    p, need = (), None
                    for i, o in zip(ins, outs):
                        if o not in counts.get(p, i):
                            need = sum(counts.get(p, i).values())
                            break
                        p += (i, o)
                    left = need is not None
                    if not left:
                        need = sum(counts.get(p, ins[-1]).values())
                    f = {} if left else counts.get(p, ins[-1])
                    for rnd in range(2):
                        got = t.complete_query(s, e)
                        env.check(Eq(truth(need >= n_c), got), 'complete_query disagrees with the recorded traces')
                        fr = t.frequency_query(s, e)
                        env.check(set(fr) == set(f), 'frequency_query has other outputs than recorded')
                        env.check(And([Eq(fr[o], f[o]) for o in f if o in fr]), 'frequency_query counts differ')
    env.cover('queried')


def h_tree(env, kind, paths, L, na, uncertain):
    """tree queries: sampled inputs follow the tree, are drawn by their weight, and everything executed is recorded"""
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher, Node
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable
    mdp = kind == 'mdp'
    A = ['a', 'b'][:na]
    sul = AnySystem(env, mdp, 99, [X, Y])
    t = StochasticTeacher(sul, 1, None, kind, None)
    tab = SamplingBasedObservationTable(A, kind, t, None)
    root = Node(X if mdp else None)
    off = (X,) if mdp else ()
    tree = {}
    weight = {}
    for j in range(paths):
        ln = env.choose(list(range(1, L + 1)), f'len{j}')
        tr = []
        for x in range(ln):
            tr += [env.choose(A, f'i{j}.{x}'), env.choose([X, Y], f'o{j}.{x}')]
        tr = tuple(tr[:-1])
        w = env.int(f'w{j}', 1, 9) if uncertain else None
        tab.add_to_PTA(root, off + tr, w)
        for x in range(0, len(tr), 2):
            tree.setdefault(tr[:x], []).append(tr[x])
            weight.setdefault((tr[:x], tr[x]), 0)
            if w is not None:
                weight[tr[:x], tr[x]] = weight[tr[:x], tr[x]] + w
    n0 = len(sul.log)
    with random_stubbed() as st:
        t.tree_query(root)
    env.check(len(sul.log) == n0 + 1, 'one tree query is one query to the system')
    q = sul.log[-1]
    p = ()
    for n, (i, o) in enumerate(q):
        env.check(i in tree.get(p, []), 'a tree query leaves the tree')
        if uncertain:
            ins = list(dict.fromkeys(tree[p]))
            r = [c[1] for c in st.calls if c[0] == 'random'][n]
            tot = sum(weight[p, x] for x in ins)
            lo = 0
            conj = False
            for x in ins:
                hi = lo + weight[p, x]
                if x == i:
                    conj = And(truth(r * tot <= hi), Or(truth(r * tot > lo), lo == 0 if not isinstance(lo, Sym) else False))
                lo = hi
            env.check(conj, 'an input is not drawn by its weight')
        p += (i, o)
    env.check(p not in tree, 'a tree query stops although the tree continues')
    # recorded in the teacher
    pp = ()
    for i, o in q:
        f = t.frequency_query(off + pp, (i,))
        env.check(f == {o: 1}, 'a sampled trace is not recorded')
        pp += (i, o)
    env.cover('sampled')


def h_table(env, kind, k, L, na, classic=False, weights=True, cex=None, arb=None, near=False):
    """hypotheses from arbitrary recorded traces, frequencies and compatibility"""
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker
    mdp = kind == 'mdp'
    A = ['a', 'b'][:na]
    log = any_log(env, A, [X, Y], k, L)
    n_c = env.int('n_c', 1, 9) if classic else 1
    ws = [env.int(f'w{j}', 1, 9) for j in range(k)] if weights else None
    memo = {}
    off = 1 if mdp else 0

    def cell(c1, c2, t1, t2):
        if not c1 or not c2 or t1 == t2:
            return False
        key = frozenset((t1, t2))
        if key not in memo:
            memo[key] = bool(env.choose(2, f'd{len(memo)}')) if arb is None or len(memo) < arb else set(c1) != set(c2)
        return memo[key]

    class Diff(DifferenceChecker):
        def are_cells_different(self, c1, c2, s1=None, s2=None, e=None, **kw):
            if s1 is None:
                return bool(c1) and bool(c2) and set(c1) != set(c2)
            return cell(c1, c2, s1 + e, s2 + e)

        def use_diff_value(self):
            return near

        def difference_value(self, c1, c2):
            return distance(c1, c2)
    dists = {}

    def distance(c1, c2):
        # an arbitrary function of the two cells
        key = tuple(sorted((o, n) for o, n in (c or {}).items()) for c in (c1, c2))
        key = (tuple(key[0]), tuple(key[1]))
        if key not in dists:
            dists[key] = env.int(f'v{len(dists)}', 0, 9)
        return dists[key]
    ck = Diff()
    t, counts = fill_teacher(env, kind, log, n_c, ck, ws)
    tab = SamplingBasedObservationTable(A, kind, t, ck, strategy='classic' if classic else ck, cex_processing=cex)
    tab.update_obs_table_with_freq_obs()
    tab.make_closed_and_consistent()
    h = tab.generate_hypothesis()
    reach = tab.chaos_counterexample(h)
    if not reach:
        h.states.remove(next(s for s in h.states if (s.output == 'chaos' if mdp else s.state_id == 'chaos')))
    complete = (lambda n: truth(n >= n_c)) if classic else (lambda n: n > 0)

    def different(t1, t2):
        if mdp and t1[-1:] != t2[-1:]:
            return True
        for i in A:
            c1, c2 = counts.get(t1[off:], i), counts.get(t2[off:], i)
            if classic:
                if not (c1 and c2 and complete(sum(c1.values())) and complete(sum(c2.values()))):
                    continue
                if set(c1) != set(c2):
                    return True
            elif cell(c1, c2, t1 + (i,), t2 + (i,)):
                return True
        return False
    for ok, msg in mismatch(h, A, mdp, counts, complete, different):
        env.check(ok, msg)
    if near:
        # the successor is a nearest one among the compatible states
        cells = [e for e in tab.E]
        at = lambda tr, e: counts.get(tr[off:] + e[:-1], e[-1])
        reps = [s.prefix for s in h.states if (s.output if mdp else s.state_id) != 'chaos']
        for s in h.states:
            if s.prefix not in reps:
                continue
            for i in A:
                for tgt, o, _ in dist(h, s, i, mdp):
                    tr = s.prefix + (i, o)
                    if tgt.prefix not in reps or tr in reps:
                        continue
                    d0 = sum(distance(at(tgt.prefix, e), at(tr, e)) for e in cells)
                    for r in reps:
                        if r != tgt.prefix and not (mdp and r[-1] != tr[-1]) \
                                and not any(cell(at(r, e), at(tr, e), r + e, tr + e) for e in cells):
                            env.check(truth(d0 <= sum(distance(at(r, e), at(tr, e)) for e in cells)), 'another compatible state is nearer')
                            env.cover('nearest')
    env.check(reach == any(o == 'chaos' for s in h.states for i in A for _, o, _ in dist(h, s, i, mdp) if (s.output if mdp else s.state_id) != 'chaos'), 'reachability of chaos')
    for s in h.states:
        if (s.output if mdp else s.state_id) != 'chaos':
            env.check(s.prefix[off:] == () or s.prefix[off:-2] in counts.c and s.prefix[-1] in counts.get(s.prefix[off:-2], s.prefix[-2]), 'a state that was never observed')
    env.cover('hypothesis')
    if len(h.states) > 2:
        env.cover('multi')


def h_samples(env, kind, k, L, strategy):
    """counterexamples searched in the recorded traces"""
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker
    mdp = kind == 'mdp'
    A = ['a']
    log = any_log(env, A, [X, Y], k, L)

    class Diff(DifferenceChecker):
        def are_cells_different(self, c1, c2, **kw):
            return bool(c1) and bool(c2) and set(c1) != set(c2)
    ck = Diff()
    t, counts = fill_teacher(env, kind, log, 1, ck, None, strategy)
    # a hypothesis: one or two states (per output for MDPs), representatives taken from the log
    from aalpy.automata import Mdp, MdpState, StochasticMealyMachine, StochasticMealyState
    off = (X,) if mdp else ()
    two = bool(env.choose(2, 'two states'))
    if mdp:
        s = [MdpState('s0', X)] + ([MdpState('s1', Y)] if two else [])
        s[0].prefix = (X,)
        if two:
            s[1].prefix = (X, 'a', Y)
        for i, q in enumerate(s):
            ts = s if two and env.choose(2, f't{i}') else [s[env.choose(len(s), f'd{i}')]]
            q.transitions['a'] = [(x, 1 / len(ts)) for x in ts]
        h = Mdp(s[0], s)
    else:
        s = [StochasticMealyState('s0')] + ([StochasticMealyState('s1')] if two else [])
        s[0].prefix = ()
        if two:
            s[1].prefix = ('a', Y)
        for i, q in enumerate(s):
            outs = [[X], [Y], [X, Y]][env.choose(3, f'o{i}')]
            q.transitions['a'] = [(s[env.choose(len(s), f'd{i}{o}')], o, 1 / len(outs)) for o in outs]
        h = StochasticMealyMachine(s[0], s)

    def wrong(tr, q):
        """the recorded behaviour after tr contradicts state q"""
        f = counts.get(tr, 'a')
        rep = counts.get(q.prefix[1 if mdp else 0:], 'a')
        if off + tr != q.prefix and ck.are_cells_different(f, rep):
            return True
        return any(o not in [x[1] for x in dist(h, q, 'a', mdp)] for o in f)

    todo = [((), h.initial_state)]
    bad = set()
    seen = 0
    while todo:
        tr, q = todo.pop(0)
        if not counts.get(tr, 'a'):
            continue
        if wrong(tr, q):
            bad.add(off + tr + ('a',))
        for o in counts.get(tr, 'a'):
            todo += [(tr + ('a', o), x[0]) for x in dist(h, q, 'a', mdp) if x[1] == o][:1]
    if strategy == 'bfs':
        cex = t.bfs_for_cex_in_tree(h)
        env.check((cex is None) == (not bad), 'a recorded counterexample is missed or invented')
        if cex is not None:
            env.check(cex in bad and len(cex) == min(len(b) for b in bad), 'the counterexample is not a shortest contradiction')
    else:
        with random_stubbed():
            cex = t.dfs_for_cex_in_tree(h, 2, 0.3)
        if cex is not None:
            env.check(cex in bad, 'the counterexample is not genuine')
    env.cover('cex' if cex is not None else 'none')


# these also with the letters 0, 1, ...
ZERO = ['mdp-table-a2', 'smm-tree', 'mdp-run-custom-None-random:1:0.5', 'smm-bfs']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers=(), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=60))
    for kind in ('mdp', 'smm'):
        add(f'{kind}-teacher', h_teacher, ['queried'], kind=kind, k=2, L=2, na=1, Lq=3)
        add(f'{kind}-teacher-a2', h_teacher, ['queried'], kind=kind, k=2, L=2 if T else 1, na=2, Lq=2)
        add(f'{kind}-tree', h_tree, ['sampled'], kind=kind, paths=2, L=2, na=2, uncertain=False)
        add(f'{kind}-treew', h_tree, ['sampled'], kind=kind, paths=2, L=2, na=2, uncertain=True)
        add(f'{kind}-table', h_table, ['hypothesis', 'multi'], kind=kind, k=2, L=2, na=1)
        add(f'{kind}-table-k3', h_table, ['hypothesis', 'multi'], kind=kind, k=3, L=2, na=1, weights=False)
        add(f'{kind}-table-a2', h_table, ['hypothesis', 'multi'], kind=kind, k=2, L=2, na=2, weights=False)
        add(f'{kind}-table-classic', h_table, ['hypothesis', 'multi'], kind=kind, k=2, L=2, na=1, classic=True)
        add(f'{kind}-table-cex', h_table, ['hypothesis'], kind=kind, k=2, L=2, na=1, cex='longest_prefix')
        add(f'{kind}-table-near', h_table, ['hypothesis', 'multi', 'nearest'], kind=kind, k=3, L=2, na=1, weights=False, near=True, arb=6)
        add(f'{kind}-bfs', h_samples, ['cex', 'none'], kind=kind, k=2, L=2, strategy='bfs')
        add(f'{kind}-dfs', h_samples, ['cex', 'none'], kind=kind, k=2, L=2, strategy='random:2:0.3')
        for st in ('classic', 'normal', 'chi2', 'custom'):
            for cp in (None, 'longest_prefix'):
                for sa in (None, 'bfs', 'random:1:0.5'):
                    if not T and (cp, sa) not in ((None, None), ('longest_prefix', 'bfs'), (None, 'random:1:0.5')):
                        continue
                    add(f'{kind}-run-{st}-{cp}-{sa}', h_run, ['done'], kind=kind, strategy=st, cex_processing=cp, samples=sa, rounds=3 if not T else 4, calls=3 if not T else 4, budget=8 if not T else 11, draws=3)
        add(f'{kind}-run-a2', h_run, ['done', 'hypothesis'], kind=kind, strategy='normal', cex_processing=None, samples='bfs', rounds=2, calls=4, budget=6 if not T else 9, draws=4, na=2)
        if T:
            add(f'{kind}-table-k4', h_table, ['hypothesis', 'multi'], kind=kind, k=4, L=2, na=1, weights=False, arb=5)
            add(f'{kind}-table-L3', h_table, ['hypothesis', 'multi'], kind=kind, k=2, L=3, na=1)
            add(f'{kind}-table-w3', h_table, ['hypothesis', 'multi'], kind=kind, k=3, L=2, na=1)
            add(f'{kind}-table-classic3', h_table, ['hypothesis', 'multi'], kind=kind, k=3, L=2, na=1, classic=True)
            add(f'{kind}-teacher3', h_teacher, ['queried'], kind=kind, k=3, L=2, na=1, Lq=3)
            add(f'{kind}-bfs3', h_samples, ['cex', 'none'], kind=kind, k=3, L=2, strategy='bfs')
            add(f'{kind}-run-o3', h_run, ['done', 'hypothesis'], kind=kind, strategy='custom', cex_processing=None, samples='bfs', rounds=3, calls=3, budget=7, draws=3, nout=3)
            for cp in (None, 'longest_prefix'):
                add(f'{kind}-run-nc2-{cp}', h_run, ['done'], kind=kind, strategy='classic', cex_processing=cp, samples='bfs', rounds=4, calls=4, budget=10, draws=3, n_c=2)
    return out
