"""generic state merging"""
import itertools
from engine.runner import Config
from engine.models import words
from engine.sym import Eq, And, Or, Not, truth, Sym
from engine.nd import NdTables

PROPERTY = 'P27'
OUTSIDE = 'longer or more traces, larger alphabets; outputs None (the marker for unknown outputs); Moore traces with different initial outputs'
ASSUMPTIONS = ['deterministic learning gets deterministic traces', 'the user-supplied compatibility and score functions may answer anything (symbolic answers) in the "any" configurations',
               'trace multiplicities are arbitrary positive integers in the stochastic "any" configurations']

BEHS = ['deterministic', 'nondeterministic', 'stochastic']


def pick_words(env, na, L, k, lo=1):
    A = ['a', 'b', 'c'][:na]
    combs = list(itertools.combinations_with_replacement(list(words(A, lo, L)), k))
    return A, list(combs[env.choose(len(combs), 'words')])


def traces(env, ob, beh, ws, outs):
    """input/output traces along the input words; the same prefix has the same output in deterministic data"""
    memo = {}

    def out(j, p):
        key = p if beh == 'deterministic' else (j, p)
        if key not in memo:
            memo[key] = env.val(f'o{len(memo)}') if outs is None else env.choose(list(range(outs)), f'o{len(memo)}')
        return memo[key]
    o0 = env.val('init') if outs is None else 0
    return [([o0] if ob == 'moore' else []) + [(w[i], out(j, w[:i + 1])) for i in range(len(w))] for j, w in enumerate(ws)]


def order_fn(kind):
    if kind == 'reverse':
        return lambda a, b: not a < b
    if kind == 'short':
        return lambda a, b: a.get_prefix_length() < b.get_prefix_length()
    if kind == 'input':
        return lambda a, b: a.get_prefix(False) < b.get_prefix(False)
    return None


class Answers:
    """a budget of arbitrary answers, afterwards always the last given default"""

    def __init__(self, env, n):
        self.env, self.n, self.i = env, n, 0

    def pick(self, opts, default):
        if self.i >= self.n:
            return default
        self.i += 1
        return opts[self.env.choose(len(opts), f'ans{self.i}')]


def make_score(env, name, beh, budget=3):
    from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as S
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    det = GsmNode.deterministic_compatible
    if name is None:
        return None
    if name == 'any':
        an = Answers(env, budget)
        return S.ScoreCalculation(lambda a, b: an.pick([True, False], True), lambda p: an.pick([1, 2, False, True], 1))
    if name == 'anylocal':
        an = Answers(env, budget)
        return S.ScoreCalculation(lambda a, b: an.pick([True, False], True))
    base = {'edsm': lambda: S.ScoreCalculation(det, S.EDSM_score()),
            'edsm0': lambda: S.ScoreCalculation(det, S.EDSM_score(1)),
            'freq': lambda: S.ScoreCalculation(score_function=S.EDSM_frequency_score()),
            'aic': lambda: S.ScoreCalculation(det if beh != 'stochastic' else None, S.AIC_score(-1)),
            'greedy': lambda: S.make_greedy(S.ScoreCalculation(score_function=S.AIC_score(0))),
            'threshold': lambda: S.lower_threshold(S.ScoreCalculation(det, S.EDSM_score()), 0),
            'greedyfn': lambda: S.ScoreCalculation(None, S.make_greedy(S.EDSM_score(0))),
            'sinks': lambda: S.ScoreWithSinks(S.ScoreCalculation(det), lambda n: not n.transitions),
            'sinks2': lambda: S.ScoreWithSinks(S.ScoreCalculation(), lambda n: len(n.transitions) < 2, False),
            'ktail': lambda: S.ScoreWithKTail(S.ScoreCalculation(det), 1),
            'comb': lambda: S.ScoreCombinator([S.ScoreCalculation(det, S.EDSM_score()), S.ScoreCalculation(score_function=S.AIC_score(-5))]),
            'comb2': lambda: S.ScoreCombinator([S.ScoreCalculation(lambda a, b: None), S.ScoreCalculation(det)], None, all),
            'l2g': lambda: S.ScoreCalculation(None, S.local_to_global_compatibility(det)),
            'hoeffding': lambda: S.ScoreCalculation(S.hoeffding_compatibility(0.9, False))}[name]
    return base()


def walk(env, m, t, ob, beh, trace, usage=None, weight=1):
    """the trace on the tables of the model; every step must be unique"""
    s = t.init
    start = 0
    conj = []
    if ob == 'moore':
        conj.append(Eq(t.out[s], trace[0]))
        start = 1
    for i, o in trace[start:]:
        row = t.tr[s].get(i, [])
        if beh == 'deterministic':
            if len(row) != 1:
                env.fail('a trace cannot be executed on the model')
            hit = [0]
            conj.append(Eq(row[0][1], o))
        else:
            hit = [k for k, c in enumerate(row) if truth(Eq(c[1], o))]
            if len(hit) != 1:
                env.fail('the model cannot reproduce a trace' if not hit else 'the model is not observable')
        if usage is not None:
            usage[s, i, hit[0]] = usage.get((s, i, hit[0]), 0) + weight
        s = row[hit[0]][0]
    env.check(And(conj), 'the model does not reproduce a trace')
    return s


class DetTables:
    def __init__(self, m, ob):
        idx = {id(s): i for i, s in enumerate(m.states)}
        self.ids = [s.state_id for s in m.states]
        self.closed = all(id(t) in idx for s in m.states for t in s.transitions.values())
        self.init = idx.get(id(m.initial_state))
        self.out = [getattr(s, 'output', getattr(s, 'is_accepting', None)) for s in m.states]
        self.tr = [{a: [(idx.get(id(t)), s.output_fun[a] if ob == 'mealy' else getattr(t, 'output', getattr(t, 'is_accepting', None)), None)]
                    for a, t in s.transitions.items()} for s in m.states]


def tables(env, m, ob, beh):
    from aalpy import automata as A
    want = {('moore', 'deterministic'): A.MooreMachine, ('moore', 'nondeterministic'): A.NDMooreMachine, ('moore', 'stochastic'): A.Mdp,
            ('mealy', 'deterministic'): A.MealyMachine, ('mealy', 'nondeterministic'): A.Onfsm, ('mealy', 'stochastic'): A.StochasticMealyMachine}
    env.check(type(m) is want[ob, beh], 'model of another type')
    t = DetTables(m, ob) if beh == 'deterministic' else NdTables(m)
    env.check(t.closed and t.init is not None and len(set(t.ids)) == len(t.ids), 'the model is not well formed')
    return t


def reproduces(env, m, ob, beh, data, weights=None, exact=True):
    t = tables(env, m, ob, beh)
    usage = {}
    for j, tr in enumerate(data):
        walk(env, m, t, ob, beh, tr, usage, 1 if weights is None else weights[j])
    conj = []
    for s, row in enumerate(t.tr):
        for a, l in row.items():
            if exact:
                env.check(all((s, a, k) in usage for k in range(len(l))), 'a transition that no trace takes')
            if beh == 'stochastic':
                tot = sum(usage[s, a, k] for k in range(len(l)))
                for k, c in enumerate(l):
                    if isinstance(tot, Sym) or isinstance(c[2], Sym):
                        conj.append(Eq(c[2] * tot, usage[s, a, k]))
                    else:
                        conj.append(abs(c[2] * tot - usage[s, a, k]) < 1e-9)
                conj.append(Eq(sum(c[2] for c in l), 1) if isinstance(l[0][2], Sym) else abs(sum(c[2] for c in l) - 1) < 1e-9)
    env.check(And([truth(c) for c in conj]), 'probabilities are not the relative frequencies of the traces')
    if exact:
        seen = {t.init} | {t.tr[s][a][k][0] for s, a, k in usage}
        env.check(seen == set(range(len(t.tr))), 'an unreachable state')
    return t


def mergeable(t, p, q, ob):
    """condition under which states p and q can be merged (with all implied merges) without contradiction"""
    par = list(range(len(t.tr)))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    todo = [(p, q)]
    while todo:
        x, y = (find(v) for v in todo.pop())
        if x == y:
            continue
        par[x] = y
        group = [v for v in range(len(t.tr)) if find(v) == y]
        letters = {a for v in group for a in t.tr[v]}
        for a in letters:
            ts = [t.tr[v][a][0][0] for v in group if a in t.tr[v]]
            todo += [(ts[0], z) for z in ts[1:]]
    conj = []
    for v in range(len(t.tr)):
        for w in range(v):
            if find(v) == find(w):
                if ob == 'moore':
                    conj.append(same(t.out[v], t.out[w]))
                else:
                    conj += [same(t.tr[v][a][0][1], t.tr[w][a][0][1]) for a in t.tr[v] if a in t.tr[w]]
    return And(conj)


def same(x, y):
    return True if x is None or y is None else Eq(x, y)


def minimal(env, t, ob):
    for p in range(len(t.tr)):
        for q in range(p):
            env.check(Not(mergeable(t, p, q, ob)), 'two states of the model could have been merged')


def pick_options(env, which):
    o = {}
    if 'futures' in which:
        o['compatibility_on_futures'] = bool(env.choose(2, 'futures'))
        o['compatibility_on_pta'] = bool(env.choose(2, 'pta'))
    if 'order' in which:
        o['node_order'] = order_fn(env.choose([None, 'reverse', 'short', 'input'], 'node order'))
        o['consider_only_min_blue'] = bool(env.choose(2, 'min blue'))
        o['depth_first'] = bool(env.choose(2, 'depth first'))
    if 'instr' in which:
        lvl = env.choose([0, 1, 2], 'instrumentation')
        if lvl:
            from aalpy.learning_algs.general_passive.Instrumentation import ProgressReport
            o['instrumentation'] = ProgressReport(lvl)
    return o


def h_gsm(env, ob, beh, na, L, k, outs, opts=('futures', 'order'), scores=(None,), fixed=None, budget=3):
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    A, ws = pick_words(env, na, L, k, 1)
    data = traces(env, ob, beh, ws, outs)
    score = env.choose(list(scores), 'score')
    o = pick_options(env, opts)
    o.update(fixed or {})
    given = [list(t) for t in data]
    fmt = 'io_traces'
    if 'instr' in opts and env.choose(2, 'tree'):
        from aalpy.learning_algs.general_passive.GsmNode import GsmNode
        fmt, data = 'tree', GsmNode.createPTA(data, ob, 'io_traces')
        o['convert'] = False
    m = run_GSM(data, output_behavior=ob, transition_behavior=beh, score_calc=make_score(env, score, beh, budget), data_format=fmt, **o)
    if fmt == 'tree':
        node, m = m, m.to_automaton(ob, beh, set_prefix=True)
        env.check(m.initial_state.prefix == () and len(node.get_all_nodes()) == m.size, 'conversion of the merged tree')
    t = reproduces(env, m, ob, beh, given)
    env.cover('model')
    if len(t.tr) > 1:
        env.cover('multi')
    if beh == 'deterministic' and score in (None, 'freq') and not o.get('compatibility_on_futures'):
        minimal(env, t, ob)


def h_labeled(env, ob, na, L, k, opts=('futures', 'order'), scores=(None,), fmt='labeled_sequences', fixed=None):
    """deterministic learning from labelled sequences"""
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    A = ['a', 'b'][:na]
    lo = 0 if ob == 'moore' else 1
    combs = list(itertools.combinations(list(words(A, lo, L)), k))
    ws = combs[env.choose(len(combs), 'words')]
    data = [(w, env.val(f'l{i}')) for i, w in enumerate(ws)]
    if env.choose(2, 'rev'):
        data.reverse()
    score = env.choose(list(scores), 'score')
    o = pick_options(env, opts)
    o.update(fixed or {})
    m = run_GSM(list(data), output_behavior=ob, transition_behavior='deterministic', score_calc=make_score(env, score, 'deterministic'), data_format=fmt, **o)
    t = tables(env, m, ob, 'deterministic')
    conj = []
    used = set()
    for w, l in data:
        s, last = t.init, t.out[t.init]
        for a in w:
            if a not in t.tr[s]:
                env.fail('an example cannot be executed on the model')
            used.add((s, a))
            s, last, _ = t.tr[s][a][0]
        conj.append(last is not None and Eq(last, l))
    env.check(And(conj), 'the model does not reproduce an example')
    env.check(used == {(s, a) for s, row in enumerate(t.tr) for a in row}, 'a transition that no example takes')
    env.cover('model')
    if score in (None, 'freq') and not o.get('compatibility_on_futures'):
        minimal(env, t, ob)


def h_weights(env, ob, na, L, k, outs, checker='any', opts=('futures', 'order'), budget=3):
    """stochastic learning with arbitrary multiplicities of the traces and an arbitrary compatibility function"""
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
    A, ws = pick_words(env, na, L, k, 1)
    data = traces(env, ob, 'stochastic', ws, outs)
    weights = [env.int(f'n{j}', 1, None) for j in range(len(data))]

    def weigh(root):
        seen = set()
        for tr, w in zip(data, weights):
            n = root
            for i, o in tr[1 if ob == 'moore' else 0:]:
                info = n.transitions[i][o]
                if id(info) not in seen:
                    seen.add(id(info))
                    env.check(info.count == info.original_count, 'the prefix tree is inconsistent')
                    info.count = info.original_count = 0
                info.count = info.count + w
                info.original_count = info.original_count + w
                n = info.target
        return root
    o = pick_options(env, opts)
    an = Answers(env, budget)
    score = ScoreCalculation(lambda a, b: an.pick([True, False], True))
    if checker == 'scores':
        score = ScoreCalculation(lambda a, b: an.pick([True, False], True), lambda p: an.pick([1, 2, False, True], 1))
    m = run_GSM(data, output_behavior=ob, transition_behavior='stochastic', score_calc=score, pta_preprocessing=weigh, data_format='io_traces', **o)
    t = reproduces(env, m, ob, 'stochastic', data, weights)
    env.cover('model')
    if len(t.tr) > 1:
        env.cover('multi')


def h_pta(env, ob, beh, na, L, k, outs, opts=(), budget=3):
    """compatibility of futures on the prefix tree: the pairs asked for and the original counts they have"""
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
    A, ws = pick_words(env, na, L, k, 1)
    data = traces(env, ob, beh, ws, outs)
    weights = [env.int(f'n{j}', 1, None) for j in range(len(data))]
    start = 1 if ob == 'moore' else 0
    count, prefix, keep = {}, {}, []
    for tr, w in zip(data, weights):
        p = tuple(tr[start:])
        for n in range(1, len(p) + 1):
            count[p[:n]] = count.get(p[:n], 0) + w

    def note(root):
        todo = [(root, ())]
        while todo:
            n, p = todo.pop()
            prefix[id(n)] = p
            keep.append(n)
            for i, row in n.transitions.items():
                for o, info in row.items():
                    info.count = info.original_count = count[p + ((i, o),)]
                    todo.append((info.target, p + ((i, o),)))
        return root

    an = Answers(env, budget)

    class Asked(ScoreCalculation):
        def __init__(self):
            super().__init__()
            self.pairs = None

        def finish(self):
            """everything that is to be compared was compared"""
            if not self.pairs:
                return
            (p, q), seen = self.pairs[0], set(self.pairs)
            env.check(len(seen) == len(self.pairs), 'a pair is compared twice')
            if all(self.answers):
                n, m = len(p), len(q)
                both = {x[n:] for x in count if x[:n] == p} & {x[m:] for x in count if x[:m] == q}
                env.check({(p + w, q + w) for w in both} <= seen, 'common futures are not compared')
                env.cover('compared')

        def reset(self):
            self.finish()
            self.pairs, self.answers = [], []

        def local_compatibility(self, a, b):
            env.check(id(a) in prefix and id(b) in prefix, 'states that are not in the prefix tree are compared')
            x, y = prefix[id(a)], prefix[id(b)]
            if not self.pairs:
                env.check(x != y, 'a state is merged with itself')
            else:
                p, q = self.pairs[0]
                w = x[len(p):]
                env.check(x == p + w and y == q + w, 'futures after different words are compared')
                if w:
                    env.cover('future')
            self.pairs.append((x, y))
            conj = []
            for n, z in ((a, x), (b, y)):
                row = {(i, o): info.original_count for i, r in n.transitions.items() for o, info in r.items()}
                env.check(all(x[-1] in row for x in count if x[:-1] == z), 'an observation is missing')
                for io, c in row.items():
                    if z + (io,) not in count:
                        env.cover('merged-in')
                    conj.append(Eq(c, count.get(z + (io,), 0)))
            env.check(And(conj), 'the original counts are not those of the data')
            v = an.pick([True, False], True)
            self.answers.append(v)
            return v
    o = pick_options(env, opts)
    score = Asked()
    m = run_GSM(data, output_behavior=ob, transition_behavior=beh, score_calc=score, pta_preprocessing=note, data_format='io_traces',
                compatibility_on_futures=True, compatibility_on_pta=True, **o)
    score.finish()
    reproduces(env, m, ob, beh, data, weights)
    env.cover('model')


def h_alergia_edsm(env, kind, k, L, na, outs, maxw):
    from aalpy.learning_algs.general_passive.GsmAlgorithms import run_Alergia_EDSM
    from aalpy.automata import MarkovChain, Mdp, StochasticMealyMachine
    A, ws = pick_words(env, na, L, k, 1)
    ob = 'mealy' if kind == 'smm' else 'moore'
    data = traces(env, ob, 'stochastic', ws, outs)
    full = [t for j, t in enumerate(data) for _ in range(env.choose(maxw, f'n{j}'))] or data
    eps = env.choose([0.05, 0.5, 1.9], 'eps')
    given = full
    if kind == 'mc':
        given = [[t[0]] + [o for _, o in t[1:]] for t in full]
    m = run_Alergia_EDSM([list(t) for t in given], kind, eps)
    env.check(type(m) is {'mc': MarkovChain, 'mdp': Mdp, 'smm': StochasticMealyMachine}[kind], 'model of another type')
    if kind == 'mc':
        t = NdTables(m)
        usage = {}
        for tr in given:
            s = t.init
            env.check(t.out[s] == tr[0], 'initial output')
            for o in tr[1:]:
                hit = [k for k, c in enumerate(t.tr[s].get(None, [])) if c[1] == o]
                env.check(len(hit) == 1, 'the model cannot reproduce a trace')
                usage[s, hit[0]] = usage.get((s, hit[0]), 0) + 1
                s = t.tr[s][None][hit[0]][0]
        for s, row in enumerate(t.tr):
            for l in row.values():
                tot = sum(usage.get((s, k), 0) for k in range(len(l)))
                env.check(all(abs(c[2] * tot - usage.get((s, k), 0)) < 1e-9 and usage.get((s, k)) for k, c in enumerate(l)),
                          'probabilities are not the relative frequencies of the traces')
    else:
        reproduces(env, m, ob, 'stochastic', given)
    env.cover('model')


def h_ktails(env, ob, na, L, k, outs, depth, det=False):
    from aalpy.learning_algs.general_passive.GsmAlgorithms import run_k_tails
    A, ws = pick_words(env, na, L, k, 1)
    data = traces(env, ob, 'deterministic' if det else 'nondeterministic', ws, outs)
    kk = env.choose(list(range(depth + 1)), 'k')
    complete = env.choose([None, 'self_loop', 'sink_state'], 'complete')
    m = run_k_tails([list(t) for t in data], ob, kk, complete, print_info=False)
    t = reproduces(env, m, ob, 'nondeterministic', data, exact=complete is None)
    env.cover('model')
    seen = {a for w in ws for a in w}
    if complete:
        env.check(all(set(row) == seen for row in t.tr), 'the model is not input complete')
    else:
        if kk == 0 and ob == 'mealy':
            env.check(len(t.tr) == 1, '0-tails merge all states')
        if kk == 0 and ob == 'moore':
            env.check(And([Not(Eq(t.out[p], t.out[q])) for p in range(len(t.tr)) for q in range(p)]), '0-tails merge all states with the same output')
        if det and kk > L:
            env.check(all(len(l) == 1 for row in t.tr for l in row.values()), 'complete tails of deterministic data give a deterministic model')
            minimal(env, t, ob)


def h_format(env, fmt, ob, na, L, k):
    """the detected data format is the right one, or detection gives up"""
    from aalpy.learning_algs.general_passive.GsmNode import detect_data_format
    A, ws = pick_words(env, na, L, k, 0)
    data = traces(env, ob, 'nondeterministic', ws, None)
    if fmt == 'labeled_sequences':
        data = [(w, env.val(f'l{i}')) for i, w in enumerate(ws)]
    if fmt == 'traces':
        data = [[env.val(f'x{j}.{i}') for i in range(len(w) + 1)] for j, w in enumerate(ws)]
    if env.choose(2, 'tuples'):
        data = tuple(tuple(t) for t in data)
    check, guess = bool(env.choose(2, 'consistency')), bool(env.choose(2, 'guess'))
    try:
        got = detect_data_format(data, check, guess)
    except ValueError as e:
        env.check('ambiguous' in str(e) and not guess, 'valid data is rejected')
        env.cover('ambiguous')
        return
    env.cover('detected')
    if guess:
        return
    if got != fmt:
        env.check(fmt == 'traces' and all(len(t) <= 1 for t in data), 'data format is misdetected')


def h_scores(env, shape, events):
    """score wrappers: every attempted merge starts afresh, answers are those of the parts"""
    from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as S
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    root = GsmNode.createPTA([[('a', 0), ('a', 1), ('a', 0)], [('b', 1)]], 'mealy', 'io_traces')
    n1 = root.transitions['a'][0].target
    n2 = n1.transitions['a'][1].target
    depth = {id(root): 0, id(n1): 1, id(n2): 2}
    memo = {}
    LOCAL = [[True, False, None], [True, False]]

    def arbitrary(key, opts):
        if key not in memo:
            memo[key] = env.choose(opts, '/'.join(map(str, key)))
        return memo[key]

    class Leaf(S.ScoreCalculation):
        def __init__(self, j):
            super().__init__()
            self.j, self.epoch = j, 0

        def reset(self):
            self.epoch += 1

        def local_compatibility(self, a, b):
            return arbitrary((self.j, self.epoch, depth[id(a)], depth[id(b)]), LOCAL[self.j])

        def score_function(self, part):
            return arbitrary((self.j, self.epoch, 'score', len(part)), [1, 2, False])

    class Ref:
        """meaning of a shape: nested tuples, leaves are numbers"""

        def __init__(self):
            self.resets, self.first = 0, None

        def local(self, x, a, b):
            if isinstance(x, int):
                return arbitrary((x, self.resets, a, b), LOCAL[x])
            if x[0] == 'tail':
                return True if b - self.first >= x[2] else self.local(x[1], a, b)
            if x[0].startswith('sink'):
                if self.calls == 1 and ((a > 0) != (b > 0) or (x[0] == 'sink-' and a > 0 and b > 0)):
                    return False
                return self.local(x[1], a, b)
            if x[0] == 'comb':
                for y in x[1:]:
                    v = self.local(y, a, b)
                    if v is not None:
                        return v
                return True
            return all(self.local(y, a, b) is not False for y in x[1:])

        def score(self, x, part):
            if isinstance(x, int):
                return arbitrary((x, self.resets, 'score', len(part)), [1, 2, False])
            if x[0] == 'comb':
                return [self.score(y, part) for y in x[1:]]
            if x[0] == 'every':
                v = [self.score(y, part) for y in x[1:]]
                return False if any(z is False for z in v) else sum(v)
            return self.score(x[1], part)

    def build(x):
        if isinstance(x, int):
            return Leaf(x)
        if x[0] == 'tail':
            return S.ScoreWithKTail(build(x[1]), x[2])
        if x[0].startswith('sink'):
            return S.ScoreWithSinks(build(x[1]), lambda n: depth[id(n)] > 0, x[0] == 'sink')
        if x[0] == 'comb':
            return S.ScoreCombinator([build(y) for y in x[1:]])

        def total(it):
            v = list(it)
            return False if any(z is False for z in v) else sum(v)
        return S.ScoreCombinator([build(y) for y in x[1:]], lambda it: all(v is not False for v in it), total)

    sc, ref = build(shape), Ref()
    for k in range(events):
        e = env.choose(3, f'e{k}') if k else 0
        if e == 0:
            sc.reset()
            ref.resets, ref.calls, ref.first = ref.resets + 1, 0, None
            env.cover('reset')
        elif e == 1:
            a, b = env.choose([(root, n1), (n1, n2), (root, n2)] + ([(n1, n1), (root, root)] if isinstance(shape[1], int) and shape[0] != 'comb' else []), f'pair{k}')
            ref.calls += 1
            ref.first = depth[id(b)] if ref.first is None else ref.first
            env.check(sc.local_compatibility(a, b) == ref.local(shape, depth[id(a)], depth[id(b)]), 'compatibility is not that of the parts')
            env.cover('local')
        else:
            part = {root: n1} if env.choose(2, f'part{k}') else {}
            env.check(sc.score_function(part) == ref.score(shape, part), 'score is not that of the parts')
            env.cover('score')


# these also with the letters 0, 1, ...
ZERO = ['det-moore-k2L2', 'st-moore-fix', 'pta-mealy', 'pta-moore', 'kt-moore']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers=(), **kw):
        out.append(Config(name, fn, kw, covers=covers))
    AN = 4 if T else 2
    FIX = ['edsm', 'edsm0', 'freq', 'aic', 'greedy', 'threshold', 'greedyfn', 'sinks', 'sinks2', 'ktail', 'comb', 'comb2', 'l2g']
    for ob in ('mealy', 'moore'):
        add(f'det-{ob}-k2L2', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=2, k=2, outs=None if T else 2)
        add(f'det-{ob}-sym', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=2, k=2, outs=None, opts=['futures'])
        add(f'det-{ob}-k1L4', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=1, L=4, k=1, outs=None)
        add(f'det-{ob}-k1L3', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=3, k=1, outs=None)
        add(f'det-{ob}-k2L3', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=3, k=2, outs=2, opts=['futures'] if T else [], fixed={} if T else dict(compatibility_on_futures=True))
        add(f'det-{ob}-any', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=2, k=2, outs=2, scores=['any'], opts=['futures'], budget=AN)
        add(f'det-{ob}-anyorder', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=1, L=3, k=1, outs=2, scores=['anylocal'], opts=['order'])
        add(f'det-{ob}-fix', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=2, k=2, outs=2, scores=FIX, opts=['futures'])
        add(f'det-{ob}-instr', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=2, k=2, outs=2, opts=['instr', 'futures'])
        add(f'lab-{ob}-k2', h_labeled, ['model'], ob=ob, na=2, L=2, k=2)
        add(f'lab-{ob}-k3', h_labeled, ['model'], ob=ob, na=2, L=2, k=3, opts=['futures'])
        add(f'lab-{ob}-a1', h_labeled, ['model'], ob=ob, na=1, L=4, k=3 if T else 2, scores=[None, 'edsm', 'freq'])
        for beh in ('nondeterministic', 'stochastic'):
            s = 'nd' if beh[0] == 'n' else 'st'
            add(f'{s}-{ob}-any', h_gsm, ['model', 'multi'], ob=ob, beh=beh, na=1, L=2, k=2, outs=2, scores=['any'], budget=AN)
            add(f'{s}-{ob}-any2', h_gsm, ['model', 'multi'], ob=ob, beh=beh, na=2, L=2, k=2, outs=2, scores=['any'], opts=['futures'], budget=AN)
            add(f'{s}-{ob}-anylocal', h_gsm, ['model', 'multi'], ob=ob, beh=beh, na=1, L=3, k=2, outs=2, scores=['anylocal'], opts=['futures'])
            add(f'{s}-{ob}-fix', h_gsm, ['model'], ob=ob, beh=beh, na=1, L=2, k=2, outs=2, scores=FIX + (['hoeffding', None] if s == 'st' else []), opts=['futures'])
        add(f'w-{ob}-k2', h_weights, ['model', 'multi'], ob=ob, na=1, L=3, k=2, outs=2, opts=['futures'], budget=AN + 1)
        add(f'w-{ob}-a2', h_weights, ['model', 'multi'], ob=ob, na=2, L=2, k=2, outs=2, opts=['futures'], budget=AN)
        add(f'w-{ob}-scores', h_weights, ['model', 'multi'], ob=ob, na=1, L=2, k=2, outs=2, checker='scores', opts=['futures'])
        add(f'w-{ob}-order', h_weights, ['model', 'multi'], ob=ob, na=1, L=2, k=2, outs=2, opts=['order'])
        add(f'pta-{ob}', h_pta, ['model', 'compared', 'future', 'merged-in'], ob=ob, beh='stochastic', na=1, L=3, k=2, outs=2, opts=['order'] if T else [], budget=3)
        add(f'pta-{ob}-a2', h_pta, ['model', 'compared', 'future', 'merged-in'], ob=ob, beh='nondeterministic', na=2, L=2, k=2, outs=2, opts=['order'] if T else [], budget=3)
        add(f'kt-{ob}', h_ktails, ['model'], ob=ob, na=2, L=2, k=2, outs=2, depth=2)
        add(f'kt-{ob}-a1', h_ktails, ['model'], ob=ob, na=1, L=3, k=2, outs=2, depth=3)
        add(f'kt-{ob}-det', h_ktails, ['model'], ob=ob, na=2, L=2, k=3 if T else 2, outs=None, depth=3, det=True)
        if T:
            add(f'det-{ob}-k3L2', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=2, k=3, outs=None)
            add(f'det-{ob}-k2L3sym', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=3, k=2, outs=None)
            add(f'det-{ob}-k1L6', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=1, L=6, k=1, outs=None)
            add(f'det-{ob}-fixL3', h_gsm, ['model', 'multi'], ob=ob, beh='deterministic', na=2, L=3, k=2, outs=2, scores=FIX, opts=['futures'])
            add(f'lab-{ob}-L3', h_labeled, ['model'], ob=ob, na=2, L=3, k=3, opts=['futures'])
            add(f'kt-{ob}-L3', h_ktails, ['model'], ob=ob, na=2, L=3, k=2, outs=2, depth=3)
            add(f'w-{ob}-k3', h_weights, ['model', 'multi'], ob=ob, na=1, L=2, k=3, outs=2, opts=['futures'])
    for kind in ('mc', 'mdp', 'smm'):
        add(f'edsm-{kind}', h_alergia_edsm, ['model'], kind=kind, k=2, L=2, na=1 if kind == 'mc' else 2, outs=2, maxw=3)
        add(f'edsm-{kind}-L3', h_alergia_edsm, ['model'], kind=kind, k=2, L=3, na=1, outs=2, maxw=3)
    for name, shape in (('tail', ('tail', 0, 1)), ('tail2', ('tail', 0, 2)), ('sink', ('sink', 0)), ('sink-', ('sink-', 0)),
                        ('comb-flat', ('comb', 0, 1)), ('every', ('every', ('tail', 0, 1), 1)), ('tail-comb', ('tail', ('comb', 0, 1), 1)),
                        ('comb-tail', ('comb', ('tail', 0, 1), 1)), ('every-sink', ('every', ('sink', 0), 1)), ('comb-sink', ('comb', ('sink-', 0), 1))):
        add(f'scores-{name}', h_scores, ['reset', 'local', 'score'], shape=shape, events=5 if T else 4)
    for fmt, ob in (('io_traces', 'moore'), ('io_traces', 'mealy'), ('labeled_sequences', 'moore'), ('traces', 'moore')):
        add(f'fmt-{fmt}-{ob}', h_format, ['detected'], fmt=fmt, ob=ob, na=1, L=3, k=2)
    return out
