"""what is printed, reported and returned along with a model"""
import builtins
import random as _r
from engine.runner import Config
from engine.models import *
from engine.models import state_out
from engine.nd import NdTables, sym_nd
from engine.stubs import patched, random_stubbed
from engine.sym import And, Eq, truth, Sym
from checks.p28 import AnySystem, X
from checks.p29 import FairSystem, NdOracle, system
from checks.p30 import AbsOracle, EqMap
from checks.p35 import CEX, tables, same_tables, nd_shape, same_nd, reference

PROPERTY = 'P40'
OUTSIDE = 'rendering by graphviz (the written graph text is built, the external program is not run), wording of the messages, larger systems'
ASSUMPTIONS = ['the equivalence oracle is exact (random walks for stochastic systems) and gives the same answers in both runs',
               'random draws are the same in both runs']
TIMES = {'learning_time', 'eq_oracle_time', 'total_time'}


class Recorder:
    """stands in for print and for writing graphs; everything is really turned into text"""

    def __init__(self):
        self.lines = []

    def print(self, *args, sep=' ', end='\n', **kw):
        self.lines += (sep.join(str(a) for a in args) + end).split('\n')

    def write(self, graph, *a, **kw):
        self.lines += graph.to_string().split('\n')

    def on(self):
        import pydot
        return patched((builtins, 'print', self.print), (pydot.Dot, 'write', lambda g, *a, **kw: self.write(g, *a, **kw)))


def compare(env, f, levels):
    """f(print_level, return_data) -> (result, shape of the model, queries); the first run prints nothing"""
    rec = Recorder()
    with rec.on():
        (m0, info0), shape0, log0 = f(0, True)
    env.check(not any(l.strip() for l in rec.lines), 'something is printed although nothing should be')
    lvl = env.choose(levels, 'print level')
    data = bool(env.choose(2, 'return data'))
    rec = Recorder()
    with rec.on():
        r, shape, log = f(lvl, data)
    env.check(isinstance(r, tuple) and len(r) == 2 if data else not isinstance(r, tuple), 'statistics are returned exactly when they are asked for')
    env.check(shape[0](shape0[1], shape[1]), 'the model depends on what is printed')
    env.check(log0 == log, 'the queries depend on what is printed')
    if data:
        info = r[1]
        env.check(set(info) == set(info0) and all(truth(Eq(info[k], info0[k])) if isinstance(info[k], (int, str)) else info[k] is info0[k] or info[k] == info0[k]
                                                   for k in info if k not in TIMES), 'the statistics depend on what is printed')
    if lvl > 0:
        env.cover('printed')
        for text, key in (('Learning Rounds', 'learning_rounds'), ('Number of states', 'automaton_size')):
            env.check([l.split(':')[1].strip() for l in rec.lines if l.startswith(text)] == [str(info0[key])], 'printed statistics')
        q = [l.split(':')[1].strip() for l in rec.lines if l.startswith(' # Membership Queries') or l.startswith(' # Steps')]
        env.check(q == [str(info0[k]) for k in ('queries_learning', 'steps_learning', 'queries_eq_oracle', 'steps_eq_oracle')], 'printed statistics')
    if lvl > 1:
        sizes = [l for l in rec.lines if 'Hypothesis' in l and 'states' in l]
        env.check(len(sizes) >= 1 or info0['learning_rounds'] == 0, 'the hypotheses are not reported')
        if info0['learning_rounds'] == len(sizes) and sizes:
            env.cover('rounds')
    return rec, lvl, info0


def h_det(env, learner, kind, n, na, levels=(1, 2, 3), outputs=2, family=None, opt='choose'):
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp
    A = ['a', 'b'][:na]
    m = Machine(env, kind, n, A, outputs=None if kind == 'dfa' else outputs, family=family)
    cache = bool(env.choose(2, 'cache')) if opt == 'choose' else True
    cex = (env.choose([None, 'rs', 'longest_prefix'] if learner == 'lstar' else CEX[learner][:2], 'cexp') if opt == 'choose' else 'rs') if learner in CEX else None

    def f(level, data):
        sul = MachineSUL(m)
        orc = ExactOracle(A, sul, m, 'shortest', limit=m.n + 1)
        kw = dict(return_data=data, print_level=level, cache_and_non_det_check=cache)
        if learner == 'lstar':
            r = run_Lstar(list(A), sul, orc, kind, cex_processing=cex, **kw)
        elif learner == 'kv':
            r = run_KV(list(A), sul, orc, kind, cex_processing=cex, **kw)
        elif learner == 'lsharp':
            r = run_Lsharp(list(A), sul, orc, kind, **kw)
        else:
            r = run_adaptive_Lsharp(list(A), sul, [reference(kind, A)], orc, kind, rebuilding=True, state_matching='Approximate', **kw)
        h = r[0] if isinstance(r, tuple) else r
        return r, (same_tables, tables(h, A)), list(sul.log)
    rec, lvl, info = compare(env, f, levels)
    if learner in CEX and lvl == 3 and learner == 'lstar':
        env.cover('table')
        env.check(any(l.startswith('Prefixes / E set') for l in rec.lines), 'the table is not printed')


def h_nd(env, n, na, maxb, sampling, stochastic, structure=None, levels=(1, 2, 3)):
    from aalpy.learning_algs import run_non_det_Lstar
    A, t = system(env, n, na, maxb, structure=structure)

    def f(level, data):
        sul = FairSystem(env, t, 'fixed')
        orc = NdOracle(env, A, sul, t, False)
        r = run_non_det_Lstar(A, sul, orc, n_sampling=sampling, stochastic=stochastic, return_data=data, print_level=level)
        m = r[0] if isinstance(r, tuple) else r
        if stochastic:
            ix = {id(s): i for i, s in enumerate(m.states)}
            sh = ix[id(m.initial_state)], [{a: [(c[1], (ix[id(c[0])], c[2])) for c in s.transitions[a]] for a in A} for s in m.states]
        else:
            sh = nd_shape(m, A)
        return r, (same_nd, sh), sul.num_queries
    compare(env, f, levels)


def h_abs(env, n, na, maxb, sampling, structure=None, levels=(1, 2, 3), nout=3):
    from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
    A = ['a', 'b', 'c'][:na]
    t = NdTables(sym_nd(env, 'onfsm', n, A, 's', maxb, empty=False, initial=0, structure=structure, outputs=nout))
    mode = env.choose(['identity', 'merge'], 'abstraction')
    mp = EqMap({} if mode == 'identity' else {0: 'x', 1: 'x'})

    def abst(o):
        for key, v in dict.items(mp):
            if truth(Eq(o, key)):
                return v
        for key in range(nout):
            if truth(Eq(o, key)):
                return key

    def f(level, data):
        sul = FairSystem(env, t, 'fixed')
        orc = AbsOracle(env, A, sul, t, abst, mode == 'identity')
        r = run_abstracted_ONFSM_Lstar(A, sul, orc, mp, n_sampling=sampling, max_learning_rounds=3, return_data=data, print_level=level)
        m = r[0] if isinstance(r, tuple) else r
        return r, (same_nd, nd_shape(m, A)), sul.num_queries
    compare(env, f, levels)


class Replay(AnySystem):
    """gives the same answers in every run"""

    def __init__(self, memo, *a, **kw):
        super().__init__(*a, **kw)
        self.memo = memo

    def step(self, letter):
        if letter is None:
            return X
        k = self.steps
        if k not in self.memo:
            self.memo[k] = self.env.choose(self.outs, 'o') if k < self.budget else self.rng.choice(self.outs)
        self.steps += 1
        o = self.memo[k]
        self.log[-1].append((letter, o))
        return o


def h_stoch(env, kind, strategy, budget, rounds, cexp, levels=(1, 2, 3), na=1):
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.oracles import RandomWalkEqOracle
    A = ['a', 'b'][:na]
    memo = {}

    def shape(h):
        ix = {id(s): i for i, s in enumerate(h.states)}
        rows = [(s.output if kind == 'mdp' else None, [(a, sorted((ix[id(c[0])],) + tuple(c[1:]) for c in s.transitions[a])) for a in sorted(s.transitions)])
                for s in h.states]
        return ix[id(h.initial_state)], rows

    def f(level, data):
        sul = Replay(memo, env, kind == 'mdp', budget)
        orc = RandomWalkEqOracle(A, sul, num_steps=4, reset_prob=0.4)
        with random_stubbed(budget=0, after=_r.Random(2)):
            r = run_stochastic_Lstar(A, sul, orc, automaton_type=kind, strategy=strategy, cex_processing=cexp, n_c=1, n_resample=3, min_rounds=1, max_rounds=rounds,
                                     return_data=data, print_level=level)
        h = r[0] if isinstance(r, tuple) else r
        return r, (lambda a, b: a == b, shape(h)), sul.log
    compare(env, f, levels)


def gsm_shape(m, ob, A):
    ix = {id(s): i for i, s in enumerate(m.states)}
    return ix[id(m.initial_state)], [({a: ix[id(t)] for a, t in s.transitions.items()}, dict(s.output_fun) if ob == 'mealy' else s.output) for s in m.states]


def h_report(env, ob, na, L, k, outs, score=None, opts=('futures',)):
    """reports about a state-merging run: what they say is what happened, and they change nothing"""
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    from aalpy.learning_algs.general_passive.Instrumentation import ProgressReport, MergeViolationDebugger
    from checks.p27 import pick_words, traces, make_score, pick_options
    A, ws = pick_words(env, na, L, k, 1)
    data = traces(env, ob, 'deterministic', ws, outs)
    o = pick_options(env, opts)
    kw = dict(output_behavior=ob, transition_behavior='deterministic', score_calc=make_score(env, score, 'deterministic', 3), data_format='io_traces', **o)
    lvl = env.choose([1, 2], 'level')
    rec = Recorder()
    with rec.on():
        m0 = run_GSM([list(t) for t in data], **kw)
    env.check(not any(l.strip() for l in rec.lines), 'something is printed although nothing should be')
    rep = ProgressReport(lvl)
    rec = Recorder()
    with rec.on():
        for again in range(2):      # the same report can be used for several runs
            m = run_GSM([list(t) for t in data], instrumentation=rep, **kw)
    env.check(gsm_same(gsm_shape(m0, ob, A), gsm_shape(m, ob, A)), 'the model depends on the report')
    promoted = [e[1][0] for e in rep.log if e[0] == 'promote']
    merged = [e[1] for e in rep.log if e[0] == 'merge']
    env.check(len(promoted) + len(merged) == len(rep.log) and len(promoted) == len(m.states), 'as many states are reported as the model has')

    def state(h, prefix):
        s = h.initial_state
        for i, _ in prefix:
            s = s.transitions[i]
        return s
    env.check(len({id(state(m, p)) for p in promoted}) == len(m.states), 'a reported state is not a state of its own')
    env.check(all(state(m, r) is state(m, b) for r, b in merged), 'states are reported as merged that are not')
    text = [l for l in rec.lines if l.startswith('Learned')]
    env.check(text == [f'Learned {len(m.states)} state automaton via {len(merged)} merges.'] * 2, 'printed result')
    status = [l for l in rec.lines if 'Current automaton size' in l]
    env.check(status and status[-1].split('Current automaton size: ')[1].split()[0] == str(len(m.states)), 'printed size')
    if lvl > 1:
        nodes = {w[:k] for w in ws for k in range(len(w) + 1)}
        leafs = [len(w) for w in nodes if not any(v[:-1] == w for v in nodes if v)]
        env.check([l for l in rec.lines if l.startswith('PTA has')] == [f'PTA has {len(nodes)} states leading to {len(leafs)} leafs'] * 2, 'printed size of the prefix tree')
        env.check([l for l in rec.lines if l.startswith('min / avg')] == [f'min / avg / max depth : {min(leafs)} / {sum(leafs) / len(leafs)} / {max(leafs)}'] * 2, 'printed depths')
        if not o.get('compatibility_on_futures'):
            last = status[-1].split(' Merged: ')[1].split(' Remaining: ')
            env.check([int(x) for x in last] == [len(nodes) - len(m.states), 0], f'printed progress {last}')
    env.cover('merged' if merged else 'unmerged')
    # comparison with a known machine: the one learned from all data, or from less of it
    less = data if len(data) < 2 or not env.choose(2, 'other') else data[:-1]
    if score is not None and less is not data:
        return
    with Recorder().on():
        ground = run_GSM([list(t) for t in less], **{**kw, 'score_calc': make_score(env, score, 'deterministic', 3)}, convert=False)
        dbg = MergeViolationDebugger(ground)
        m2 = run_GSM([list(t) for t in data], instrumentation=dbg, **{**kw, 'score_calc': make_score(env, score, 'deterministic', 3)})
    if less is data:
        env.check([e[0] for e in dbg.log] == [e[0] for e in rep.log], 'errors are reported for the machine itself')
        env.cover('itself')
    else:
        env.check(gsm_same(gsm_shape(m0, ob, A), gsm_shape(m2, ob, A)), 'the model depends on the report')
        seen = {}
        want = []
        for e in rep.log:
            nodes = [ground.get_by_prefix(p) for p in e[1]]
            if e[0] == 'promote':
                want.append('broken promote' if nodes[0] is None else 'promote' if nodes[0] not in seen else 'wrong promote')
                seen.setdefault(nodes[0], 1)
            else:
                want.append('broken merge' if None in nodes else 'merge' if nodes[0] is nodes[1] else 'wrong merge')
        env.check([e[0] for e in dbg.log] == want, 'a wrong decision is not reported, or a right one is')
        env.cover('other')


def h_debug(env, ob, structures, wordsets, budget):
    """the decisions that contradict a known machine are reported as such, in every run of a debugger"""
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
    from aalpy.learning_algs.general_passive.Instrumentation import ProgressReport, MergeViolationDebugger
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
    S = structures[env.choose(len(structures), 'structure')]
    n, A = len(S), ['a', 'b'][:len(S[0])]
    if ob == 'mealy':
        out = [[env.choose(2, f'o{s}{a}') for a in range(len(A))] for s in range(n)]
    else:
        so = [env.choose(2, f'o{s}') for s in range(n)]
        out = [[so[t] for t in row] for row in S]
    nodes = [GsmNode((None, so[0] if ob == 'moore' else None), None)] + [None] * (n - 1)
    todo = [0]
    for s in todo:
        for a, i in enumerate(A):
            t = S[s][a]
            if nodes[t] is None:
                nodes[t] = GsmNode((i, out[s][a]), nodes[s])
                todo.append(t)
            nodes[s].transitions[i][out[s][a]] = TransitionInfo(nodes[t], 1, nodes[t], 1)

    def state(w):
        s = 0
        for i in w:
            s = S[s][A.index(i)]
        return s

    def trace(w):
        return ([so[0]] if ob == 'moore' else []) + [(w[k], out[state(w[:k])][A.index(w[k])]) for k in range(len(w))]
    data = [trace(w) for w in wordsets[env.choose(len(wordsets), 'words')]]
    first = [env.choose(2, f'answer{k}') == 1 for k in range(budget)]
    later = env.choose(2, 'later answers') == 1

    class Any(ScoreCalculation):
        def __init__(self):
            super().__init__()
            self.known = {}

        def local_compatibility(self, a, b):
            k = (tuple(a.get_prefix(False)), tuple(b.get_prefix(False)))
            return self.known.setdefault(k, first[len(self.known)] if len(self.known) < budget else later)
    kw = dict(output_behavior=ob, transition_behavior='deterministic', data_format='io_traces')
    rep, dbg = ProgressReport(2), MergeViolationDebugger(nodes[0])
    with Recorder().on():
        run_GSM([list(t) for t in data], score_calc=Any(), instrumentation=rep, **kw)
    seen, want = set(), []
    for what, ps in rep.log:
        # None: an access sequence that the known machine does not have
        s = [state([i for i, _ in p]) if (trace([i for i, _ in p])[ob == 'moore':] == list(p)) else None for p in ps]
        if None in s:
            want.append(('broken ' + what, *ps))
        elif what == 'promote':
            want.append((('wrong ' if s[0] in seen else '') + 'promote', *ps))
            seen.add(s[0])
        else:
            want.append((('' if s[0] == s[1] else 'wrong ') + 'merge', *ps))
    for again in range(2):
        rec = Recorder()
        with rec.on():
            run_GSM([list(t) for t in data], score_calc=Any(), instrumentation=dbg, **kw)
        env.check([tuple(e) for e in dbg.log] == want, f'run {again}: {dbg.log} is reported instead of {want}')
        env.check(sum('Erroneous promotion' in l for l in rec.lines) == sum(e[0] == 'wrong promote' for e in want)
                  and sum('Erroneous merge' in l for l in rec.lines) == sum(e[0] == 'wrong merge' for e in want), 'printed decisions')
    for e in want:
        env.cover(e[0])


def gsm_same(x, y):
    if x[0] != y[0] or len(x[1]) != len(y[1]):
        return False
    return all(t == t2 and (truth(And([Eq(o[a], o2[a]) for a in o])) and set(o) == set(o2) if isinstance(o, dict) else truth(Eq(o, o2)))
               for (t, o), (t2, o2) in zip(x[1], y[1]))


def h_rpni(env, kind, algorithm, na, L, k, completeness):
    from aalpy.learning_algs import run_RPNI
    import itertools
    A = ['a', 'b'][:na]
    combs = list(itertools.combinations(list(words(A, 0 if kind != 'mealy' else 1, L)), k))
    ws = combs[env.choose(len(combs), 'words')]
    data = [(w, env.bool(f'l{i}') if kind == 'dfa' else env.int(f'l{i}', 0, 1)) for i, w in enumerate(ws)]
    r = []
    for show in (False, True):
        rec = Recorder()
        with rec.on():
            m = run_RPNI(list(data), automaton_type=kind, algorithm=algorithm, input_completeness=completeness, print_info=show)
        r.append(m)
        if not show:
            env.check(not any(l.strip() for l in rec.lines if 'deterministic' not in l), 'something is printed although nothing should be')
    env.check((r[0] is None) == (r[1] is None), 'the result depends on what is printed')
    if r[1] is not None:
        ob = 'mealy' if kind == 'mealy' else 'moore'
        s0, s1 = (gsm_shape2(m, kind) for m in r)
        env.check(gsm_same(s0, s1), 'the model depends on what is printed')
        n = [l for l in rec.lines if 'Learned' in l and 'state automaton' in l]
        env.check(len(n) == 1 and (completeness == 'sink_state' or f' {len(m.states)} state' in n[0]), 'printed size')
        env.cover('model')


def gsm_shape2(m, kind):
    ix = {id(s): i for i, s in enumerate(m.states)}
    return ix[id(m.initial_state)], [({a: ix[id(t)] for a, t in s.transitions.items()},
                                      dict(s.output_fun) if kind == 'mealy' else state_out(m, s)) for s in m.states]


def h_alergia(env, kind, L, k):
    from aalpy.learning_algs import run_Alergia
    data = []
    for j in range(k):
        outs = [env.choose(['x', 'y'], f'o{j}.{i}') for i in range(env.choose(L, f'n{j}') + 1)]
        ins = [env.choose(['a', 'b'], f'i{j}.{i}') for i in range(len(outs))]
        data.append(['x'] + outs if kind == 'mc' else (['x'] if kind == 'mdp' else []) + list(zip(ins, outs)))
    eps = env.choose([0.05, 2], 'eps')
    shapes = []
    for show in (False, True):
        rec = Recorder()
        with rec.on():
            m = run_Alergia([list(d) for d in data], automaton_type=kind, eps=eps, print_info=show)
        t = NdTables(m)
        shapes.append((t.init, t.out, t.tr))
        if not show:
            env.check(not any(l.strip() for l in rec.lines), 'something is printed although nothing should be')
    env.check(shapes[0] == shapes[1], 'the model depends on what is printed')
    env.check(sum(f'Learned {len(m.states)} state automaton' in l for l in rec.lines) == 1, 'printed size')
    env.cover('model')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn=h_det, covers=('printed', 'rounds'), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=30))
    for l in ('lstar', 'kv', 'lsharp', 'adaptive'):
        for kind in ('mealy', 'moore', 'dfa'):
            add(f'{l}-{kind}', learner=l, kind=kind, n=2, na=2 if l != 'adaptive' else 1, opt='choose' if T else 'one')
            add(f'{l}-{kind}-n3', learner=l, kind=kind, n=3, na=1)
            if T:
                add(f'{l}-{kind}-n3a2', learner=l, kind=kind, n=3, na=2, family='chain', opt='one')
    Y = [[(1,), (0,)], [(0, 1), (1, 1)]]
    W = [[(1,)], [(2,)], [(0, 2)]]
    for st in (False, True):
        add(f'nd-{st}', h_nd, n=2, na=2, maxb=2, sampling=16, structure=Y, stochastic=st)
        add(f'nd-n3-{st}', h_nd, n=3, na=1, maxb=2, sampling=32, structure=W, stochastic=st)
    add('abs', h_abs, n=2, na=2, maxb=2, sampling=16, structure=Y)
    add('abs-n3', h_abs, n=3, na=1, maxb=2, sampling=32, structure=[[(1, 2)], [(2,)], [(0,)]])
    for ob in ('mealy', 'moore'):
        add(f'report-{ob}', h_report, ('merged', 'itself'), ob=ob, na=1, L=3, k=1, outs=None)
        add(f'report-{ob}-2', h_report, ('merged', 'itself', 'other'), ob=ob, na=2, L=2, k=2, outs=None if T else 2)
        add(f'report-{ob}-edsm', h_report, ('merged', 'itself'), ob=ob, na=1, L=4, k=1, outs=2, score='edsm', opts=())
        add(f'report-{ob}-order', h_report, ('merged', 'itself'), ob=ob, na=2, L=3 if T else 2, k=1, outs=2, opts=('order',))
    D = [[[1, 0], [0, 1]], [[1, 1], [0, 0]], [[1, 2], [2, 0], [0, 1]], [[1, 2], [1, 1], [2, 2]]]
    DW = [[tuple('aab'), tuple('ba')], [tuple('ab'), tuple('bb')], [tuple('aaa'), tuple('bab'), tuple('bb')]]
    for ob in ('mealy', 'moore'):
        add(f'debug-{ob}', h_debug, ('promote', 'wrong promote', 'merge', 'wrong merge'), ob=ob, structures=D if T else D[:3], wordsets=DW if T else DW[:2], budget=4 if T else 1)
    for kind in ('mealy', 'moore', 'dfa'):
        for alg in ('gsm', 'classic'):
            for c in (None, 'self_loop', 'sink_state'):
                add(f'rpni-{kind}-{alg}-{c}', h_rpni, ('model',), kind=kind, algorithm=alg, na=2, L=2, k=2, completeness=c)
    for kind in ('mc', 'mdp', 'smm'):
        add(f'alergia-{kind}', h_alergia, ('model',), kind=kind, L=2, k=2)
    for kind in ('mdp', 'smm'):
        for s in ('normal', 'classic'):
            for c in ('longest_prefix', None):
                add(f'stochastic-{kind}-{s}-{c}', h_stoch, kind=kind, strategy=s, budget=6 if T else 4, rounds=4, cexp=c)
    return out
