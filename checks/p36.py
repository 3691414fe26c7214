"""L# and adaptive L#: hypotheses follow from the observations, states match the references as documented"""
import contextlib
from fractions import Fraction
from engine.runner import Config
from engine.models import *
from engine import sym
from checks.p04 import SHAPES as REFS, MODES, S3

PROPERTY = 'P36'
QUICK_BUDGET = 400
OUTSIDE = ('larger systems and references, references that are not input complete over their own alphabet; references that '
           'have superfluous states or cover only a part of the alphabet, for the claim about a reference that has the behaviour of the system')
ASSUMPTIONS = ['the equivalence oracle is exact', 'outputs are arbitrary values that support equality only (for DFA: Booleans)']


@contextlib.contextmanager
def capture():
    """the observation trees of the learners, in order of creation"""
    from aalpy.learning_algs.deterministic.ObservationTree import ObservationTree
    got = []
    init = ObservationTree.__init__

    def f(self, *a, **k):
        got.append(self)
        init(self, *a, **k)
    ObservationTree.__init__ = f
    try:
        yield got
    finally:
        ObservationTree.__init__ = init


def nodes(tree, mealy, start=None):
    """{word: (output, node)} below a node; the empty word has no output in Mealy trees"""
    start = tree.root if start is None else start
    res = {(): (None if mealy else start.output, start)}
    todo = [()]
    for w in todo:
        for a, x in res[w][1].successors.items():
            o, t = x if mealy else (x.output, x)
            res[w + (a,)] = (o, t)
            todo.append(w + (a,))
    return res


def agreement(x, y, mealy):
    """terms: the observations below the two nodes agree, word by word"""
    return And([Eq(x[w][0], y[w][0]) for w in x if w in y and (w or not mealy)])


class Watch(ExactOracle):
    def __init__(self, *a, refs=(), match=None, trees=None, **k):
        super().__init__(*a, **k)
        self.refs, self.match, self.trees = refs, match, trees

    def find_cex(self, h):
        tree = self.trees[-1]
        self.inspect(h, tree)
        return super().find_cex(h)

    def inspect(self, h, tree):
        m, env = self.m, self.m.env
        A, mealy = m.A, m.kind == 'mealy'
        seen = nodes(tree, mealy)
        env.check(And([Eq(o, m.output(w)) for w, (o, _) in seen.items() if w or not mealy]), 'an observation is not an answer of the system')
        env.check(And([Eq(hyp_outputs(h, w)[-1] if w else state_out(h, h.initial_state), o) for w, (o, _) in seen.items() if w or not mealy]),
                  'the hypothesis contradicts an observation')
        access = {id(t): w for w, (_, t) in seen.items()}
        basis = [access[id(b)] for b in tree.basis]
        env.check(len(set(basis)) == len(basis) and basis[0] == (), 'basis states are not distinct')
        env.check(len(h.states) == len(basis), 'the hypothesis has not one state per basis state')
        env.check(all(w[:-1] in basis for w in basis if w), 'the basis is not prefix closed')
        below = {w: nodes(tree, mealy, tree_at(seen, w)) for w in set(basis) | {b + (a,) for b in basis for a in A if b + (a,) in seen}}
        for i, b in enumerate(basis):
            for c in basis[:i]:
                env.check(Not(agreement(below[b], below[c], mealy)), 'two basis states are not told apart by an observation')
                env.check(hyp_state(h, b) is not hyp_state(h, c), 'two basis states share a hypothesis state')
            for a in A:
                t = b + (a,)
                env.check(t in seen, 'a basis state lacks an observation')
                if t in basis:
                    continue
                for c in basis:
                    env.check(Iff(agreement(below[t], below[c], mealy), hyp_state(h, t) is hyp_state(h, c)),
                              'a transition does not lead to the only state that the observations allow')
        env.cover('inspected')
        if len(basis) > 1:
            env.cover('several')
        if self.match:
            self.matching(tree, basis, below, mealy)

    def matching(self, tree, basis, below, mealy):
        env = self.m.env
        sm = tree.state_matcher
        flat = [(r, s) for r in self.refs if set(self.m.A) & set(r.get_input_alphabet()) for s in r.states]
        if not flat:
            return
        comb = sm.combined_model.states
        env.check(len(comb) == len(flat), 'the combined model does not consist of the states of the references')
        for node in tree.basis:
            b = [w for w in basis if below[w][()][1] is node][0]
            score = []
            for r, s in flat:
                pairs = []
                for w, (o, _) in below[b].items():
                    if not w and mealy:
                        continue
                    q, out = s, state_out(r, s) if not mealy else None
                    for a in w:
                        if a not in q.transitions:
                            break
                        out = state_out(r, q, a) if mealy else None
                        q = q.transitions[a]
                        if not mealy:
                            out = state_out(r, q)
                    else:
                        pairs.append(Eq(o, out))
                score.append(pairs)
            best = sm.best_match[node]
            inside = [any(x is c for x in best) for c in comb]
            env.check(len(best) == sum(inside), 'matched states are not states of the references')
            if self.match == 'Total':
                for k, pairs in enumerate(score):
                    env.check(Iff(And(pairs), inside[k]), 'total matching: not the reference states that agree with all observations')
            else:
                ratio = []
                for pairs in score:
                    good = sum(1 for p in pairs if sym.truth(p))
                    ratio.append(Fraction(good, len(pairs)) if pairs else Fraction(0))
                top = max(ratio)
                for k, x in enumerate(ratio):
                    env.check(inside[k] == (x == top and x > 0), 'approximate matching: not the reference states with the highest share of agreeing outputs')
            if any(inside):
                env.cover('match')
            if not all(inside):
                env.cover('mismatch')


def tree_at(seen, w):
    return seen[w][1]


def h_lsharp(env, kind, n, na, ext='choose', sep='choose', style='shortest', maxlen=None, pad=1, family=None):
    from aalpy.learning_algs import run_Lsharp
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    sul = MachineSUL(m)
    ext = env.choose([None, 'SepSeq', 'ADS'], 'ext') if ext == 'choose' else ext
    sep = env.choose(['SepSeq', 'ADS'], 'sep') if sep == 'choose' else sep
    with capture() as trees:
        orc = Watch(A, sul, m, style, maxlen, pad, trees=trees)
        h = run_Lsharp(list(A), sul, orc, kind, extension_rule=ext, separation_rule=sep, cache_and_non_det_check=False, print_level=0)
    assert_equivalent(env, m, h)


def references(env, kind, shape, structs):
    refs = []
    for r, (k, al, i0) in enumerate(REFS[shape]):
        st = None
        if structs:
            st = env.choose(structs, f'st{r}')
            st = [[x % k for x in row[:len(al)]] for row in st[:k]]
        refs.append(sym_automaton(env, kind, k, list(al), f'r{r}', lazy=False, initial=i0, structure=st))
    return refs


def h_adaptive(env, kind, n, na, shape, ext=None, sep='SepSeq', mode='choose', style='shortest', maxlen=None, structs=None, family=None):
    from aalpy.learning_algs import run_adaptive_Lsharp
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A, family=family)
    sul = MachineSUL(m)
    reb, match = env.choose(MODES, 'mode') if mode == 'choose' else mode
    refs = references(env, kind, shape, structs)
    with capture() as trees:
        orc = Watch(A, sul, m, style, maxlen, refs=refs, match=match, trees=trees)
        h = run_adaptive_Lsharp(list(A), sul, refs, orc, kind, extension_rule=ext, separation_rule=sep, rebuilding=reb,
                                state_matching=match, cache_and_non_det_check=False, print_level=0)
    assert_equivalent(env, m, h)


def h_same(env, kind, n, na, ext=None, sep='SepSeq', mode='choose', family=None, initial='choose'):
    """the only reference has the behaviour of the system: rebuilding finds all states"""
    from aalpy.learning_algs import run_adaptive_Lsharp
    A = ['a', 'b', 'c'][:na]
    ref = sym_automaton(env, kind, n, A, 'r', lazy=False, initial=initial, structure=SHAPES.get(family))
    t = snapshot(ref)
    if len(t.reach()) < n:
        raise sym.PathAbort('unreachable states')
    # every two states are told apart by some non-empty word
    env.assume(And([Not(t.equiv(i, j)) if kind == 'mealy' else Or([Not(t.equiv(t.delta[i][a], t.delta[j][a])) for a in A])
                    for i in range(n) for j in range(i)]))
    m = Machine(env, kind, n, A, 'm', family=[[t.delta[q][a] for a in A] for q in range(n)])
    perm = [(q + t.init) % n for q in range(n)]       # the system starts in state 0
    inv = {p: q for q, p in enumerate(perm)}
    m.delta = [[inv[t.delta[perm[q]][a]] for a in A] for q in range(n)]
    m.out = [[t.out[perm[q]][a] for a in A] if kind == 'mealy' else t.out[perm[q]] for q in range(n)]
    sul = MachineSUL(m)
    match = env.choose([None, 'Total', 'Approximate'], 'match')
    with capture() as trees:
        orc = Watch(A, sul, m, refs=[ref], match=match, trees=trees)
        h, info = run_adaptive_Lsharp(list(A), sul, [ref], orc, kind, extension_rule=ext, separation_rule=sep, rebuilding=True,
                                      state_matching=match, cache_and_non_det_check=False, return_data=True, print_level=0)
    env.check(orc.calls == 1 and info['learning_rounds'] == 1, 'more than one equivalence query although the reference has the behaviour of the system')
    env.check(info['rebuild_states'] == n - 1, 'rebuilding misses states of the reference')
    assert_equivalent(env, m, h)
    env.cover('rebuilt')


def h_apart(env, kind, na, L, k):
    """apartness and witnesses on arbitrary observation trees"""
    from aalpy.learning_algs.deterministic.ObservationTree import ObservationTree
    from aalpy.learning_algs.deterministic.Apartness import Apartness
    A = ['a', 'b', 'c'][:na]
    mealy = kind == 'mealy'
    m = LazyOutputs(env, kind)
    tree = ObservationTree(A, m, kind, None, 'SepSeq')
    ws = []
    for i in range(k):
        w = tuple(env.choose(A, f'w{i}{j}') for j in range(env.choose(range(1, L + 1), f'len{i}')))
        tree.insert_observation(list(w), m.query(w)[-len(w):] if w else [])
        ws.append(w)
    seen = nodes(tree, mealy)
    want = {w[:i] for w in ws for i in range(len(w) + 1)} | {()}
    env.check(set(seen) == want, 'the tree does not contain exactly the inserted words')
    env.check(And([Eq(o, m.out(w)) for w, (o, _) in seen.items() if w or not mealy]), 'the tree does not contain the inserted outputs')
    for w in ws:
        env.check(Eq(tuple(tree.get_observation(w)), tuple(m.out(w[:i + 1]) for i in range(len(w)))), 'get_observation')
    words_ = sorted(seen, key=lambda w: (len(w), w))
    x = env.choose(words_, 'x')
    y = env.choose(words_, 'y')
    X, Y = nodes(tree, mealy, seen[x][1]), nodes(tree, mealy, seen[y][1])
    agree = agreement(X, Y, mealy)
    env.check(Eq(tuple(tree.get_access_sequence(seen[x][1])), x), 'access sequence')
    apart = Apartness.states_are_apart(seen[x][1], seen[y][1], tree)
    env.check(Iff(apart, Not(agree)), 'states are apart iff an observed word tells them apart')
    wit = Apartness.compute_witness(seen[x][1], seen[y][1], tree)
    env.check((wit is not None) == bool(apart), 'witness iff apart')
    if wit is not None:
        env.cover('apart')
        wit = tuple(wit)
        env.check(wit in X and wit in Y and (wit or not mealy), 'witness is not observed from both states')
        env.check(Not(Eq(X[wit][0], Y[wit][0])), 'witness does not tell the states apart')
    else:
        env.cover('together')


class LazyOutputs(SUL):
    """arbitrary answers, the same ones for the same word"""

    def __init__(self, env, kind):
        super().__init__()
        self.env, self.kind, self.memo, self.w = env, kind, {}, ()

    def out(self, w):
        w = tuple(w)
        if w not in self.memo:
            name = 'o' + ''.join(w)
            self.memo[w] = self.env.bool(name) if self.kind == 'dfa' else self.env.val(name)
        return self.memo[w]

    def pre(self):
        self.w = ()

    def post(self):
        pass

    def step(self, a):
        if a is None:
            return self.out(())
        self.w += (a,)
        return self.out(self.w)


# these also with the letters 0, 1, ...
ZERO = ['cex-mealy-3-2-any-4-SepSeq-None']


def configs(tier):
    out = []

    def add(fn, name, covers=(), **kw):
        out.append(Config(name + '-' + '-'.join(f'{v}' for v in kw.values() if not isinstance(v, list)), fn, kw, covers=list(covers)))
    S1 = S3[:1]
    T = tier == 'thorough'
    for kind in ('mealy', 'dfa', 'moore'):
        add(h_apart, 'apart', ['apart', 'together'], kind=kind, na=2, L=3, k=2 + T)
        add(h_apart, 'apart', ['apart', 'together'], kind=kind, na=1, L=4, k=1)
        add(h_same, 'same', ['rebuilt'], kind=kind, n=2, na=2)
    # arbitrary counterexamples: hypotheses that contradict old observations
    add(h_lsharp, 'cex', ['inspected', 'several'], kind='mealy', n=3, na=2, style='any', maxlen=4, sep='SepSeq', **({} if T else dict(ext=None)), family=[[0, 1], [2, 0], [1, 2]])
    for f in SHAPES:
        for kind in ('dfa', 'moore') if T or f in ('s3', 's4') else ('dfa',):
            add(h_lsharp, 'cex', ['inspected', 'several'], kind=kind, n=4, na=2, style='any', maxlen=5 if T and kind == 'dfa' else 4, family=f)
        if f != 's3':     # two states that only the empty word can tell apart
            add(h_same, 'same', ['rebuilt'], kind='dfa', n=4, na=2, family=f)
        add(h_lsharp, 'lsharp', ['inspected', 'several'], kind='dfa', n=4, na=2, style='shortest', family=f)
        for mode in MODES[1:]:
            add(h_adaptive, 'adaptive', ['match', 'mismatch'], kind='dfa', n=4, na=2, shape='sub2', mode=mode, structs=S1, family=f)
            if T:
                add(h_adaptive, 'adaptive', ['match', 'mismatch'], kind='dfa', n=4, na=2, shape='same2', mode=mode, structs=S1, family=f)
                add(h_adaptive, 'adaptive', ['match', 'mismatch'], kind='moore', n=4, na=2, shape='sub2', mode=mode, structs=S1, family=f)
    for kind in ('mealy', 'dfa', 'moore'):
        for sh in ('sub2', 'overlap2', 'disjoint+same', 'two') if T or kind != 'mealy' else ('sub2',):
            add(h_adaptive, 'adaptive', ['match', 'mismatch'], kind=kind, n=2, na=2, shape=sh, structs=S1)
    add(h_lsharp, 'lsharp', ['inspected', 'several'], kind='mealy', n=2, na=2)
    add(h_lsharp, 'lsharp', ['inspected', 'several'], kind='dfa', n=4, na=1, style='any', maxlen=5)
    if T:
        for kind in ('mealy', 'dfa', 'moore'):
            add(h_same, 'same', ['rebuilt'], kind=kind, n=3, na=1)
            add(h_lsharp, 'lsharp', ['inspected', 'several'], kind=kind, n=3, na=2)
        add(h_same, 'same', ['rebuilt'], kind='dfa', n=3, na=2)
        add(h_same, 'same', ['rebuilt'], kind='mealy', n=3, na=2)
    return out
