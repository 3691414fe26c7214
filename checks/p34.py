"""sampled and converted data is faithful to its model and format"""
import builtins
import importlib
import os
import random
import tempfile
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq, truth
from engine.nd import PdaTables, sym_sevpa, sym_vpa
from engine.stubs import random_stubbed

PROPERTY = 'P34'
OUTSIDE = 'larger models, longer words and files; more than the listed number of free random draws (later draws are pseudo-random with a fixed seed)'
ASSUMPTIONS = ['models are input complete; for complete samples all states are reachable and different',
               'outputs are arbitrary values that support equality only; letters are fixed']


def tables(env, kind, n, A, initial=0):
    m = sym_automaton(env, kind, n, A, 'm', lazy=False, initial=initial)
    return m, snapshot(m)


def ref_io(t, kind, w):
    outs = t.run(t.init, w)[1]
    tr = list(zip(w, outs))
    return tr if kind == 'mealy' else [t.out[t.init]] + tr


def same_trace(x, y):
    """equal lists of (input, output) pairs, with a leading output for Moore-like machines"""
    if len(x) != len(y):
        return False
    conj = []
    for a, b in zip(x, y):
        if isinstance(b, tuple):
            if not isinstance(a, tuple) or len(a) != 2 or a[0] != b[0]:
                return False
            conj.append(Eq(a[1], b[1]))
        else:
            conj.append(Eq(a, b))
    return And(conj)


def unchanged(env, m, t):
    now = snapshot(m)
    env.check(now.delta == t.delta and now.init == t.init and And([now.equiv(i, i, t) for i in range(len(t.delta))]), 'the model is changed')


def h_traces(env, kind, n, na, L):
    """outputs attached to given input words"""
    from aalpy.utils.Sampling import get_io_traces, get_labeled_sequences, get_data_from_input_sequence
    A = ['a', 'b'][:na]
    m, t = tables(env, kind, n, A, 'choose')
    W = [list(w) for w in words(A, 0, L)]
    env.choose(1, 'x')
    for f in (get_io_traces, lambda m, w: get_data_from_input_sequence(m, w, 'io_sequences')):
        got = f(m, [list(w) for w in W])
        env.check(len(got) == len(W), 'number of traces')
        for g, w in zip(got, W):
            env.check(same_trace(g, ref_io(t, kind, w)), 'io trace')
    WL = W if kind != 'mealy' else [w for w in W if w]
    for f in (get_labeled_sequences, lambda m, w: get_data_from_input_sequence(m, w, 'labeled_sequences')):
        got = f(m, [list(w) for w in WL])
        env.check(len(got) == len(WL), 'number of labelled sequences')
        for (g, o), w in zip(got, WL):
            env.check(list(g) == w, 'inputs of a labelled sequence')
            env.check(Eq(o, t.run(t.init, w)[1][-1] if w else t.out[t.init]), 'label')
    if kind == 'mealy':
        try:
            get_labeled_sequences(m, [[]])
            env.fail('the empty word has no label')
        except ValueError:
            pass
    unchanged(env, m, t)
    env.cover('traces')


def h_sample(env, kind, n, na, num, lo, hi, budget, outputs, mode, seed=3):
    """random samples: number, lengths, letters, outputs"""
    from aalpy.utils.Sampling import sample_with_length_limits, sample_with_term_prob
    A = ['a', 'b'][:na]
    m, t = tables(env, kind, n, A, 'choose')
    p = env.real('p', 0)
    env.assume(p < 1)
    with random_stubbed(shuffle='all', budget=budget, after=random.Random(seed) if mode == 'length' else 0.0) as st:
        src = m if outputs or env.choose(2, 'src') else list(A)
        if mode == 'length':
            got = sample_with_length_limits(src, num, lo, hi, include_outputs=outputs)
        else:
            if not isinstance(src, list) or True:
                got = sample_with_term_prob(src, num, p, include_outputs=outputs)
    env.check(len(got) == num, 'number of samples')
    Wd = []
    for g in got:
        body = g if not outputs or kind == 'mealy' else g[1:]
        w = [x[0] for x in body] if outputs else list(g)
        Wd.append(w)
        env.check(all(a in A for a in w), 'letter outside of the alphabet')
        if mode == 'length':
            env.check(lo <= len(w) <= hi, 'length of a sample')
            env.cover(f'len{len(w)}')
        if outputs:
            env.check(same_trace(g, ref_io(t, kind, w)), 'outputs of a sample')
    if mode == 'term':
        draws = [c[1] for c in st.calls if c[0] == 'random']
        x = 0
        for w in Wd:
            for y in range(len(w) + 1):
                if x >= len(draws):
                    break
                # a word goes on as long as the draws exceed the termination probability
                env.check(Eq(draws[x] > p, y < len(w)), 'termination')
                x += 1
        env.cover(f'len{min(2, len(Wd[0]))}')
    if isinstance(src, list):
        try:
            sample_with_length_limits(list(A), 1, 1, 1, include_outputs=True)
            env.fail('outputs without a model')
        except ValueError:
            pass
    unchanged(env, m, t)
    env.cover('sampled')


def h_complete(env, kind, n, na, learn):
    """the complete sample covers all states and transitions with a characterization set, and identifies the model"""
    from aalpy.utils.Sampling import get_complete_sample, get_labeled_sequences
    A = ['a', 'b'][:na]
    m, t = tables(env, kind, n, A)
    env.assume(len(t.reach()) == n)
    for i in range(n):
        for j in range(i):
            env.assume(Not(t.equiv(i, j)))
    got = get_complete_sample(m)
    W = [tuple(w) for w in got]
    env.check(all(a in A for w in W for a in w), 'letter outside of the alphabet')
    with_out = get_complete_sample(m, include_outputs=True)
    env.check(len(with_out) == len(W), 'number of traces')
    for g, w in zip(with_out, W):
        env.check(same_trace(g, ref_io(t, kind, w)), 'outputs of a sample')
    dist = t.dist(t.init)
    S = set(W)
    pref = {w[:i] for w in S for i in range(len(w) + 1)}
    # for every state and every letter: some shortest access word followed by the letter and by suffixes telling all states apart
    for q in range(n):
        for x in [()] + [(a,) for a in A]:
            ok = False
            for u in words(A, dist[q], dist[q]):
                if t.run(t.init, u)[0] != q:
                    continue
                base = u + x
                if kind == 'mealy':
                    ok = ok or base in pref
                else:
                    ok = ok or base in S or base in pref
            env.check(ok, 'a transition is not covered')
    for q in range(n):
        for x in [()] + [(a,) for a in A]:
            for q1 in range(n):
                for q2 in range(q1):
                    ok = False
                    for u in words(A, dist[q], dist[q]):
                        if t.run(t.init, u)[0] != q:
                            continue
                        base = u + x
                        sufs = {w[len(base):] for w in S if w[:len(base)] == base}
                        diffs = []
                        for z in sufs:
                            o1, o2 = t.run(q1, z)[1], t.run(q2, z)[1]
                            if kind != 'mealy':
                                o1, o2 = [t.out[q1]] + o1, [t.out[q2]] + o2
                            diffs.append(Not(SeqEq(o1, o2)))
                        ok = ok or truth(Or(diffs))
                    env.check(ok, 'the suffixes of a transition do not tell two states apart')
    unchanged(env, m, t)
    env.cover('complete')
    if learn:
        from aalpy.learning_algs import run_RPNI
        if kind == 'dfa':
            data = [(w, o) for w, o in get_labeled_sequences(m, [list(w) for w in S])]
            data = [(tuple(w), o) for w, o in data]
        else:
            data = list({(w[:k], None) for w in S for k in range(0 if kind == 'moore' else 1, len(w) + 1)})
            data = [(w, t.run(t.init, w)[1][-1] if w else t.out[t.init]) for w, _ in sorted(data)]
        data.sort(key=lambda d: (len(d[0]), d[0]))
        h = run_RPNI(data, kind, algorithm=learn, print_info=False)
        env.check(h is not None and h.size == n and h.is_input_complete(), 'the sample does not identify the model')
        t2 = snapshot(h)
        env.check(set(t2.delta[t2.init]) == set(A) and t.equiv(t.init, t2.init, t2), 'the sample does not identify the model')
        env.cover('identified')


def h_gen(env, kind, n, na, num, lo, hi, budget, fmt, seed=3):
    from aalpy.utils import generate_input_output_data_from_automata
    A = ['a', 'b'][:na]
    m, t = tables(env, kind, n, A)
    with random_stubbed(budget=budget, after=random.Random(seed)):
        got = generate_input_output_data_from_automata(m, num_sequances=num, min_seq_len=lo, max_seq_len=hi, sequance_type=fmt)
    env.check(len(got) == num, 'number of sequences')
    for g in got:
        if fmt == 'io_traces':
            w = [a for a, _ in g]
            env.check(same_trace(g, list(zip(w, t.run(t.init, w)[1]))), 'outputs')
        else:
            w, o = g
            env.check(len(w) > 0 and Eq(o, t.run(t.init, w)[1][-1]), 'label')
        env.check(lo <= len(w) <= hi and all(a in A for a in w), 'inputs')
        env.cover(f'len{len(w)}')
    unchanged(env, m, t)


def h_vpa(env, kind, n, nI, nC, nR, num, L, budget, attempts, seed=3):
    from aalpy.utils import generate_input_output_data_from_vpa
    I, C, R = ['i', 'j'][:nI], ['(', '['][:nC], [')', ']'][:nR]
    m = sym_sevpa(env, n, I, C, R, initial=0) if kind == 'sevpa' else sym_vpa(env, n, I, C, R, initial=0)
    t = PdaTables(m)
    A = I + C + R
    env.assume(set(m.input_alphabet.get_merged_alphabet()) == set(A))
    with random_stubbed(budget=budget, after=random.Random(seed)):
        got = generate_input_output_data_from_vpa(m, num_sequances=num, max_seq_len=L, max_attempts=attempts)
    seqs = [tuple(s) for s, _ in got]
    env.check(len(set(seqs)) == len(seqs), 'duplicate sequences')
    for s, o in got:
        env.check(0 < len(s) <= L and all(a in A for a in s), 'inputs')
        env.check(Eq(o, t.run(s)[-1]), 'label')
        env.check(len(s) == 1 or tuple(s[:-1]) in seqs, 'a prefix is missing')
    env.check(len(seqs) >= num or attempts is not None, 'too few sequences')
    env.check(len(seqs) < num + L, 'sequences generated after the requested number was reached')
    env.check(PdaTables(m).same(t), 'the model is changed')
    env.cover('enough' if len(seqs) >= num else 'stopped')


def h_cases(env, kind, n, na, depth, oracle):
    """test cases of a conformance test generator, answered by the model"""
    from aalpy.utils import generate_test_cases
    from aalpy.oracles import BreadthFirstExplorationEqOracle, WMethodEqOracle
    A = ['a', 'b'][:na]
    m, t = tables(env, kind, n, A)
    env.assume(len(t.reach()) == n)
    m.compute_prefixes()
    orc = (BreadthFirstExplorationEqOracle(A, None, depth=depth) if oracle == 'bfe' else WMethodEqOracle(A, None, max_number_of_states=depth))
    with random_stubbed(shuffle='id'):
        try:
            got = generate_test_cases(m, orc)
        except AssertionError:
            env.fail('a counterexample between a model and itself')
    env.cover('cases')
    for w, o in got:
        env.check(len(w) > 0 and SeqEq(list(o), t.run(t.init, w)[1]), 'outputs of a test case')
    W = [tuple(w) for w, _ in got]
    if oracle == 'bfe':
        env.check(len(set(W)) == len(W), 'duplicate test case')
        pref = {w[:i] for w in W for i in range(len(w) + 1)}
        env.check(all(w in pref for w in words(A, 1, depth)), 'a word up to the depth is missing')
        env.check(all(len(w) <= depth for w in W), 'test case longer than the depth')
    unchanged(env, m, t)


class Recorder:
    """a stepping model that records what it was asked and what it answered"""

    def __init__(self, m):
        self.m, self.runs = m, []

    def get_input_alphabet(self):
        return self.m.get_input_alphabet()

    def reset_to_initial(self):
        self.runs.append([])
        return self.m.reset_to_initial()

    def step(self, i):
        o = self.m.step(i)
        self.runs[-1].append((i, o))
        return o


def h_smc(env, kind, n, na, steps, num, budget, seed=3):
    from aalpy.utils import statistical_model_checking
    A = ['a', 'b'][:na]
    m, t = tables(env, kind, n, A)
    goals = [env.val('g0'), env.val('g1')][:env.choose([1, 2], 'goals')]
    r = Recorder(m)
    with random_stubbed(budget=budget, after=random.Random(seed)):
        got = statistical_model_checking(r, set(goals), steps, num)
    env.check(len(r.runs) == num and all(len(x) == steps for x in r.runs), 'number or length of the tests')
    hit = 0
    for x in r.runs:
        outs = t.run(t.init, [i for i, _ in x])[1]
        env.check(SeqEq([o for _, o in x], outs), 'the model is not reset between tests')
        if truth(Or([Eq(o, g) for o in outs for g in goals])):
            hit += 1
    env.check(got == hit / num, 'relative frequency')
    env.cover(f'hit{hit}')


def h_convert(env, kind, num, L):
    """io traces to labelled prefixes"""
    from aalpy.utils import convert_i_o_traces_for_RPNI
    A = ['a', 'b']
    out = {}

    def o(w):
        if w not in out:
            out[w] = env.val('o' + ''.join(w))
        return out[w]
    data, want = [], set()
    for k in range(num):
        w = [env.choose(A, f'w{k}{x}') for x in range(env.choose(L, f'len{k}') + 1)]
        tr = [] if kind == 'mealy' else [o(())]
        if kind != 'mealy':
            want.add(())
        for x in range(len(w)):
            tr.append((w[x], o(tuple(w[:x + 1]))))
            want.add(tuple(w[:x + 1]))
        data.append(tr)
    copy = [list(x) for x in data]
    got = convert_i_o_traces_for_RPNI([list(x) for x in data], kind)
    env.check([g[0] for g in got].__len__() == len(want) and {g[0] for g in got} == want, 'prefixes')
    env.check(And([Eq(g[1], out[g[0]]) for g in got]), 'labels')
    env.cover('converted')


def h_convert_wild(env, kind, num, L):
    """traces that may contradict each other: every pair of word and label is kept"""
    from aalpy.utils import convert_i_o_traces_for_RPNI
    A = ['a', 'b']
    data, want = [], []
    for k in range(num):
        w = [env.choose(A, f'w{k}{x}') for x in range(env.choose(L, f'len{k}') + 1)]
        outs = [env.val(f'o{k}.{x}') for x in range(len(w) + 1)]
        tr = [] if kind == 'mealy' else [outs[0]]
        if kind != 'mealy':
            want.append(((), outs[0]))
        for x in range(len(w)):
            tr.append((w[x], outs[x + 1]))
            want.append((tuple(w[:x + 1]), outs[x + 1]))
        data.append(tr)
    got = convert_i_o_traces_for_RPNI([list(x) for x in data], kind)
    for x, y, msg in ((want, got, 'a labelled prefix is lost'), (got, want, 'a labelled prefix is made up')):
        for w, o in x:
            env.check(Or([Eq(o, o2) for w2, o2 in y if w2 == w]), msg)
    env.cover('wild')


def h_mc(env, L):
    from aalpy.utils.HelperFunctions import mc_format_to_mdp
    k = env.choose(L, 'len')
    data = [[env.val(f's{x}{y}') for y in range(k + 1)] for x in range(2)]
    got = mc_format_to_mdp([list(s) for s in data])
    env.check(len(got) == 2, 'number of sequences')
    for g, s in zip(got, data):
        env.check(len(g) == len(s) and Eq(g[0], s[0]), 'length or first output')
        env.check(len({x[0] for x in g[1:]}) <= 1 and And([Eq(x[1], y) for x, y in zip(g[1:], s[1:])]), 'outputs')
    env.cover('mc')


def h_cuts(env, L):
    """prefixes, suffixes and set extension"""
    from aalpy.utils.HelperFunctions import all_prefixes, all_suffixes, is_suffix_of, get_cex_prefixes, extend_set
    n = env.choose(L + 1, 'n')
    w = [env.val(f'w{x}') for x in range(n)]
    got = all_prefixes(w)
    env.check(len(got) == n and And([SeqEq(list(g), w[:i + 1]) for i, g in enumerate(got)]), 'prefixes')
    got = all_suffixes(w)
    env.check(len(got) == n and And([SeqEq(list(g), w[n - i - 1:]) for i, g in enumerate(got)]), 'suffixes')
    k = env.choose(L + 1, 'k')
    v = [env.val(f'v{x}') for x in range(k)]
    env.check(Eq(truth(is_suffix_of(tuple(v), tuple(w))), And([k <= n, SeqEq(v, w[n - k:]) if k <= n else False])), 'suffix test')
    # mdp: output input output ..., smm: input output input output ...
    got = get_cex_prefixes(w, 'mdp')
    env.check([len(g) for g in got] == list(range(1, n + 1, 2)) and And([SeqEq(list(g), w[:len(g)]) for g in got]), 'mdp prefixes')
    got = get_cex_prefixes(w, 'smm')
    env.check([len(g) for g in got] == list(range(0, n + 1, 2)) and And([SeqEq(list(g), w[:len(g)]) for g in got]), 'smm prefixes')
    old = [('a',)] * min(k, 1)
    new = [tuple(x) for x in [('a',), ('b',), ('a', 'b')][:n]]
    lst = list(old)
    added = extend_set(lst, new)
    env.check(added == [x for x in new if x not in old] and lst == old + added, 'set extension')
    env.cover('cuts')


CH = ['a', '1', ',', '/', ' ', '\n']


def h_files(env, L, what, chars):
    """text files: every text of the given length over the delimiters, digits and letters"""
    D = importlib.import_module('aalpy.utils.DataHandler')
    text = ''.join(env.choose(chars, f'c{x}') for x in range(env.choose(L + 1, 'len')))
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    d = tempfile.mkdtemp(prefix='p34')
    path = os.path.join(d, 'f.txt')
    try:
        with builtins.open(path, 'w') as f:
            f.write(text)
        if what == 'char':
            got = D.CharacterTokenizer().tokenize_data(path)
            env.check(got == [list(l) for l in lines], 'characters')
        elif what == 'delim':
            got = D.DelimiterTokenizer().tokenize_data(path)
            want = []
            for l in lines:
                seq, cur = [], ''
                for c in l:
                    if c == ',':
                        seq.append(cur)
                        cur = ''
                    else:
                        cur += c
                want.append(seq + [cur])
            env.check(got == want, 'symbols')
        else:
            bad, want = False, []
            for l in lines:
                ws, cur = [], ''
                for c in l + ',':
                    if c == ',':
                        ws.append(cur)
                        cur = ''
                    else:
                        cur += c
                seq = [num(ws[0])]
                for x in ws[1:]:
                    if x.count('/') != 1:
                        bad = True
                        break
                    i = x.index('/')
                    seq.append((num(x[:i]), num(x[i + 1:])))
                want.append(seq)
            try:
                got = D.IODelimiterTokenizer().tokenize_data(path)
            except SystemExit:
                env.check(bad, 'a well-formed file is refused')
                env.cover('refused')
                return
            env.check(not bad, 'a malformed file is read')
            env.check(got == want and all(type(x) is type(y) for g, w in zip(got, want) for x, y in zip(g, w)), 'symbols')
            # one symbol of the file is one symbol of the data
            env.cover('pairs' if any(len(g) > 1 for g in got) else 'single')
        env.cover('read')
    finally:
        os.remove(path) if os.path.exists(path) else None
        os.rmdir(d)


def num(x):
    """decimal numerals are numbers"""
    return int(x) if x and all(c in '0123456789' for c in x) else x


def h_numeral(env, what):
    """symbols with digits of any script"""
    D = importlib.import_module('aalpy.utils.DataHandler')
    s = env.choose(['7', '12', '²', '1²', '٣', 'x1', '-1', '1.5', ''], 's')
    d = tempfile.mkdtemp(prefix='p34')
    path = os.path.join(d, 'f.txt')
    try:
        with builtins.open(path, 'w') as f:
            f.write(f'{s},{s}/{s}\n')
        got = D.IODelimiterTokenizer().tokenize_data(path)
        env.check(len(got) == 1 and len(got[0]) == 2, 'shape')
        first, (i, o) = got[0]
        env.check(first == i == o, 'one symbol of the file becomes different symbols')
        env.check(str(first) == s or s == '٣', 'symbol')
        env.cover('numeral')
    finally:
        os.remove(path)
        os.rmdir(d)


# these also with the letters 0, 1, ...
ZERO = ['traces-dfa', 'term-mealy', 'complete-moore-n2a2']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers, **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=20))
    for kind in ('dfa', 'moore', 'mealy'):
        add(f'traces-{kind}', h_traces, ['traces'], kind=kind, n=2, na=2, L=4 if T else 3)
        add(f'traces3-{kind}', h_traces, ['traces'], kind=kind, n=3, na=2 if T else 1, L=4)
        add(f'length-{kind}', h_sample, ['sampled', 'len0', 'len1', 'len2'], kind=kind, n=1, na=2, num=2, lo=0, hi=2, budget=8, outputs=False, mode='length')
        add(f'length-out-{kind}', h_sample, ['sampled', 'len1', 'len2'], kind=kind, n=2, na=2, num=2 if T else 1, lo=1, hi=3 if T else 2, budget=8, outputs=True, mode='length')
        add(f'term-{kind}', h_sample, ['sampled', 'len0', 'len1', 'len2'], kind=kind, n=1, na=2, num=2, lo=0, hi=0, budget=7 if T else 5, outputs=False, mode='term')
        add(f'term-out-{kind}', h_sample, ['sampled', 'len0', 'len1', 'len2'], kind=kind, n=2, na=2, num=1, lo=0, hi=0, budget=7 if T else 5, outputs=True, mode='term')
        for n, na in ((1, 2), (2, 2), (3, 1)) + (((3, 2), (4, 1)) if T else ()):
            add(f'complete-{kind}-n{n}a{na}', h_complete, ['complete'], kind=kind, n=n, na=na, learn=None)
        for alg in ('gsm', 'classic'):
            add(f'identify-{alg}-{kind}-n2', h_complete, ['complete', 'identified'], kind=kind, n=2, na=2 if T else 1, learn=alg)
            add(f'identify-{alg}-{kind}-n3', h_complete, ['complete', 'identified'], kind=kind, n=3, na=1, learn=alg)
        for fmt in ('io_traces', 'labeled_sequences'):
            add(f'gen-{fmt[:2]}-{kind}', h_gen, ['len1', 'len2'], kind=kind, n=2, na=2, num=2, lo=1, hi=2, budget=7, fmt=fmt)
        add(f'cases-bfe-{kind}', h_cases, ['cases'], kind=kind, n=2, na=2, depth=3, oracle='bfe')
        add(f'cases-w-{kind}', h_cases, ['cases'], kind=kind, n=2, na=2, depth=3, oracle='w')
        add(f'convert-{kind}', h_convert, ['converted'], kind=kind, num=3 if T else 2, L=3)
        add(f'convert-wild-{kind}', h_convert_wild, ['wild'], kind=kind, num=3 if T else 2, L=2)
    for kind in ('moore', 'mealy'):
        add(f'smc-{kind}', h_smc, ['hit0', 'hit2'], kind=kind, n=2, na=1, steps=2, num=2, budget=4)
        add(f'smc-{kind}-a2', h_smc, ['hit0', 'hit1', 'hit2'], kind=kind, n=2, na=2, steps=2 if T else 1, num=2, budget=6)
    add('vpa', h_vpa, ['enough'], kind='vpa', n=2, nI=1, nC=1, nR=1, num=3, L=2, budget=4 if T else 3, attempts=None)
    add('vpa-few', h_vpa, ['enough', 'stopped'], kind='vpa', n=2, nI=0, nC=1, nR=1, num=3, L=2, budget=6 if T else 5, attempts=3)
    add('sevpa', h_vpa, ['enough'], kind='sevpa', n=2, nI=1, nC=1, nR=1, num=3, L=2, budget=4 if T else 3, attempts=None)
    add('sevpa-few', h_vpa, ['enough', 'stopped'], kind='sevpa', n=2, nI=0, nC=1, nR=1, num=3, L=2, budget=6 if T else 5, attempts=3)
    add('mc-format', h_mc, ['mc'], L=3)
    add('cuts', h_cuts, ['cuts'], L=4 if T else 3)
    for what in ('char', 'delim'):
        add(f'file-{what}', h_files, ['read'], L=5 if T else 4, what=what, chars=['a', '1', ',', '\n', ' '])
    add('file-io', h_files, ['read', 'refused', 'pairs', 'single'], L=6 if T else 5, what='io', chars=['a', '1', ',', '/', '\n'])
    add('numerals', h_numeral, ['numeral'], what='io')
    return out
