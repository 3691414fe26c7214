"""VPAs and SEVPAs follow stack semantics"""
import random
from engine.runner import Config
from engine.models import words
from engine.sym import Eq, And, Or, Not, truth
from engine.nd import PdaTables, sym_sevpa, sym_vpa
from engine.stubs import random_stubbed

PROPERTY = 'P31'
OUTSIDE = 'more states, letters or longer words; several moves for the same input and stack symbol; termination of random word generation when wrapping the word cannot lead to acceptance'
ASSUMPTIONS = ['letters are only internal, only call or only return letters']


def truth_(x):
    return bool(truth(x))


def build(env, kind, n, nI, nC, nR, missing=True, symbols=None, initial='choose'):
    I, C, R = ['i', 'j'][:nI], ['(', '['][:nC], [')', ']'][:nR]
    if kind == 'sevpa':
        m = sym_sevpa(env, n, I, C, R, missing=missing, initial=initial)
    else:
        m = sym_vpa(env, n, I, C, R, missing=missing, symbols=symbols, initial=initial)
    return I, C, R, m, PdaTables(m)


def h_words(env, kind, n, nI, nC, nR, L, missing=True, symbols=None, unknown=True):
    """every word from a reset, through step(), query() and execute_sequence()"""
    from aalpy.SULs import AutomatonSUL
    I, C, R, m, t = build(env, kind, n, nI, nC, nR, missing, symbols)
    A = I + C + R
    sul = AutomatonSUL(m)
    for w in words(A, 1, L):
        ref = t.run(w)
        got = sul.query(w)
        env.check(len(got) == len(w) and And([Eq(x, y) for x, y in zip(got, ref)]), 'verdicts of a query')
        last = m.step(None)
        env.check(Eq(last, ref[-1]), 'verdict without an input')
    env.check(Eq(sul.query(())[-1], t.accepts(t.start())), 'verdict of the empty word')
    if kind == 'vpa' or True:
        w = tuple(A[:2])
        env.check(And([Eq(x, y) for x, y in zip(m.execute_sequence(m.initial_state, w), t.run(w))]), 'execute_sequence')
    if unknown:
        for w in (('z',), tuple(C[:1]) + ('z',), ('z',) + tuple(A[-1:])):
            env.check(And([Eq(x, y) for x, y in zip(sul.query(w), t.run(w))]), 'undefined input')
    env.check(PdaTables(m).same(t), 'stepping changes the automaton')
    env.cover('words')
    if any(t.step(t.step(t.start(), c), r) is not None for c in C for r in R):
        env.cover('matched')


def h_history(env, kind, n, nI, nC, nR, k, symbols=None):
    """an arbitrary sequence of resets, steps and queries"""
    from aalpy.SULs import AutomatonSUL
    I, C, R, m, t = build(env, kind, n, nI, nC, nR, True, symbols, initial=0)
    A = I + C + R
    sul = AutomatonSUL(m)
    m.reset_to_initial()
    c = t.start()
    for x in range(k):
        op = env.choose(['reset', 'none', 'copy'] + A, f'op{x}') if x else env.choose(A, f'op{x}')
        if op == 'reset':
            m.reset_to_initial()
            c = t.start()
            continue
        if op == 'copy':
            # another instance runs in between
            m2 = m.copy()
            m2.reset_to_initial()
            m2.step(A[-1])
            m2.step(A[0])
            continue
        if op == 'none':
            env.check(Eq(m.step(None), t.accepts(c)), 'verdict without an input')
            continue
        c = t.step(c, op)
        env.check(Eq(m.step(op), t.accepts(c)), 'verdict of a step')
        if c is None:
            env.cover('error')
        else:
            env.check(m.current_state.state_id == c[0], 'current state')
            st = tuple(m.stack) if kind == 'vpa' else tuple(m.stack)[1:]
            env.check(st == c[1], 'stack')
    env.cover('history')
    env.check(And([Eq(x, y) for x, y in zip(sul.query(tuple(A)), t.run(tuple(A)))]), 'a query depends on the history')


def accesses(t, m, A, L):
    """shortest well-matched access words of SEVPA states"""
    acc = {}
    for w in words(A, 0, L):
        c = t.start()
        for a in w:
            c = t.step(c, a)
        if c is not None and not c[1]:
            acc.setdefault(c[0], w)
    return acc


def h_access(env, n, nI, nC, nR, L, D):
    """transformed access strings lead to the same configuration"""
    I, C, R, m, t = build(env, 'sevpa', n, nI, nC, nR, True, None, 0)
    A = I + C + R
    acc = accesses(t, m, A, D)
    for s in m.states:
        s.prefix = acc.get(s.state_id)
    w = []
    m.reset_to_initial()
    c = t.start()
    for x in range(env.choose(L + 1, 'len')):
        a = env.choose(A, f'w{x}')
        w.append(a)
        m.step(a)
        c = t.step(c, a)
        env.assume(c is not None and c[0] in acc)
    u = m.transform_access_string(m.current_state)
    d = t.start()
    for a in u:
        d = t.step(d, a)
    env.check(d == c, 'the transformed word leads elsewhere')
    want = sum((acc[q] + (a,) for q, a in c[1]), ()) + acc[c[0]]
    env.check(tuple(u) == want, 'the transformed word is not made of access words and pending calls')
    env.check(tuple(m.transform_access_string(m.current_state, list(m.stack))) == want, 'explicit stack')
    env.cover('access')
    if c[1]:
        env.cover('pending')


def accepted(t, A, L):
    out = []
    for w in words(A, 1, L):
        if truth_(t.run(w)[-1]):
            out.append(w)
    return out


def h_bfs(env, n, nI, nC, nR, L, num, lo):
    """breadth-first generation of accepted words"""
    I, C, R, m, t = build(env, 'sevpa', n, nI, nC, nR, True, None, 0)
    A = I + C + R
    env.assume(set(m.input_alphabet.get_merged_alphabet()) == set(A))
    ref = [w for w in accepted(t, A, L) if len(w) >= lo]
    env.assume(len(ref) >= num)
    with random_stubbed(shuffle='choose', budget=1):
        got = m.get_accepting_words_bfs(lo, num)
    got = [tuple(w) for w in got]
    env.check(len(got) == num == len(set(got)), 'number of words')
    env.check(all(truth_(t.run(w)[-1]) for w in got), 'a generated word is not accepted')
    env.check([len(w) for w in got] == [len(w) for w in ref[:num]], 'the words are not shortest ones')
    env.cover('bfs')


def h_random(env, kind, n, nI, nC, nR, seed, L, budget, lo):
    """random generation of accepted words"""
    I, C, R, m, t = build(env, kind, n, nI, nC, nR, True, None, 0)
    A = I + C + R
    if kind == 'sevpa':
        env.assume(set(m.input_alphabet.get_merged_alphabet()) == set(A))
        acc = accesses(t, m, A, L)
        env.assume(len(acc) == n)
        env.assume(any(truth_(t.acc[q]) for q in acc))
        # the generator can only append internal letters and wrap the word: every state has to have a way to acceptance by such moves
        good = {q for q in acc if truth_(t.acc[q])}
        while True:
            more = {q for (q, a), l in t.tr.items() if q not in good and any(to in good for _, _, _, to in l)}
            if not more:
                break
            good |= more
        env.assume(len(good) == n)
    with random_stubbed(budget=budget, after=random.Random(seed)):
        if kind == 'sevpa':
            w = m.get_random_accepting_word(0.5 if I else 1.0, lo)
        else:
            w = m.generate_random_accepting_word(lo, L)
    if w is None:
        env.check(kind == 'vpa', 'no word')
        env.cover('none')
        return
    env.check(len(w) >= lo and truth_(t.run(w)[-1] if w else t.accepts(t.start())), 'the generated word is not accepted or too short')
    if kind == 'vpa':
        env.check(len(w) <= L, 'the generated word is too long')
    env.cover('random')


def h_balanced(env, L, cls):
    from aalpy.automata import VpaAlphabet, SevpaAlphabet
    from aalpy.utils.HelperFunctions import is_balanced
    from aalpy.automata import Vpa
    al = (VpaAlphabet if cls == 'vpa' else SevpaAlphabet)(['i'], ['(', '['], [')', ']'])
    A = al.get_merged_alphabet()
    env.check(A == ['i', '(', '[', ')', ']'], 'merged alphabet')
    w = [env.choose(A, f'w{x}') for x in range(env.choose(L + 1, 'len'))]
    d, ok = 0, True
    for a in w:
        d += (a in '([') - (a in ')]')
        ok = ok and d >= 0
    env.check(is_balanced(w, al) == (ok and d == 0), 'balanced')
    env.cover('balanced')


# these also with the letters 0, 1, ...
ZERO = ['sevpa-n2', 'vpa-n2']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers, **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=20))
    add('sevpa-n2', h_words, ['words', 'matched'], kind='sevpa', n=2, nI=1, nC=1, nR=1, L=4 if T else 3)
    add('sevpa-n2l5', h_words, ['words', 'matched'], kind='sevpa', n=2, nI=0, nC=1, nR=1, L=6)
    add('sevpa-n1', h_words, ['words', 'matched'], kind='sevpa', n=1, nI=1, nC=2, nR=2, L=3)
    add('sevpa-n3', h_words, ['words', 'matched'], kind='sevpa', n=3, nI=0, nC=1, nR=1, L=6, missing=False) if T else None
    add('vpa-n2', h_words, ['words', 'matched'], kind='vpa', n=2, nI=1, nC=1, nR=1, L=4 if T else 3)
    add('vpa-n2s2', h_words, ['words', 'matched'], kind='vpa', n=2, nI=0, nC=1, nR=1, L=4, symbols=['X', 'Y'], missing=T)
    add('vpa-n1', h_words, ['words', 'matched'], kind='vpa', n=1, nI=0, nC=2, nR=2, L=4)
    add('sevpa-history', h_history, ['history', 'error'], kind='sevpa', n=2, nI=0, nC=1, nR=1, k=4 if T else 3)
    add('vpa-history', h_history, ['history', 'error'], kind='vpa', n=2, nI=0, nC=1, nR=1, k=4 if T else 3)
    add('access', h_access, ['access', 'pending'], n=2, nI=0, nC=1, nR=1, L=4, D=4)
    add('access-i', h_access, ['access', 'pending'], n=2, nI=1, nC=1, nR=1, L=2, D=2)
    add('bfs', h_bfs, ['bfs'], n=2, nI=0, nC=1, nR=1, L=8, num=1, lo=0)
    add('bfs-i', h_bfs, ['bfs'], n=2, nI=1, nC=1, nR=1, L=4, num=2, lo=2)
    add('random-sevpa', h_random, ['random'], kind='sevpa', n=2, nI=1, nC=1, nR=1, seed=3, L=4, budget=0, lo=2)
    add('random-vpa', h_random, ['random', 'none'], kind='vpa', n=2, nI=1, nC=1, nR=1, seed=3, L=4, budget=4, lo=1)
    for c in ('vpa', 'sevpa'):
        add(f'balanced-{c}', h_balanced, ['balanced'], L=4, cls=c)
    if T:
        add('sevpa-n2c2', h_words, ['words', 'matched'], kind='sevpa', n=2, nI=0, nC=1, nR=2, L=4)
        add('vpa-n3', h_words, ['words', 'matched'], kind='vpa', n=3, nI=0, nC=1, nR=1, L=6)
        add('sevpa-history5', h_history, ['history', 'error'], kind='sevpa', n=2, nI=0, nC=1, nR=1, k=5)
        add('vpa-history5', h_history, ['history', 'error'], kind='vpa', n=2, nI=0, nC=1, nR=1, k=5)
        add('access5', h_access, ['access', 'pending'], n=2, nI=0, nC=1, nR=1, L=6, D=4)
        add('bfs2', h_bfs, ['bfs'], n=2, nI=0, nC=1, nR=1, L=8, num=2, lo=3)
    return out
