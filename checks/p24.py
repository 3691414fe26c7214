"""passive learning of visibly pushdown automata"""
import itertools
from engine.runner import Config
from engine.models import *
from engine.nd import PdaTables
from engine.sym import Eq, And, Or, Not
from checks.p22 import contradictory

PROPERTY = 'P24'
OUTSIDE = 'longer or more examples, larger alphabets'
ASSUMPTIONS = ['labels are arbitrary Booleans; examples are arbitrary words (well matched or not) up to the stated length',
               'call, return and internal letters are disjoint']

ALPH = {'1': (['i'], ['('], [')']), '0': ([], ['('], [')']), '2': ([], ['(', '['], [')']), '2r': ([], ['('], [')', ']']), '22': ([], ['(', '['], [')', ']']),
        'tuple': ([('i', 1)], [('push', 2)], ['pop']), 'int': ([0], [1], [2])}


def matched(w, C, R):
    st = []
    for a in w:
        if a in C:
            st.append(a)
        elif a in R:
            if not st:
                return False
            st.pop()
    return not st


def balanced_words(al, L):
    I, C, R = ALPH[al]
    return [w for w in words(I + C + R, 0, L) if matched(w, C, R)], [w for w in words(I + C + R, 0, L) if not matched(w, C, R)]


def h_papni(env, alg, al, L, k, bad=1, badlen=2, dup=False, order='given', tuples=False):
    from aalpy.automata import VpaAlphabet, Vpa
    from aalpy.learning_algs import run_PAPNI
    I, C, R = ALPH[al]
    good, ill = balanced_words(al, L)
    ill = [w for w in ill if len(w) <= badlen]
    combs = list(itertools.combinations_with_replacement(good, k) if dup else itertools.combinations(good, k))
    ws = list(combs[env.choose(len(combs), 'words')])
    data = [(tuple(w), env.bool(f'l{i}')) for i, w in enumerate(ws)]
    valid = list(data)
    for b in range(bad):
        j = env.choose(len(ill) + 1, f'bad{b}')
        if j:
            data.insert(0 if b else len(data), (tuple(ill[j - 1]), env.bool(f'bl{b}')))
            env.cover('ill')
    if order == 'reversed':
        data.reverse()
    given = list(data)
    al_obj = VpaAlphabet(list(I), list(C), list(R))
    try:
        m = run_PAPNI(data, al_obj, algorithm=alg, print_info=False)
    except ValueError as e:
        if alg != 'edsm' or 'nondetermin' not in str(e):
            raise
        m = None
    env.check(all(a is b for a, b in zip(given, data)) and len(given) == len(data), 'the data is changed')
    if m is None:
        env.cover('rejected')
        env.check(contradictory(valid), 'consistent data is rejected')
        return
    env.check(Not(contradictory(valid)), 'a model is returned for contradictory data')
    env.cover('model')
    env.check(type(m) is Vpa, 'not a visibly pushdown automaton')
    t = PdaTables(m)
    conj = []
    for w, lab in valid:
        c = t.start()
        for a in w:
            c = t.step(c, a)
        conj.append(Eq(t.accepts(c), lab))
        m.reset_to_initial()
        last = m.step(None)
        for a in w:
            last = m.step(a)
        conj.append(Eq(last, lab))
    env.check(And(conj), 'the model does not reproduce a well-matched example')
    env.check(all(m.is_balanced(w) == matched(w, C, R) for w, _ in given if all(a in m.input_alphabet.get_merged_alphabet() for a in w)),
              'the model judges the balance of an example wrongly')
    for (q, a), l in t.tr.items():
        env.check(all(act == ('push' if a in C else 'pop' if a in R else None) for _, act, _, _ in l), 'a letter is used with another role')


def h_balanced(env, al, L):
    from aalpy.automata import VpaAlphabet, SevpaAlphabet
    from aalpy.utils import is_balanced
    I, C, R = ALPH[al]
    A = I + C + R
    n = env.choose(L + 1, 'len')
    w = [A[env.int(f'w{i}', 0, len(A) - 1)] for i in range(n)]
    cls = env.choose([VpaAlphabet, SevpaAlphabet], 'class')
    r = is_balanced(w, cls(I, C, R))
    env.check(r == matched(w, C, R), 'wrong answer whether a word is well matched')
    env.cover(str(bool(r)))


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers=(), **kw):
        out.append(Config(name, fn, kw, covers=covers))
    for alg in ('gsm', 'classic', 'edsm'):
        add(f'{alg}-1k2', h_papni, ['model', 'ill'], alg=alg, al='1', L=4, k=2, bad=1 if not T else 2)
        add(f'{alg}-1k3', h_papni, ['model', 'ill'], alg=alg, al='1', L=3, k=3, order='reversed')
        add(f'{alg}-0k3', h_papni, ['model', 'ill'], alg=alg, al='0', L=6, k=3)
        add(f'{alg}-2k2', h_papni, ['model'], alg=alg, al='2', L=4, k=2, bad=0)
        add(f'{alg}-2rk2', h_papni, ['model'], alg=alg, al='2r', L=4, k=2, bad=0)
        add(f'{alg}-22k2', h_papni, ['model'], alg=alg, al='22', L=2 if not T else 4, k=2, bad=0)
        add(f'{alg}-dup', h_papni, ['model', 'rejected'], alg=alg, al='1', L=3, k=2, dup=True)
        add(f'{alg}-empty', h_papni, [], alg=alg, al='1', L=2, k=0, bad=2)
        add(f'{alg}-one', h_papni, ['model'], alg=alg, al='1', L=5, k=1, bad=1)
        add(f'{alg}-tuple', h_papni, ['model'], alg=alg, al='tuple', L=3, k=2, bad=1)
        add(f'{alg}-int', h_papni, ['model'], alg=alg, al='int', L=3, k=2, bad=1)
        if T:
            add(f'{alg}-1k4', h_papni, ['model'], alg=alg, al='1', L=4, k=3, bad=0)
            add(f'{alg}-2k3', h_papni, ['model'], alg=alg, al='2', L=4, k=3, bad=0)
            add(f'{alg}-0k5', h_papni, ['model'], alg=alg, al='0', L=8, k=3, bad=0)
    for al in ALPH:
        add(f'balanced-{al}', h_balanced, ['True', 'False'], al=al, L=5 if T else 4)
    return out
