"""dot round trip"""
import os
import shutil
import tempfile
from engine import sym
from engine.runner import Config
from engine.models import *
from engine.nd import sym_nd, NdTables, ND_STRUCTURES, sym_sevpa, sym_vpa, PdaTables
from engine.sym import Eq, And, Or, Not, SymVal, SymReal

PROPERTY = 'P16'
OUTSIDE = ('larger models; state identifiers that are not words of letters, digits and underscores; symbols containing quotes, '
           'slashes, braces, commas or arrows; rendered formats (png, svg, pdf)')
ASSUMPTIONS = ['word-shaped symbols are treated as opaque tokens: the code never looks inside them', 'probabilities are printed and parsed exactly (Python float repr)']

MENU = ['x', 'Some_Word', 'a b', 'a-b', '?x', '!y', '(', ')', '[', ']', 'push', 'pop', 'push(x)', 'x:y', '1x', '5.5', '+', '*', 0, 1, 12, -1, -30]
BAD = {'dfa': (), 'moore': (), 'mealy': (), 'mdp': (), 'mc': (), 'smm': (), 'onfsm': (), 'ndmoore': (),
       'vpa': ('a b', 'push(x)'), 'sevpa': ('a b', 'push(x)')}


class Tokens:
    """symbolic words and probabilities written into the file as unique tokens, and translated back after loading"""

    def __init__(self, env):
        self.env = env
        self.words = {}
        self.reals = {}
        self.by_term = {}
        self.old = None

    def __enter__(self):
        if isinstance(self.env, sym.SymEnv):
            self.old = self.env.fmt
            self.env.fmt = self.fmt
        return self

    def __exit__(self, *a):
        if self.old:
            del self.env.fmt

    def fmt(self, x):
        if isinstance(x, SymVal):
            k = self.by_term.setdefault(x.e, f'w{len(self.by_term)}w')
            self.words[k] = x
            return k
        if isinstance(x, SymReal):
            k = self.by_term.setdefault(x.e, repr(1e-5 + len(self.by_term) / 2 ** 30))
            self.reals[float(k)] = x
            return k
        return str(int(x))

    def back(self, v):
        if isinstance(v, str):
            return self.words.get(v, v)
        if isinstance(v, float):
            return self.reals.get(v, v)
        return v


def roundtrip(env, m, kind, tokens, **kw):
    from aalpy.utils import save_automaton_to_file, load_automaton_from_file
    d = tempfile.mkdtemp(prefix='p16_')
    env.cover('saved')
    try:
        with tokens:
            save_automaton_to_file(m, os.path.join(d, 'model'), **kw)
        f = os.listdir(d)
        env.check(f == ['model.dot'], 'the model is written to another file')
        return load_automaton_from_file(os.path.join(d, 'model.dot'), kind, compute_prefixes=bool(env.choose(2, 'prefixes')))
    finally:
        shutil.rmtree(d)


def symbol(env, mode, name, kind):
    if mode == 'word':
        v = env.val(name)
        env.assume(v) if not isinstance(v, SymVal) else env.assume(sym.truth(v))
        return v
    if mode == 'int':
        return env.int(name, -11, 12)
    return env.choose([x for x in MENU if x not in BAD[kind]], name)


def same_type(a, b):
    """Eq, but 1 and '1' and True differ"""
    if isinstance(a, sym.Sym) or isinstance(b, sym.Sym):
        return Eq(a, b)
    return type(a) is type(b) and a == b


def h_det(env, kind, n, na, mode, inputs=None, missing=False, lazy=False, shape=None):
    A = [symbol(env, 'menu', f'a{i}', kind) for i in range(na)] if inputs is None else inputs[:na]
    if len(set(A)) < len(A):
        return
    order = None
    if kind == 'dfa':
        outs = lambda nm: env.bool(nm)
    else:
        outs = lambda nm: symbol(env, mode, nm, kind)
    m, tr, out = build_det(env, kind, n, A, outs, missing, STRUCTURES.get(shape))
    t = Tokens(env)
    m2 = roundtrip(env, m, kind, t)
    env.check(type(m2) is type(m) and m2.size == n == len(m2.states), 'loaded model has another type or size')
    by = {s.state_id: s for s in m2.states}
    env.check(len(by) == n and all(f'q{i}' in by for i in range(n)), 'loaded model has other states')
    env.check(m2.initial_state is by[m.initial_state.state_id], 'loaded model has another initial state')
    env.check(set(map(rep, m2.get_input_alphabet())) == set(map(rep, [a for a in A if any(a in r for r in tr)])), 'loaded model has other inputs')
    conj = []
    for i in range(n):
        s = by[f'q{i}']
        env.check(set(map(rep, s.transitions)) == set(map(rep, tr[i])), 'transitions are lost or added')
        env.check(all(s.transitions[a] is by[f'q{tr[i][a]}'] for a in tr[i]), 'a transition leads to another state')
        if kind == 'mealy':
            conj += [same_type(t.back(s.output_fun[a]), out[i, a]) for a in tr[i]]
        else:
            conj.append(same_type(t.back(s.is_accepting if kind == 'dfa' else s.output), out[i]))
    env.check(And(conj), 'an output changes')
    if not missing and any(s.prefix is not None for s in m2.states):
        init = int(m.initial_state.state_id[1:])
        for i in range(n):
            p = by[f'q{i}'].prefix
            if p is not None:
                c = init
                for a in p:
                    c = tr[c][a]
                env.check(c == i, 'computed prefix does not lead to its state')


def rep(x):
    return (type(x).__name__, x)


def build_det(env, kind, n, A, outs, missing, structure=None):
    from aalpy.automata import Dfa, DfaState, MooreMachine, MooreState, MealyMachine, MealyState
    SC, AC = {'dfa': (DfaState, Dfa), 'moore': (MooreState, MooreMachine), 'mealy': (MealyState, MealyMachine)}[kind]
    st, out, tr = [], {}, []
    for i in range(n):
        if kind == 'mealy':
            st.append(SC(f'q{i}'))
        else:
            out[i] = outs(f'o{i}')
            st.append(SC(f'q{i}', out[i]))
    for i, s in enumerate(st):
        row = {}
        for k, a in enumerate(A):
            c = structure[i][k] if structure else None
            if c is None or c == '?':
                c = env.choose(n + (1 if missing or c == '?' else 0), f't{i}{k}')
            elif c == '-':
                c = n
            if c < n:
                row[a] = c
                s.transitions[a] = st[c]
                if kind == 'mealy':
                    out[i, a] = s.output_fun[a] = outs(f'o{i}{k}')
        tr.append(row)
    return AC(st[env.choose(n, 'init')], st), tr, out


def h_nd(env, kind, n, na, mode, maxb=2, inputs=None, empty=False, shape=None):
    if kind == 'mc':
        A = ['a']
    else:
        A = [symbol(env, 'menu', f'a{i}', kind) for i in range(na)] if inputs is None else inputs[:na]
    if len(set(A)) < len(A):
        return

    class Env2:
        """outputs of the requested shape"""
        def __getattr__(self, a):
            return getattr(env, a)

        def val(self, name):
            return symbol(env, mode, name, kind)
    m = sym_nd(Env2(), kind, n, A, tag='q', maxb=maxb, observable=False, empty=empty, structure=ND_STRUCTURES.get(shape))
    t = Tokens(env)
    m2 = roundtrip(env, m, kind, t)
    env.check(type(m2) is type(m) and m2.size == n == len(m2.states), 'loaded model has another type or size')
    a, b = NdTables(m), NdTables(m2)
    env.check(b.closed and sorted(a.ids) == sorted(b.ids), 'loaded model has other states')
    order = [b.ids.index(i) for i in a.ids]
    env.check(order[a.init] == b.init, 'loaded model has another initial state')
    conj = []
    for i in range(n):
        r1, r2 = a.tr[i], b.tr[order[i]]
        if a.out[i] is not None:
            conj.append(same_type(a.out[i], t.back(b.out[order[i]])))
        env.check(set(map(rep, r1)) == set(map(rep, r2)), 'transitions are lost or added')
        for x in r1:
            env.check(sorted(order[c[0]] for c in r1[x]) == sorted(c[0] for c in r2[x]), 'a transition leads to another state')
            for (s1, o1, p1), (s2, o2, p2) in zip(r1[x], r2[x]):
                env.check(order[s1] == s2, 'transitions are reordered')
                conj.append(same_type(o1, t.back(o2)))
                if p1 is not None:
                    conj.append(Eq(p1, t.back(p2)))
    env.check(And(conj), 'an output or probability changes')


def h_pda(env, kind, n, letters, missing=True):
    L = [symbol(env, 'menu', f'l{i}', kind) if x is None else x for i, x in enumerate(letters)]
    if len(set(L)) < len(L):
        return
    m = (sym_sevpa if kind == 'sevpa' else sym_vpa)(env, n, L[:1], L[1:2], L[2:], tag='q', missing=missing)
    if kind == 'vpa' and env.choose(2, 'error'):
        from aalpy.automata import Vpa
        m = Vpa(m.initial_state, m.states + [Vpa.error_state])
    m2 = roundtrip(env, m, kind, Tokens(env))
    env.check(type(m2) is type(m), 'loaded model has another type')
    a, b = PdaTables(m), PdaTables(m2)
    env.check(sorted(i for i in a.ids if i != 'ErrorSinkState') == sorted(b.ids), 'loaded model has other states')
    env.check(a.init == b.init, 'loaded model has another initial state')
    env.check({k: sorted(map(repr, v)) for k, v in a.tr.items()} == {k: sorted(map(repr, v)) for k, v in b.tr.items()}, 'transitions change')
    env.check(And([Eq(a.acc[i], b.acc[i]) for i in b.ids]), 'acceptance changes')
    al, al2 = m.input_alphabet, m2.input_alphabet
    env.check(set(map(rep, al.internal_alphabet)) == set(map(rep, al2.internal_alphabet)) and set(map(rep, al.call_alphabet)) == set(map(rep, al2.call_alphabet))
              and set(map(rep, al.return_alphabet)) == set(map(rep, al2.return_alphabet)), 'the alphabet changes')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, **kw):
        out.append(Config(name, fn, kw, covers=['saved']))
    for kind in ('dfa', 'moore', 'mealy'):
        add(f'{kind}-n2-word', h_det, kind=kind, n=2, na=2, mode='word', inputs=['a', 3], missing=not T)
        add(f'{kind}-n3-word', h_det, kind=kind, n=3, na=1, mode='word', inputs=[-2])
        add(f'{kind}-n1-menu', h_det, kind=kind, n=1, na=2 if kind == 'dfa' else 1, mode='menu')
        if kind != 'dfa':
            add(f'{kind}-n1-int', h_det, kind=kind, n=1, na=1, mode='int', inputs=['a'])
        if T:
            add(f'{kind}-n3-word2', h_det, kind=kind, n=3, na=2, mode='word', inputs=['a', 3])
            add(f'{kind}-n2-menu', h_det, kind=kind, n=2, na=1, mode='menu', inputs=['a'])
    for kind in ('mc', 'mdp', 'smm', 'onfsm', 'ndmoore'):
        add(f'{kind}-n2-word', h_nd, kind=kind, n=2, na=2 if T else 1, mode='word', inputs=['a', 3], maxb=2, empty=True)
        add(f'{kind}-n3-word', h_nd, kind=kind, n=3, na=1, mode='word', inputs=[7], maxb=1 if not T and kind != 'mc' else 2)
        add(f'{kind}-n1-menu', h_nd, kind=kind, n=1, na=1, mode='menu', maxb=1)
        add(f'{kind}-n1-int', h_nd, kind=kind, n=1, na=1, mode='int', maxb=1, inputs=['b'])
    for sh in ('part4', 'tree5', 'chain12'):
        for kind in ('dfa', 'moore', 'mealy') if sh == 'tree5' or T and sh == 'part4' else ('moore', 'mealy'):
            add(f'{kind}-{sh}', h_det, kind=kind, n=len(STRUCTURES[sh]), na=len(STRUCTURES[sh][0]), mode='word', inputs=['a', 3], missing=True, shape=sh)
    for sh, st in ND_STRUCTURES.items():
        for kind in ('mdp', 'smm', 'onfsm', 'ndmoore') + (('mc',) if len(st[0]) == 1 else ()):
            add(f'{kind}-{sh}', h_nd, kind=kind, n=len(st), na=len(st[0]), mode='word', inputs=['a', 3, 'b'], shape=sh)
    for kind in ('vpa', 'sevpa'):
        add(f'{kind}-n2', h_pda, kind=kind, n=2, letters=['i', '(', ')'], missing=T or kind == 'vpa')
        add(f'{kind}-n1-menu', h_pda, kind=kind, n=1, letters=['i', '(', None])
        add(f'{kind}-n1-menuc', h_pda, kind=kind, n=1, letters=['i', None, 'r'])
        add(f'{kind}-n1-menui', h_pda, kind=kind, n=1, letters=[None, 'c', 'r'])
    return out
