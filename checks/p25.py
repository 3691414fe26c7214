"""Alergia"""
import itertools
from bisect import insort
from engine.runner import Config
from engine.models import words
from engine.sym import Eq, And, Or, Not, truth
from engine.nd import NdTables
from engine.stubs import random_stubbed

PROPERTY = 'P25'
OUTSIDE = 'more and longer training sequences; floating-point rounding of the probabilities'
ASSUMPTIONS = ['outputs are arbitrary integers (ordered, as Alergia requires)', 'in the symbolic-frequency configurations every training sequence has an arbitrary '
               'positive multiplicity and the compatibility checker may answer anything; the real Hoeffding checker is used in the others',
               'reference: ALERGIA on prefixes (red/blue, shortest prefix first, first compatible red state)']


class RefNode:
    def __init__(self, prefix, out):
        self.prefix, self.out = prefix, out
        self.children, self.orig, self.freq = {}, {}, {}


def reference(kind, data, different, back=False):
    """ALERGIA from its definition; returns the red nodes in order of creation and the root"""
    start = 0 if kind == 'smm' else 1
    root = RefNode((), None if kind == 'smm' else data[0][0])
    for seq in data:
        n = root
        for el in seq[start:]:
            if el not in n.children:
                n.children[el] = n.orig[el] = RefNode(n.prefix + (el,), None if kind == 'smm' else el if kind == 'mc' else el[1])
            n = n.children[el]

    def compat(a, b):
        if kind != 'smm' and a.out != b.out:
            return False
        if not a.orig or not b.orig:
            return True
        if different(a.prefix, b.prefix):
            return False
        return all(compat(a.orig[e], b.orig[e]) for e in a.orig if e in b.orig)

    def fold(r, b):
        for e, c in list(b.children.items())[::-1 if back else 1]:
            if e in r.children:
                fold(r.children[e], c)
            else:
                r.children[e] = c

    red = [root]
    while True:
        blue = [(r, e, c) for r in red for e, c in r.children.items() if not any(c is x for x in red)]
        if not blue:
            return red, root
        r0, e0, b = min(blue, key=lambda x: (len(x[2].prefix), x[2].prefix))
        for r in red:
            if compat(r, b):
                r0.children[e0] = r
                fold(r, b)
                break
        else:
            red.append(b)
            red.sort(key=lambda x: (len(x.prefix), x.prefix))


def check_model(env, kind, m, data, weights, different):
    from aalpy.automata import MarkovChain, Mdp, StochasticMealyMachine
    env.check(type(m) is {'mc': MarkovChain, 'mdp': Mdp, 'smm': StochasticMealyMachine}[kind], 'model of another type')
    t = NdTables(m)
    env.check(t.closed and t.init is not None, 'a transition leaves the model')
    env.check(len(set(t.ids)) == len(t.ids), 'state ids are not unique')
    usage = {}
    ends = {}
    start = 0 if kind == 'smm' else 1
    if kind != 'smm':
        env.check(Eq(t.out[t.init], data[0][0]), 'wrong initial output')
    for i, row in enumerate(t.tr):
        for a, l in row.items():
            for x in range(len(l)):
                for y in range(x):
                    env.check(Not(Eq(l[x][1], l[y][1])), 'the same output occurs twice for one input')
    for seq, w in zip(data, weights):
        s = t.init
        pre = ()
        ends[pre] = s
        for el in seq[start:]:
            i, o = (None, el) if kind == 'mc' else el
            hit = [k for k, c in enumerate(t.tr[s].get(i, [])) if c[1] == o]
            env.check(len(hit) == 1, 'a training sequence has probability zero')
            usage[s, i, hit[0]] = usage.get((s, i, hit[0]), 0) + w
            s = t.tr[s][i][hit[0]][0]
            pre += (el,)
            env.check(ends.setdefault(pre, s) == s, 'nondeterministic model')
    conj = []
    for i, row in enumerate(t.tr):
        for a, l in row.items():
            tot = sum(usage.get((i, a, k), 0) for k in range(len(l)))
            for k, c in enumerate(l):
                u = usage.get((i, a, k))
                env.check(u is not None, 'a transition that no training sequence takes')
                conj.append(c[2] > 0)
                d = c[2] * tot - u
                conj.append(Eq(c[2] * tot, u) if symbolic(c[2]) or symbolic(tot) else abs(d) < 1e-9)
            sm = sum(c[2] for c in l)
            conj.append(Eq(sm, 1) if symbolic(sm) else abs(sm - 1) < 1e-9)
    env.check(And([truth(c) for c in conj]), 'probabilities are not the relative frequencies of the data')
    for s in m.states:
        env.check(ends.get(tuple(s.prefix)) is not None and m.states[ends[tuple(s.prefix)]] is s, 'prefix of a state does not lead to it')

    def as_prescribed(back):
        # which of two folded nodes represents the other is left open
        red, root = reference(kind, data, different, back)
        if len(red) != len(t.tr):
            return False
        node_state = {}
        for seq in data:
            n = root
            s = ()
            for el in seq[start:]:
                n = n.children[el]
                s += (el,)
                if node_state.setdefault(id(n), ends[s]) != ends[s]:
                    return False
        return len(set(node_state.values())) == len(node_state)
    env.check(as_prescribed(False) or as_prescribed(True), 'states are merged differently than ALERGIA prescribes')


def symbolic(x):
    from engine.sym import Sym
    return isinstance(x, Sym)


def pick(env, kind, k, L, na, outs):
    A = ['a', 'b'][:na]
    o0 = env.int('o0') if outs is None else 0
    data = []
    for j in range(k):
        ln = env.choose(L + 1, f'len{j}') if j else L
        seq = [o0] if kind != 'smm' else []
        for x in range(ln):
            o = env.int(f'o{j}.{x}') if outs is None else env.choose(outs, f'o{j}.{x}')
            seq.append(o if kind == 'mc' else (env.choose(A, f'a{j}.{x}'), o))
        data.append(seq)
    return data


def h_sym(env, kind, k, L, na=1, outs=None, checker='any'):
    from aalpy.learning_algs.stochastic_passive.Alergia import Alergia
    from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import CompatibilityChecker
    data = pick(env, kind, k, L, na, outs)
    weights = [env.int(f'n{j}', 1, None) for j in range(k)]
    ids = {}
    memo = []
    names = {}

    def different(p, q):
        if checker != 'any':
            return checker
        for x, y, v in memo:
            if len(x) == len(p) and len(y) == len(q) and x == p and y == q:
                return v
        v = env.bool(f'd{len(memo)}')
        memo.append((p, q, v))
        return v

    class Check(CompatibilityChecker):
        def are_states_different(self, a, b, **kw):
            return different(a.prefix, b.prefix)

    al = Alergia(data, kind, compatibility_checker=Check())
    # every training sequence gets its multiplicity; the tree itself is the one the real code built
    start = 0 if kind == 'smm' else 1
    counted = {}
    for seq, w in zip(data, weights):
        n = al.fpta
        for el in seq[start:]:
            if id(n) not in counted:
                counted[id(n)] = n
                env.check(len(n.input_frequency) == len(n.children) == len(n.original_children) == len(n.original_input_frequency), 'prefix tree is inconsistent')
                for e in n.input_frequency:
                    env.check(Eq(n.input_frequency[e], n.original_input_frequency[e]), 'prefix tree is inconsistent')
                    n.input_frequency[e] = 0
                    n.original_input_frequency[e] = 0
            n.input_frequency[el] = n.input_frequency[el] + w
            n.original_input_frequency[el] = n.original_input_frequency[el] + w
            n = n.children[el]
    m = al.run()
    env.cover('learned')
    if m.size > 1:
        env.cover('multi')
    check_model(env, kind, m, data, weights, different)


EPS = [0.005, 0.5, 1.9, 2, 'auto']


def h_conc(env, kind, k, L, na=1, outs=2, maxw=3):
    import math
    from aalpy.learning_algs import run_Alergia
    data = pick(env, kind, k, L, na, [0, 1, 2][:outs])
    weights = [env.choose(maxw, f'n{j}') + 1 for j in range(k)]
    eps = env.choose(EPS, 'eps')
    full = [list(s) for s, w in zip(data, weights) for _ in range(w)]
    if env.choose(2, 'rev'):
        full.reverse()
    copy = [list(s) for s in full]
    m = run_Alergia(full, kind, eps=eps)
    env.check(full == copy, 'the data is changed')
    env.cover('learned')
    e = eps if eps != 'auto' else 10 / max(5, sum(len(s) - 1 for s in full))
    start = 0 if kind == 'smm' else 1

    def freq(p):
        f = {}
        for s in full:
            if tuple(s[start:start + len(p)]) == p and len(s) > start + len(p):
                el = s[start + len(p)]
                i, o = (None, el) if kind == 'mc' else el
                f.setdefault(i, {}).setdefault(o, 0)
                f[i][o] += 1
        return f

    def different(p, q):
        f, g = freq(p), freq(q)
        for i in f:
            if i in g:
                n1, n2 = sum(f[i].values()), sum(g[i].values())
                bound = (math.sqrt(1 / n1) + math.sqrt(1 / n2)) * math.sqrt(0.5 * math.log(2 / e))
                if any(abs(f[i].get(o, 0) / n1 - g[i].get(o, 0) / n2) > bound for o in {*f[i], *g[i]}):
                    return True
        return False
    check_model(env, kind, m, full, [1] * len(full), different)


def h_active(env, kind, iters):
    """every sample the active version adds is an answer of the system"""
    from aalpy.SULs import AutomatonSUL
    from aalpy.learning_algs import run_active_Alergia
    from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler
    from aalpy.automata import Mdp, StochasticMealyMachine
    from checks.nd_fixed import small_machine
    m = small_machine(env, kind)
    data = [[0, ('a', 0)], [0, ('a', 1), ('a', 0)]] if kind == 'mdp' else [[('a', 0)], [('a', 1), ('a', 0)]]
    n0 = len(data)
    log = []

    class Rec(AutomatonSUL):
        def query(self, word):
            out = super().query(word)
            log.append((tuple(word), list(out)))
            return out
    with random_stubbed(budget=6):
        model = run_active_Alergia(data, Rec(m), RandomWordSampler(1, 1, 2), iters, eps=0.5, automaton_type=kind, print_info=False)
    env.check(type(model) is (Mdp if kind == 'mdp' else StochasticMealyMachine), 'model of another type')
    new = data[n0:]
    runs = [(w, o) for w, o in log if w]
    env.check(len(new) == iters == len(runs), 'number of samples')
    for s, (w, o) in zip(new, runs):
        env.check(s == ([m.initial_state.output] if kind == 'mdp' else []) + list(zip(w, o)), 'a sample is not what the system answered')
    env.cover('active')


# these also with the letters 0, 1, ...
ZERO = ['mc-k1', 'mdp-k1', 'smm-k1', 'mdp-a2']


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers=(), **kw):
        out.append(Config(name, fn, kw, covers=covers))
    for kind in ('mc', 'mdp', 'smm'):
        add(f'{kind}-k1', h_sym, ['learned', 'multi'], kind=kind, k=1, L=3)
        add(f'{kind}-k2', h_sym, ['learned', 'multi'], kind=kind, k=2, L=2, outs=[0, 1])
        add(f'{kind}-k3', h_sym, ['learned', 'multi'], kind=kind, k=3, L=2, outs=[0, 1])
        add(f'{kind}-k2-int', h_sym, ['learned'], kind=kind, k=2, L=1 if not T else 2)
        add(f'{kind}-all', h_sym, ['learned'], kind=kind, k=2, L=3, outs=[0, 1], checker=False)
        add(f'{kind}-none', h_sym, ['learned', 'multi'], kind=kind, k=2, L=3, outs=[0, 1], checker=True)
        if kind != 'mc':
            add(f'{kind}-a2', h_sym, ['learned', 'multi'], kind=kind, k=2, L=2, na=2, outs=[0, 1])
        add(f'{kind}-conc', h_conc, ['learned'], kind=kind, k=2, L=2, maxw=2)
        add(f'{kind}-conc3', h_conc, ['learned'], kind=kind, k=3, L=1, maxw=3)
        add(f'{kind}-k2L3', h_sym, ['learned', 'multi'], kind=kind, k=2, L=3, outs=[0, 1])
        if T:
            add(f'{kind}-k3L3', h_sym, ['learned', 'multi'], kind=kind, k=3, L=3, outs=[0, 1])
            add(f'{kind}-k3o3', h_sym, ['learned', 'multi'], kind=kind, k=3, L=2, outs=[0, 1, 2])
            add(f'{kind}-k4', h_sym, ['learned', 'multi'], kind=kind, k=4, L=2, outs=[0, 1], checker=True)
            add(f'{kind}-concL3', h_conc, ['learned'], kind=kind, k=2, L=3, maxw=2)
    for kind in ('mdp', 'smm'):
        add(f'active-{kind}', h_active, ['active'], kind=kind, iters=2)
    return out
