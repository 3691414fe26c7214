"""model conversions"""
import itertools
import os
import tempfile
from engine.runner import Config
from engine.models import *
from engine.nd import sym_nd, NdTables
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P18'
OUTSIDE = 'larger machines'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only, probabilities arbitrary positive reals summing to one',
               'machines with several successors per input and output are compared by probabilistic bisimulation',
               'state ids are unique strings']


def h_smm(env, n, na, maxb, empty, via):
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, 'smm', n, A, maxb=maxb, empty=empty)
    t = NdTables(m)
    r = m.to_mdp() if via == 'method' else smm_to_mdp_conversion(m)
    env.check(t.same(NdTables(m)), 'conversion changes the machine')
    t2 = NdTables(r)
    env.check(t2.kind == 'mdp' and t2.closed and t2.init is not None, 'the result is not an MDP')
    env.check(len(set(t2.ids)) == len(t2.ids), 'state ids are not unique')
    seen = set()
    todo = [(t.init, t2.init)]
    while todo:
        p, q = todo.pop()
        if (p, q) in seen:
            continue
        seen.add((p, q))
        env.check({a for a in t.tr[p]} == {a for a in t2.tr[q]}, 'another set of inputs is enabled')
        for a in t.tr[p]:
            c1, c2 = t.tr[p][a], list(t2.tr[q][a])
            env.check(len(c1) == len(c2), 'another number of alternatives')
            for (s, o, pr) in c1:
                hit = [x for x in c2 if Eq(x[1], o)]
                env.check(len(hit) == 1, 'an output is missing or duplicated')
                env.check(Eq(hit[0][2], pr), 'an output has another probability')
                todo.append((s, hit[0][0]))
    env.cover(f'mdp{len(t2.tr)}')


def h_smm_hidden(env, n, na, maxb):
    """several transitions with the same input and output: the machines are compared by probabilistic bisimulation"""
    A = ['a', 'b', 'c'][:na]
    m = sym_nd(env, 'smm', n, A, maxb=maxb, empty=False, observable=False)
    t = NdTables(m)
    r = m.to_mdp()
    env.check(t.same(NdTables(m)), 'conversion changes the machine')
    t2 = NdTables(r)
    env.check(t2.kind == 'mdp' and t2.closed and t2.init is not None, 'the result is not an MDP')
    env.check(len(set(t2.ids)) == len(t2.ids), 'state ids are not unique')
    # all cells: (machine, state) -> input -> [(output, (machine, target), probability)]
    cells = {}
    for k, x in ((0, t), (1, t2)):
        for p in range(len(x.tr)):
            cells[k, p] = {a: [(o, (k, s), pr) for s, o, pr in c] for a, c in x.tr[p].items()}
    for c in cells.values():
        env.check(set(c) == set(A), 'another set of inputs is enabled')
        for a in c:
            env.check(Eq(sum(x[2] for x in c[a]), 1), 'probabilities do not sum to one')

    def alike(p, q, cls):
        for a in A:
            u = cells[p][a] + cells[q][a]
            done = []
            for o, s, _ in u:
                if any(cls[s] == c and Eq(o, o2) for o2, c in done):
                    continue
                done.append((o, cls[s]))
                w = [sum([x[2] for x in cells[y][a] if cls[x[1]] == cls[s] and Eq(x[0], o)]) for y in (p, q)]
                if not Eq(w[0], w[1]):
                    return False
        return True
    cls = {x: 0 for x in cells}
    while True:
        new, reps = {}, []
        for x in cells:
            for k, y in enumerate(reps):
                if cls[x] == cls[y] and alike(x, y, cls):
                    new[x] = k
                    break
            else:
                new[x] = len(reps)
                reps.append(x)
        if len(set(new.values())) == len(set(cls.values())):
            break
        cls = new
    env.check(cls[0, t.init] == cls[1, t2.init], 'the initial states behave differently')
    env.cover('compared')


def h_mc(env, n, na, inp, structure=None):
    from aalpy.utils.HelperFunctions import mc_from_mdp
    A = [['a'], [1, 0], ['b', 'a', 0]][na - 1]
    m = sym_nd(env, 'mdp', n, A, observable=False, structure=structure)
    t = NdTables(m)
    al = m.get_input_alphabet()
    if inp is None:
        try:
            r = mc_from_mdp(m)
        except ValueError:
            env.check(len(al) != 1, 'an MDP with one input is refused')
            return
        env.check(len(al) == 1, 'an MDP with choices is converted without saying which input')
        a = al[0]
    else:
        a = A[inp]
        if not al:
            return
        r = mc_from_mdp(m, input_symbol=a)
    env.check(t.same(NdTables(m)), 'conversion changes the MDP')
    t2 = NdTables(r)
    env.check(t2.kind == 'mc' and t2.closed and len(t2.tr) == n, 'the result is not a Markov chain over the same states')
    env.check(t2.ids == t.ids and t2.init == t.init, 'states or initial state differ')
    for i in range(n):
        c1, c2 = t.tr[i].get(a, []), t2.tr[i].get(None, [])
        env.check(Eq(t.out[i], t2.out[i]), 'an output differs')
        env.check({x[0] for x in c1} == {x[0] for x in c2}, 'other transitions')
        env.check(And([Eq(sum(x[2] for x in c1 if x[0] == k), sum(x[2] for x in c2 if x[0] == k)) for k in {x[0] for x in c1}]), 'other probabilities')
    mine = {id(s) for s in m.states}
    env.check(not any(id(s) in mine for s in r.states), 'states are shared')


def h_dfa(env, n, na, partial):
    from aalpy.utils.HelperFunctions import dfa_from_moore
    from aalpy.automata import Dfa
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, 'moore', n, A, lazy=False, partial=partial)
    for i, s in enumerate(m.states):
        s.output = env.choose([0, 1, 2, 3], f'k{i}')
        s.output = [None, env.bool(f'b{i}'), env.bool(f'b{i}'), 'other'][s.output]
    t = snapshot(m)
    bad = any(o == 'other' for o in t.out if isinstance(o, str))
    try:
        r = dfa_from_moore(m)
    except ValueError:
        env.check(bad, 'a Boolean Moore machine is refused')
        env.cover('refused')
        return
    env.check(not bad, 'a Moore machine with other outputs is converted')
    env.check(type(r) is Dfa and len(r.states) == n, 'the result is not a DFA over the same states')
    t2 = snapshot(r)
    env.check(t2.delta == t.delta and t2.init == t.init, 'transitions or initial state differ')
    env.check(And([Eq(t2.out[i], t.out[i] if t.out[i] is not None else False) for i in range(n)]), 'acceptance differs')
    mine = {id(s) for s in m.states}
    env.check(not any(id(s) in mine for s in r.states), 'states are shared')
    env.cover('converted')


def h_prism(env, n, na, maxb, outs, names):
    """the PRISM module describes the MDP: same initial state, commands, probabilities and labels"""
    import re
    from aalpy.utils import mdp_2_prism_format
    from checks.p16 import Tokens
    A = names[:na]
    m = sym_nd(env, 'mdp', n, A, maxb=maxb, empty=True)
    for i, s in enumerate(m.states):
        s.output = env.choose(outs, f'out{i}')
    t = NdTables(m)
    with Tokens(env) as tok:
        d = tempfile.mkdtemp(prefix='p18')
        path = os.path.join(d, 'm.prism')
        try:
            text = mdp_2_prism_format(m, 'test_mdp', path)
            with open(path) as f:
                env.check(f.read().splitlines() == text.splitlines(), 'the file differs from the returned text')
        finally:
            if os.path.exists(path):
                os.remove(path)
            os.rmdir(d)
        env.check(t.same(NdTables(m)), 'the export changes the MDP')
        head, _, tail = text.partition('endmodule')
        flat = ' '.join(head.split())
        x = re.match(r'mdp module test_mdp loc ?: ?\[0\.\.(\d+)\] init (\d+) ?; ?(.*)$', flat)
        env.check(x is not None, 'module header')
        env.check(int(x[1]) >= n - 1, 'range of the state variable')
        loc = {}
        env.check(int(x[2]) < n, 'initial state')
        cmds = {}
        for c in [c.strip() for c in x[3].split(';') if c.strip()]:
            y = re.match(r'\[(.*?)\] loc ?= ?(\d+) ?-> ?(.*)$', c)
            env.check(y is not None, 'command')
            ups = []
            for u in y[3].split(' + '):
                z = re.match(r"(\S+) ?: ?\(loc'=(\d+)\)$", u.strip())
                env.check(z is not None, 'update')
                ups.append((int(z[2]), tok.back(float(z[1]))))
            env.check((int(y[2]), y[1]) not in cmds, 'two commands for a state and input')
            cmds[int(y[2]), y[1]] = ups
        labels = {}
        for l in re.findall(r'label "(.*?)" ?= ?(.*?);', tail):
            env.check(l[0] not in labels, 'a label is defined twice')
            labels[l[0]] = {int(k) for k in re.findall(r'loc ?= ?(\d+)', l[1])}

    def clean(s):
        return f'___{s}___' if s in ('mdp', 'init', 'module', 'endmodule', 'label') else s
    want = {}
    for i in range(n):
        for o in t.out[i].split('__'):
            if o:
                want.setdefault(clean(o), set()).add(i)
    # states are numbered in some order: the commands have to match under the numbering of the labels and the initial state
    ok = False
    for perm in itertools.permutations(range(n)):
        if perm[t.init] != int(x[2]) or {k: {perm[i] for i in v} for k, v in want.items()} != labels:
            continue
        if {(perm[i], clean(a)) for i in range(n) for a in t.tr[i]} != set(cmds):
            continue
        same = True
        for i in range(n):
            for a, cell in t.tr[i].items():
                ups = list(cmds[perm[i], clean(a)])
                if sorted(perm[s] for s, _, _ in cell) != sorted(s for s, _ in ups):
                    same = False
                    break
                for s in {s for s, _, _ in cell}:
                    if not Eq(sum(p for q, _, p in cell if q == s), sum(p for q, p in ups if q == perm[s])):
                        same = False
        ok = ok or same
    env.check(ok, 'the PRISM model differs from the MDP')
    env.cover('exported')


def configs(tier):
    T = tier == 'thorough'
    out = []
    for via in ('method', 'fun'):
        out.append(Config(f'smm-n2a1b2-{via}', h_smm, dict(n=2, na=1, maxb=2, empty=False, via=via)))
    out.append(Config('smm-n2a1b2-partial', h_smm, dict(n=2, na=1, maxb=2, empty=True, via='fun')))
    out.append(Config('smm-n2a2b1', h_smm, dict(n=2, na=2, maxb=1, empty=False, via='fun')))
    out.append(Config('smm-n3a1b1', h_smm, dict(n=3, na=1, maxb=1, empty=True, via='fun')))
    out.append(Config('smm-n1a1b3-hidden', h_smm_hidden, dict(n=1, na=1, maxb=3), covers=['compared']))
    out.append(Config('smm-n2a1b2-hidden', h_smm_hidden, dict(n=2, na=1, maxb=2), covers=['compared']))
    if T:
        out.append(Config('smm-n2a2b2', h_smm, dict(n=2, na=2, maxb=2, empty=False, via='fun')))
        out.append(Config('smm-n3a1b2', h_smm, dict(n=3, na=1, maxb=2, empty=False, via='fun')))
        out.append(Config('smm-n2a1b3', h_smm, dict(n=2, na=1, maxb=3, empty=False, via='fun')))
    for na, inp in ((1, None), (2, None), (2, 0), (2, 1)) + (((3, 2),) if T else ()):
        out.append(Config(f'mc-n2a{na}-i{inp}', h_mc, dict(n=2, na=na, inp=inp)))
    out.append(Config('mc-n3a1', h_mc, dict(n=3, na=1, inp=None)))
    # several transitions to the same state
    out.append(Config('mc-repeated', h_mc, dict(n=2, na=1, inp=None, structure=[[(1, 1)], [(0, 1, 0)]])))
    out.append(Config('mc-repeated-a2', h_mc, dict(n=2, na=2, inp=1, structure=[[(1,), (0, 0)], [(0,), (1, 0, 1)]])))
    out.append(Config('prism-n2a1', h_prism, dict(n=2, na=1, maxb=2, outs=['x', 'x__y', 'init', ''], names=['a']), covers=['exported']))
    out.append(Config('prism-n2a2', h_prism, dict(n=2, na=2, maxb=1, outs=['x', 'y'], names=['module', 'b']), covers=['exported']))
    out.append(Config('prism-n3a1', h_prism, dict(n=3, na=1, maxb=1, outs=['x', 'y'], names=['go']), covers=['exported']))
    if T:
        out.append(Config('prism-n2a2b2', h_prism, dict(n=2, na=2, maxb=2, outs=['x', 'y__x'], names=['label', 'b']), covers=['exported']))
        out.append(Config('prism-n3a1b2', h_prism, dict(n=3, na=1, maxb=2, outs=['x', 'y'], names=['go']), covers=['exported']))
    out.append(Config('dfa-n2a2', h_dfa, dict(n=2, na=2, partial=True), covers=['refused', 'converted']))
    out.append(Config('dfa-n3a1', h_dfa, dict(n=3, na=1, partial=True), covers=['refused', 'converted']))
    return out
