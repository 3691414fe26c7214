"""RPNI and EDSM models agree with every training example"""
import itertools
from engine.runner import Config
from engine.models import *
from engine.stubs import random_stubbed
from engine.sym import Eq, And, Or, Not, SeqEq, truth

PROPERTY = 'P22'
OUTSIDE = 'longer or more examples, larger alphabets; Mealy data that is not prefix closed'
ASSUMPTIONS = ['labels are arbitrary values that support equality only (for DFA: Booleans), none of them None',
               'Mealy data is prefix closed, as the functions require']


# fixed sets of words, all labels arbitrary
SETS = {'deep': ['', 'a', 'ab', 'abb', 'ba', 'bab', 'aabab'], 'wide': ['a', 'b', 'c', 'ab', 'ba', 'cc', 'abc', 'cab'],
        'loop': ['', 'aa', 'aaaa', 'aaaaa', 'ab', 'aab', 'aaab'], 'mixed': ['', 'a', 'b', 'aa', 'ab', 'aba', 'abb', 'bba', 'aabb', 'babab'], 'sparse': ['abab', 'baba', 'aabb', 'bbaa', 'abba']}


def pick_data(env, kind, na, L, k=None, order='given', dup=False):
    """a list of examples: words chosen by forking, labels symbolic"""
    A = ['a', 'b', 'c'][:na]
    W = list(words(A, 0 if kind != 'mealy' else 1, L))
    if isinstance(k, str):
        ws = [tuple(w) for w in SETS[k] if w or kind != 'mealy']
    elif k is None:
        ws = [w for w in W if env.choose(2, f'in{"".join(w)}')]
    else:
        combs = list(itertools.combinations_with_replacement(W, k) if dup else itertools.combinations(W, k))
        ws = list(combs[env.choose(len(combs), 'words')])
    if kind == 'mealy':
        closed = []
        for w in ws:
            for i in range(1, len(w) + 1):
                if w[:i] not in closed:
                    closed.append(w[:i])
        seen = set(closed)
        ws = closed + ([w for w in ws if ws.count(w) > 1][:1] if dup else [])
    if order == 'reversed':
        ws = ws[::-1]
    lab = env.bool if kind == 'dfa' else env.val
    return A, [(w, lab(f'l{i}')) for i, w in enumerate(ws)]


def run_alg(alg, data, kind, complete=None):
    """None: the data was rejected"""
    from aalpy.learning_algs import run_RPNI, run_EDSM
    if alg == 'edsm':
        try:
            return run_EDSM(data, kind, complete, print_info=False)
        except ValueError as e:
            if 'nondetermin' not in str(e):
                raise
            return None
    return run_RPNI(data, kind, algorithm=alg, input_completeness=complete, print_info=False)


def contradictory(data):
    return Or([Not(Eq(data[i][1], data[j][1])) for i in range(len(data)) for j in range(i) if data[i][0] == data[j][0]])


def agrees(env, m, kind, data, what=''):
    conj = []
    for w, lab in data:
        s = m.initial_state
        last = None
        for a in w:
            if a not in s.transitions:
                env.fail('an example cannot be executed on the model' + what)
            if kind == 'mealy':
                last = s.output_fun[a]
            s = s.transitions[a]
        out = last if kind == 'mealy' else (s.is_accepting if kind == 'dfa' else s.output)
        conj.append(Eq(out, lab))
    env.check(And(conj), 'the model does not reproduce an example' + what)


def h_data(env, kind, alg, na, L, k=None, order='given', dup=False, complete=None):
    A, data = pick_data(env, kind, na, L, k, order, dup)
    if not data:
        return
    given = [(w, l) for w, l in data]
    m = run_alg(alg, list(data), kind, complete)
    if m is None:
        env.cover('rejected')
        env.check(contradictory(given), 'consistent data is rejected')
        return
    env.cover('model')
    env.check(Not(contradictory(given)), 'a model is returned for contradictory data')
    from aalpy.automata import Dfa, MooreMachine, MealyMachine
    env.check(type(m) is {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine}[kind], 'model of another type')
    agrees(env, m, kind, given)
    pta = {w[:i] for w, _ in given for i in range(len(w) + 1)}
    extra = 1 if complete == 'sink_state' else 0
    env.check(m.size == len(m.states) <= len(pta) + extra, 'model is larger than the prefix tree')
    env.check(len({s.state_id for s in m.states}) == len(m.states), 'state ids are not unique')
    env.check(any(m.initial_state is s for s in m.states) and all(any(t is s for s in m.states) for q in m.states for t in q.transitions.values()),
              'transition leaves the model')
    seen = {a for w, _ in given for a in w}
    env.check(all(set(s.transitions) <= seen for s in m.states), 'model has inputs that are not in the data')
    if kind == 'dfa':
        for s in m.states:
            env.check(isinstance(s.is_accepting, bool) or type(s.is_accepting).__name__ == 'SymBool', 'a DFA state without verdict')
    if complete:
        env.check(all(set(s.transitions) == seen for s in m.states), 'model is not input complete')


def h_active(env, kind, n, iters, walks, L):
    """the active variant: samples are answers of the system, every model agrees with all data so far"""
    from aalpy.learning_algs import run_active_RPNI
    from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler
    A = ['a', 'b']
    m = Machine(env, kind, n, A)
    ws = [('a',), ('b',), ('a', 'b')] if kind == 'mealy' else [('a',), ('b',)]
    data = [(w, m.output(w)) for w in ws]
    sul = MachineSUL(m)

    class Rec(RandomWordSampler):
        def sample(self, s, model):
            env.check(s is sul, 'another system is sampled')
            agrees(env, model, kind, data, ' after some rounds')
            k = len(sul.log)
            r = super().sample(s, model)
            env.check(len(sul.log) == k + walks and all(1 <= len(w) <= L for w in sul.log[k:]), 'number or length of the walks')
            for w, o in r:
                env.check(And([Eq(o, m.output(w))]) if w or kind != 'mealy' else False, 'a sample is not an answer of the system')
            have = {tuple(w) for w, _ in r}
            env.check(all(w[:j] in have for w in sul.log[k:] for j in range(1, len(w) + 1)), 'an answer of the system is missing in the sample')
            self.models = getattr(self, 'models', []) + [model]
            return r
    smp = Rec(walks, 1, L)
    with random_stubbed():
        model = run_active_RPNI(data, sul, smp, iters, kind, print_info=False)
    env.check(len(smp.models) == iters and model is smp.models[-1], 'the last model is not returned')
    have = {tuple(w) for w, _ in data}
    env.check(all(w in have for w in sul.log), 'the samples are not added to the data')
    agrees(env, smp.models[-1], kind, [(w, m.output(w)) for w in ws])
    env.cover('active')


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('dfa', 'moore', 'mealy'):
        out.append(Config(f'active-{kind}', h_active, dict(kind=kind, n=2, iters=2, walks=1, L=2), covers=['active']))
        if T:
            out.append(Config(f'active-{kind}-w2', h_active, dict(kind=kind, n=2, iters=2, walks=2, L=2), covers=['active']))
            out.append(Config(f'active-{kind}-i3', h_active, dict(kind=kind, n=2, iters=3, walks=1, L=3), covers=['active']))
    for alg in ('gsm', 'classic', 'edsm'):
        for kind in ('dfa', 'moore', 'mealy'):
            def add(name, **kw):
                out.append(Config(f'{alg}-{kind}-{name}', h_data, dict(kind=kind, alg=alg, **kw)))
            if kind == 'dfa' or (T and kind == 'moore'):
                add('L2', na=2, L=2)
            add('L2k3', na=2, L=2, k=3)
            add('L2k3rev', na=2, L=2, k=3, order='reversed')
            add('a1L4', na=1, L=4)
            add('dup', na=2, L=1, k=3, dup=True)
            add('L3k2', na=2, L=3, k=2)
            if T or kind == 'dfa':
                add('L3k3', na=2, L=3, k=3)
            if T:
                add('a1L6', na=1, L=6)
                add('L3k4', na=2, L=3, k=4)
                add('a3L2k3', na=3, L=2, k=3)
                add('dup2', na=2, L=2, k=3, dup=True)
            for name, ws in SETS.items():
                if kind != 'mealy' and (name != 'mixed' or kind == 'dfa') or name == 'wide':
                    add(name, na=3, L=1, k=name)
                    add(f'{name}-rev', na=3, L=1, k=name, order='reversed')
            for c in ('self_loop', 'sink_state'):
                add(f'{c}-deep', na=2, L=1, k='deep' if kind != 'mealy' else 'wide', complete=c)
                add(f'{c}', na=2, L=2, k=2, complete=c)
                if T:
                    add(f'{c}3', na=2, L=3, k=3, complete=c)
    return out
