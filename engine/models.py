"""Symbolic systems under learning and exact oracles, working on symbolic and concrete environments."""
import itertools
from . import sym
from .sym import And, Or, Not, Implies, Iff, Eq, Ite, Select, truth
from aalpy.base import SUL, Oracle


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


# transition structures (state -> targets by letter, None: arbitrary) on which counterexamples take several refinements
# transition structures of larger automata (outputs arbitrary); None: arbitrary target, '?': also undefined
STRUCTURES = {'t2': [[1, 0], [1, 0]], 'loops': [[0, 0], [1, 1], [2, 2], [3, 3]], 'funnel': [[2, 3], [2, 1], [3, 0], [2, 2]], 'pairs': [[1, 0], [0, 1], [3, 2], [2, 3]],
              'tree5': [[1, 2], [3, 4], [3, 3], [4, 0], [0, 4]], 'funnel5': [[2, 3], [2, 4], [2, 3], [2, 4], [1, 1]],
              'ring6': [[1, 0], [2, 1], [3, 2], [4, 3], [5, 4], [0, 5]], 'free4': [[1, 2], [3, None], [None, 3], [0, 1]],
              'free5': [[1, 0], [2, None], [3, 1], [4, None], [4, 0]], 'part4': [[1, '?'], [2, 0], ['?', 3], [3, '-']],
              'r5': [[1, 0], [2, 1], [3, 2], [4, 0], [0, 3]], 'u5': [[1, 2], [3, 0], [3, 4], [4, 1], [2, 0]],
              'ring12': [[(i + 1) % 12] for i in range(12)], 'chain12': [['?' if i in (5, 11) else i + 1] for i in range(12)], 'part5': [[1, 2], ['-', '?'], [3, '-'], [4, '?'], ['?', 0]]}
SHAPES = {'s1': [[0, 2], [2, 2], [3, 2], [0, 1]], 's2': [[1, 3], [0, 2], [3, 3], [2, 2]], 's3': [[2, 1], [1, 3], [2, 1], [0, 1]],
          's4': [[1, 2], [0, 3], [3, 0], [1, 1]], 's5': [[3, 1], [0, 1], [3, 0], [2, 3]]}

STRUCTURES.update(SHAPES)


class Machine:
    """n-state deterministic machine with symbolic transition and output tables.

    kind 'mealy': output of (state, letter), arbitrary values
    kind 'moore': output of the state reached, arbitrary values, plus an initial output
    kind 'dfa'  : like moore with boolean outputs
    """

    def __init__(self, env, kind, n, alphabet, tag='', outputs=None, family=None):
        self.env, self.kind, self.n, self.A = env, kind, n, list(alphabet)
        self.tag = tag
        self.delta = [[env.int(f'{tag}d{q}{i}', 0, n - 1) for i in range(len(self.A))] for q in range(n)]
        if kind == 'mealy':
            self.out = [[self._o(f'{tag}o{q}{i}', outputs) for i in range(len(self.A))] for q in range(n)]
        else:
            self.out = [self._o(f'{tag}o{q}', outputs) for q in range(n)]
        self.memo = {}
        if family:
            self._family(STRUCTURES.get(family, family) if isinstance(family, str) else family)

    def _family(self, f):
        """restrict the transition structure (bounds the number of languages for larger n)"""
        env, n = self.env, self.n
        for q in range(n):
            for i in range(len(self.A)):
                d = self.delta[q][i]
                if isinstance(f, list):     # possible targets, by state and letter
                    if f[q][i] is not None:
                        self.delta[q][i] = f[q][i]
                    continue
                if f == 'lock':     # first letter advances or resets, others stay or reset
                    ok = [(q + 1) % n, 0] if i == 0 else [q, 0]
                elif f == 'chain':  # advance, stay or back to the start
                    ok = [(q + 1) % n, q, 0]
                else:
                    raise ValueError(f)
                env.assume(Or([d == x for x in ok]))

    def _o(self, name, outputs):
        if self.kind == 'dfa':
            return self.env.bool(name)
        if outputs is None:
            return self.env.val(name)
        return self.env.int(name, 0, outputs - 1)

    def succ(self, s, a):
        i = self.A.index(a)
        return Select(s, [self.delta[q][i] for q in range(self.n)])

    def outp(self, s, a=None):
        """output of letter a in state s (mealy) / of state s"""
        if self.kind == 'mealy':
            i = self.A.index(a)
            return Select(s, [self.out[q][i] for q in range(self.n)])
        return Select(s, self.out)

    def state(self, w, s=0):
        """state after the word"""
        w = tuple(w)
        if s == 0 and not isinstance(s, sym.Sym):
            r = self.memo.get(w)
            if r is None:
                r = 0 if not w else self.succ(self.state(w[:-1]), w[-1])
                self.memo[w] = r
            return r
        for a in w:
            s = self.succ(s, a)
        return s

    def output(self, w):
        """last output of a word: mealy needs a non empty word, others return the state output"""
        w = tuple(w)
        if self.kind == 'mealy':
            return self.outp(self.state(w[:-1]), w[-1])
        return self.outp(self.state(w))

    def outputs(self, w):
        """what SUL.query(w) should return"""
        w = tuple(w)
        if not w:
            return [] if self.kind == 'mealy' else [self.output(())]
        return [self.output(w[:i + 1]) for i in range(len(w))]


class MachineSUL(SUL):
    """the machine as a black box; records the traffic"""

    def __init__(self, m, record=False):
        super().__init__()
        self.m = m
        self.w = None
        self.log = []        # finished words
        self.active = False
        self.steps = 0
        self.resets = 0

    def pre(self):
        self.w = ()
        self.resets += 1
        self.active = True

    def post(self):
        if self.active and self.w is not None:
            self.log.append(self.w)
        self.active = False

    def step(self, letter):
        if letter is None:
            if self.m.kind == 'mealy':
                return None
            return self.m.output(self.w)
        self.steps += 1
        self.w += (letter,)
        return self.m.output(self.w)


def hyp_outputs(h, w):
    """outputs of an AALpy deterministic automaton along w, without touching h (independent of step())"""
    from aalpy.automata import MealyMachine, Dfa
    s = h.initial_state
    out = []
    for a in w:
        if isinstance(h, MealyMachine):
            out.append(s.output_fun[a])
            s = s.transitions[a]
        else:
            s = s.transitions[a]
            out.append(s.is_accepting if isinstance(h, Dfa) else s.output)
    return out


def hyp_state(h, w):
    s = h.initial_state
    for a in w:
        s = s.transitions[a]
    return s


def state_out(h, s, a=None):
    from aalpy.automata import MealyMachine, Dfa
    if isinstance(h, MealyMachine):
        return s.output_fun[a]
    return s.is_accepting if isinstance(h, Dfa) else s.output


def differs(m, h, w):
    """hypothesis and machine differ on the last output of w (w may be empty for state outputs)"""
    if not w:
        if m.kind == 'mealy':
            return False
        return Not(Eq(state_out(h, h.initial_state), m.output(())))
    return Not(Eq(hyp_outputs(h, w)[-1], m.output(w)))


def eq_depth(n1, n2, kind):
    """two reachable deterministic machines with n1, n2 states that differ do so on a word this short"""
    return n1 + n2 - 1 if kind == 'mealy' else n1 + n2 - 2


class ExactOracle(Oracle):
    """a (nondeterministic) exact equivalence oracle.

    Returns an arbitrary counterexample among a set of candidates when one exists, otherwise None; the
    answer None is justified by the solver (no word up to the distinguishing depth differs).
    style: 'shortest'  first differing word in shortlex order
           'any'       any word up to length `maxlen` on which they differ (last output differs)
           'long'      a shortest differing word extended by `pad` letters, again differing on the last output
    """

    def __init__(self, alphabet, sul, m, style='shortest', maxlen=None, pad=1, as_list=False, limit=None):
        super().__init__(alphabet, sul)
        self.m = m
        self.style = style
        self.maxlen = maxlen
        self.pad = pad
        self.as_list = as_list
        self.limit = limit
        self.calls = 0
        self.cexs = []
        self.hyps = []

    def find_cex(self, hypothesis):
        env = self.m.env
        self.calls += 1
        n = self.m.n
        if self.calls > (self.limit or 4 * n * n):
            env.fail('too many equivalence queries: no progress')
        k = len(hypothesis.states)
        self.hyps.append(k)
        kind = self.m.kind
        depth = eq_depth(k, n, kind)
        lo = 1
        cand = list(words(self.alphabet, lo, depth))
        if kind != 'mealy':
            # the output of the empty word is visible in every query's pre-state only through step(None)
            if truth(differs(self.m, hypothesis, ())):
                env.fail('hypothesis is wrong on the empty word')
        if self.style == 'shortest':
            cex = None
            for w in cand:
                if differs(self.m, hypothesis, w):
                    cex = w
                    break
        elif self.style == 'any':
            L = max(self.maxlen, depth) if self.maxlen else depth
            cex = None
            if Or([differs(self.m, hypothesis, w) for w in cand]):
                cand = list(words(self.alphabet, lo, L))
                start = 0
                # pick any differing word: a symbolic index, resolved by forking
                pick = env.fresh('cex')
                for w in cand:
                    d = differs(self.m, hypothesis, w)
                    b = env.bool(f'{pick}{"".join(map(str, w))}')
                    if And(d, b):
                        cex = w
                        break
                if cex is None:
                    raise sym.PathAbort('no counterexample picked')
        else:
            cex = None
            for w in cand:
                if differs(self.m, hypothesis, w):
                    cex = w
                    break
            if cex is not None:
                for _ in range(self.pad):
                    cex = cex + (env.choose(self.alphabet, 'pad'),)
                # like every oracle of the library: the last output of a counterexample differs
                env.assume(differs(self.m, hypothesis, cex))
        if cex is None:
            return None
        self.cexs.append(cex)
        # like the library oracles: the failing word is run through the SUL (so a cache sees it)
        self.reset_hyp_and_sul(hypothesis)
        for a in cex:
            hypothesis.step(a)
            self.sul.step(a)
            self.num_steps += 1
        self.sul.post()
        return list(cex) if self.as_list else cex


def assert_equivalent(env, m, h, msg='learned model differs from the system'):
    k = len(h.states)
    if m.kind != 'mealy':
        env.check(Eq(state_out(h, h.initial_state), m.output(())), msg + ' on the empty word')
    conj = []
    for w in words(m.A, 1, eq_depth(k, m.n, m.kind)):
        conj.append(Eq(hyp_outputs(h, w)[-1], m.output(w)))
    env.check(And(conj), msg)


def assert_wellformed(env, h, alphabet, minimal=True, complete=True):
    """states listed once, initial first-class member, transitions inside, complete, reachable, minimal"""
    sts = h.states
    env.check(len(sts) == len({id(s) for s in sts}), 'duplicate state objects')
    ids = {id(s) for s in sts}
    env.check(id(h.initial_state) in ids, 'initial state is not a state of the model')
    for s in sts:
        if complete:
            env.check(set(s.transitions.keys()) == set(alphabet), 'model is not input complete')
        for t in s.transitions.values():
            env.check(id(t) in ids, 'transition leaves the model')
    env.check(len({s.state_id for s in sts}) == len(sts), 'state ids are not unique')
    reach = [h.initial_state]
    seen = {id(h.initial_state)}
    for s in reach:
        for t in s.transitions.values():
            if id(t) not in seen:
                seen.add(id(t))
                reach.append(t)
    env.check(len(reach) == len(sts), 'model has unreachable states')
    if minimal:
        conj = []
        k = len(sts)
        for i in range(k):
            for j in range(i):
                conj.append(Not(state_equiv(h, sts[i], sts[j], alphabet, k)))
        env.check(And(conj), 'model is not minimal')


def state_equiv(h, s, t, alphabet, k):
    """bool/SymBool: two states of a concrete structure with symbolic outputs are equivalent"""
    from aalpy.automata import MealyMachine
    mealy = isinstance(h, MealyMachine)
    seen = set()
    todo = [(s, t)]
    conj = []
    while todo:
        p, q = todo.pop()
        if p is q or (id(p), id(q)) in seen:
            continue
        seen.add((id(p), id(q)))
        if not mealy:
            conj.append(Eq(state_out(h, p), state_out(h, q)))
        for a in alphabet:
            if mealy:
                conj.append(Eq(p.output_fun[a], q.output_fun[a]))
            todo.append((p.transitions[a], q.transitions[a]))
    return And(conj)


class LazyTransitions(dict):
    """transition table whose targets are decided (forked) when first looked at"""

    def __init__(self, env, tag, letters, states):
        super().__init__()
        self._c = (env, tag, states)
        for a in letters:
            super().__setitem__(a, None)

    def _get(self, k):
        v = super().__getitem__(k)
        if v is None:
            env, tag, states = self._c
            v = states[env.choose(len(states), f'{tag}{k}')]
            super().__setitem__(k, v)
        return v

    def __getitem__(self, k):
        return self._get(k)

    def get(self, k, d=None):
        return self._get(k) if k in self else d

    def items(self):
        return [(k, self._get(k)) for k in self]

    def values(self):
        return [self._get(k) for k in self]

    def pop(self, k, *d):
        if k in self:
            v = self._get(k)
            super().pop(k)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def copy(self):
        return dict(self.items())

    def __deepcopy__(self, memo):
        import copy
        return copy.deepcopy(dict(self.items()), memo)

    def __eq__(self, o):
        return dict(self.items()) == (dict(o.items()) if isinstance(o, LazyTransitions) else o)

    __hash__ = None


def sym_automaton(env, kind, n, alphabet, tag='h', lazy=True, initial='choose', outputs=None, structure=None,
                  ids=None, partial=False):
    """a real AALpy automaton: every transition target arbitrary, every output a solver value"""
    from aalpy.automata import MealyMachine, MealyState, MooreMachine, MooreState, Dfa, DfaState
    SC, AC = {'mealy': (MealyState, MealyMachine), 'moore': (MooreState, MooreMachine), 'dfa': (DfaState, Dfa)}[kind]

    def o(name):
        if kind == 'dfa':
            return env.bool(name)
        return env.val(name) if outputs is None else env.int(name, 0, outputs - 1)
    states = [SC(ids[i] if ids else f'{tag}{i}') for i in range(n)]
    for i, s in enumerate(states):
        if structure is not None:
            # target, None for an arbitrary one, '?' for an arbitrary or undefined one, '-' for an undefined one
            s.transitions = {}
            for j, a in enumerate(alphabet):
                c = structure[i][j]
                if c is None or c == '?':
                    c = env.choose(n + (c == '?'), f'{tag}t{i}{a}')
                if c != '-' and c < n:
                    s.transitions[a] = states[c]
        elif lazy:
            s.transitions = LazyTransitions(env, f'{tag}t{i}', alphabet, states)
        elif partial:
            s.transitions = {}
            for a in alphabet:
                c = env.choose(n + 1, f'{tag}t{i}{a}')
                if c < n:
                    s.transitions[a] = states[c]
        else:
            s.transitions = {a: states[env.choose(n, f'{tag}t{i}{a}')] for a in alphabet}
        if kind == 'mealy':
            s.output_fun = {a: o(f'{tag}o{i}{a}') for a in s.transitions}
        elif kind == 'moore':
            s.output = o(f'{tag}o{i}')
        else:
            s.is_accepting = o(f'{tag}o{i}')
    i0 = env.choose(n, f'{tag}init') if initial == 'choose' else initial
    return AC(states[i0], states)


def snapshot(h):
    """tables of an automaton by state index, independent of its later changes (forces lazy transitions)"""
    from aalpy.automata import MealyMachine
    idx = {id(s): i for i, s in enumerate(h.states)}
    mealy = isinstance(h, MealyMachine)
    return Tables(mealy, [{a: idx[id(t)] for a, t in s.transitions.items()} for s in h.states],
                  [dict(s.output_fun) if mealy else state_out(h, s) for s in h.states], idx[id(h.initial_state)])


class Tables:
    """plain tables with an independent semantics"""

    def __init__(self, mealy, delta, out, init):
        self.mealy, self.delta, self.out, self.init = mealy, delta, out, init

    def run(self, s, w):
        outs = []
        for a in w:
            if self.mealy:
                outs.append(self.out[s][a])
                s = self.delta[s][a]
            else:
                s = self.delta[s][a]
                outs.append(self.out[s])
        return s, outs

    def defined(self, s, w):
        for a in w:
            if a not in self.delta[s]:
                return False
            s = self.delta[s][a]
        return True

    def reach(self, s=None):
        s = self.init if s is None else s
        seen = [s]
        for q in seen:
            for t in self.delta[q].values():
                if t not in seen:
                    seen.append(t)
        return seen

    def dist(self, s):
        d = {s: 0}
        todo = [s]
        for q in todo:
            for t in self.delta[q].values():
                if t not in d:
                    d[t] = d[q] + 1
                    todo.append(t)
        return d

    def equiv(self, s, t, other=None):
        """outputs of every word agree (states of complete tables over the same alphabet)"""
        o = other or self
        seen = set()
        todo = [(s, t)]
        conj = []
        while todo:
            p, q = todo.pop()
            if (p, q) in seen:
                continue
            seen.add((p, q))
            if not self.mealy:
                conj.append(Eq(self.out[p], o.out[q]))
            for a in self.delta[p]:
                if self.mealy:
                    conj.append(Eq(self.out[p][a], o.out[q][a]))
                todo.append((self.delta[p][a], o.delta[q][a]))
        return And(conj)
