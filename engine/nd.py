"""Symbolic nondeterministic, stochastic and pushdown automata (real AALpy objects) and plain tables of them."""
import itertools
from .sym import And, Or, Not, Eq


# fixed transition structures (targets per state and input); outputs and probabilities stay arbitrary
ND_STRUCTURES = {
    'n4a2': [[(1, 2), (0,)], [(3,), (2, 0, 1)], [(2,), ()], [(0, 3), (1,)]],
    'n5a2': [[(0, 1, 2), (4,)], [(2, 3), ()], [(3, 0), (1,)], [(4,), (4, 3)], [(1,), (0, 2, 4)]],
    'n4a3': [[(1,), (2,), (3,)], [(0, 1), (), (2, 3)], [(3, 2, 1), (0,), ()], [(), (1, 3), (0,)]],
    'n12a1': [[(i + 1, 0)] if i % 3 else [(i + 1,)] for i in range(11)] + [[(0, 11)]],
}
ND_STRUCTURES['n12a1'][4] = [()]


def cell_options(n, maxb, same_target, empty=True):
    out = [()] if empty else []
    for k in range(1, maxb + 1):
        out += list(itertools.combinations_with_replacement(range(n), k) if same_target else itertools.combinations(range(n), k))
    return out


def sym_nd(env, kind, n, alphabet, tag='h', maxb=2, empty=True, initial='choose', observable=True, outputs=None,
           structure=None, probs='real', ids=None):
    """kind: mdp | smm | onfsm | ndmoore | mc.

    Every (state, input) gets one of the target lists with at most `maxb` entries (possibly none when `empty`);
    outputs are solver values, probabilities positive reals that sum to one.
    """
    from aalpy.automata import MdpState, Mdp, StochasticMealyState, StochasticMealyMachine, OnfsmState, Onfsm, \
        NDMooreState, NDMooreMachine, McState, MarkovChain
    SC, AC = {'mdp': (MdpState, Mdp), 'smm': (StochasticMealyState, StochasticMealyMachine), 'onfsm': (OnfsmState, Onfsm),
              'ndmoore': (NDMooreState, NDMooreMachine), 'mc': (McState, MarkovChain)}[kind]

    def o(name):
        return env.val(name) if outputs is None else env.int(name, 0, outputs - 1)
    state_outputs = kind in ('mdp', 'ndmoore', 'mc')
    states = []
    for i in range(n):
        sid = ids[i] if ids else f'{tag}{i}'
        states.append(SC(sid, o(f'{tag}o{i}')) if state_outputs else SC(sid))
    opts = cell_options(n, maxb, kind in ('smm', 'onfsm'), empty)
    for i, s in enumerate(states):
        for a in (alphabet if kind != 'mc' else [None]):
            ts = structure[i][alphabet.index(a) if a is not None else 0] if structure is not None else env.choose(opts, f'{tag}t{i}{a}')
            outs = [s2.output for s2 in (states[t] for t in ts)] if state_outputs else [o(f'{tag}o{i}{a}.{k}') for k in range(len(ts))]
            if observable and kind != 'ndmoore':
                for x in range(len(ts)):
                    for y in range(x):
                        env.assume(Not(Eq(outs[x], outs[y])))
            ps = []
            for k in range(len(ts)):
                if probs != 'real':
                    ps.append(1 / len(ts))
                elif k < len(ts) - 1:
                    p = env.real(f'{tag}p{i}{a}.{k}', 0, 1)
                    env.assume(p > 0)
                    ps.append(p)
                elif k == 0:
                    ps.append(1.0)
                else:
                    p = 1 - sum(ps)
                    env.assume(p > 0)
                    ps.append(p)
            for k, t in enumerate(ts):
                if kind == 'mdp':
                    s.transitions[a].append((states[t], ps[k]))
                elif kind == 'smm':
                    s.transitions[a].append((states[t], outs[k], ps[k]))
                elif kind == 'onfsm':
                    s.transitions[a].append((outs[k], states[t]))
                elif kind == 'ndmoore':
                    s.transitions[a].append(states[t])
                else:
                    s.transitions.append((states[t], ps[k]))
    i0 = env.choose(n, f'{tag}init') if initial == 'choose' else initial
    return AC(states[i0], states)


def nd_kind(h):
    return {'Mdp': 'mdp', 'StochasticMealyMachine': 'smm', 'Onfsm': 'onfsm', 'NDMooreMachine': 'ndmoore', 'MarkovChain': 'mc'}[type(h).__name__]


class NdTables:
    """outputs per state (or None), transitions[state][input] = list of (target, output, prob); empty lists dropped"""

    def __init__(self, h):
        kind = self.kind = nd_kind(h)
        idx = {id(s): i for i, s in enumerate(h.states)}
        self.ids = [s.state_id for s in h.states]
        self.init = idx.get(id(h.initial_state))
        self.out = [s.output if kind in ('mdp', 'ndmoore', 'mc') else None for s in h.states]
        self.tr = []
        self.closed = True
        for s in h.states:
            row = {}
            for a, l in ([(None, s.transitions)] if kind == 'mc' else list(s.transitions.items())):
                c = []
                for t in l:
                    if kind == 'mdp' or kind == 'mc':
                        e = (t[0], t[0].output, t[1])
                    elif kind == 'smm':
                        e = t
                    elif kind == 'onfsm':
                        e = (t[1], t[0], None)
                    else:
                        e = (t, t.output, None)
                    if id(e[0]) not in idx:
                        self.closed = False
                    c.append((idx.get(id(e[0])), e[1], e[2]))
                if c:
                    row[a] = c
            self.tr.append(row)

    def same(self, o, order=None):
        """identical up to a renumbering of states (order[i] = number of state i in o)"""
        if len(self.tr) != len(o.tr) or self.kind != o.kind:
            return False
        order = order if order is not None else list(range(len(self.tr)))
        if order[self.init] != o.init:
            return False
        conj = []
        for i, row in enumerate(self.tr):
            r2 = o.tr[order[i]]
            if self.out[i] is not None or o.out[order[i]] is not None:
                conj.append(Eq(self.out[i], o.out[order[i]]))
            if set(row) != set(r2):
                return False
            for a in row:
                if len(row[a]) != len(r2[a]):
                    return False
                for (t, out, p), (t2, out2, p2) in zip(row[a], r2[a]):
                    if order[t] != t2:
                        return False
                    conj.append(Eq(out, out2))
                    if p is not None or p2 is not None:
                        conj.append(Eq(p, p2))
        return And(conj)


# ------------------------------------------------------------------------------------------ pushdown


def sym_sevpa(env, n, internal, call, ret, tag='h', initial='choose', lazy=True, missing=True):
    from aalpy.automata import Sevpa, SevpaState
    from aalpy.automata.Sevpa import SevpaTransition
    states = [SevpaState(f'{tag}{i}', env.bool(f'{tag}acc{i}')) for i in range(n)]
    m = n + 1 if missing else n
    for i, s in enumerate(states):
        for a in internal:
            c = env.choose(m, f'{tag}i{i}{a}')
            if c < n:
                s.transitions[a].append(SevpaTransition(states[c], a, None))
        for r in ret:
            for j in range(n):
                for b in call:
                    c = env.choose(m, f'{tag}r{i}{r}{j}{b}')
                    if c < n:
                        s.transitions[r].append(SevpaTransition(states[c], r, 'pop', (f'{tag}{j}', b)))
    i0 = env.choose(n, f'{tag}init') if initial == 'choose' else initial
    return Sevpa(states[i0], states)


def sym_vpa(env, n, internal, call, ret, tag='h', initial='choose', symbols=None, missing=True):
    """symbols: stack symbols; every call may push any of them"""
    from aalpy.automata import Vpa, VpaState
    from aalpy.automata.Vpa import VpaTransition
    states = [VpaState(f'{tag}{i}', env.bool(f'{tag}acc{i}')) for i in range(n)]
    symbols = symbols or list(call)
    m = n + 1 if missing else n
    for i, s in enumerate(states):
        for a in internal:
            c = env.choose(m, f'{tag}i{i}{a}')
            if c < n:
                s.transitions[a].append(VpaTransition(s, states[c], a, None, None))
        for b in call:
            c = env.choose(m, f'{tag}c{i}{b}')
            if c < n:
                g = b if len(symbols) == 1 and symbols[0] == b else env.choose(symbols, f'{tag}g{i}{b}')
                s.transitions[b].append(VpaTransition(s, states[c], b, 'push', g))
        for r in ret:
            for g in symbols:
                c = env.choose(m, f'{tag}r{i}{r}{g}')
                if c < n:
                    s.transitions[r].append(VpaTransition(s, states[c], r, 'pop', g))
    i0 = env.choose(n, f'{tag}init') if initial == 'choose' else initial
    return Vpa(states[i0], states)


class PdaTables:
    """configuration semantics of a VPA/SEVPA read off its transition lists, independent of step()"""

    def __init__(self, h):
        self.h = h
        self.sevpa = type(h).__name__ == 'Sevpa'
        self.ids = [s.state_id for s in h.states]
        self.by = {s.state_id: s for s in h.states}
        self.acc = {s.state_id: s.is_accepting for s in h.states}
        self.init = h.initial_state.state_id
        self.tr = {}
        for s in h.states:
            for a, l in list(s.transitions.items()):
                if l:
                    self.tr[s.state_id, a] = [(t.letter, t.action, t.stack_guard, t.target_state.state_id) for t in l]
        self.calls = set()
        self.returns = set()
        for l in self.tr.values():
            for a, act, g, t in l:
                if act == 'push':
                    self.calls.add(a)
                if act == 'pop':
                    self.returns.add(a)
                    if self.sevpa:
                        self.calls.add(g[1])

    def start(self):
        return (self.init, ())

    def step(self, c, a):
        """c: (state, stack) or None (error)"""
        if c is None:
            return None
        q, st = c
        if self.sevpa and a in self.calls:
            return (self.init, st + ((q, a),))
        for letter, act, g, t in self.tr.get((q, a), []):
            if act == 'push':
                return (t, st + (g,))
            if act is None:
                return (t, st)
            if st and st[-1] == g:
                return (t, st[:-1])
        return None

    def accepts(self, c):
        if c is None:
            return False
        return self.acc[c[0]] if not c[1] else False

    def run(self, w):
        c = self.start()
        out = []
        for a in w:
            c = self.step(c, a)
            out.append(self.accepts(c))
        return out

    def same(self, o):
        if self.init != o.init:
            return False
        ids = [i for i in self.ids if i != 'ErrorSinkState']
        if sorted(ids) != sorted(i for i in o.ids if i != 'ErrorSinkState'):
            return False
        if self.tr != o.tr:
            return False
        return And([Eq(self.acc[i], o.acc[i]) for i in ids])
