"""KV for visibly pushdown languages"""
from engine.runner import Config
from engine.models import words
from engine.sym import Eq, And, Or, Not, truth
from engine.nd import PdaTables, sym_sevpa, sym_vpa
from aalpy.base import SUL, Oracle

PROPERTY = 'P32'
OUTSIDE = 'larger systems and alphabets than listed per configuration'
ASSUMPTIONS = ['the equivalence oracle is exact (it decides equivalence of the two pushdown automata by the reachable state pairs after well-matched words)',
               'letters are only internal, only call or only return letters']
CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']


def truth_(x):
    return bool(truth(x))


def pairs(t, h, I, C, R):
    """state pairs reached by well-matched words, with witnesses; a missing move leads to None. VPA targets keep their own stack symbols."""
    def top(c):
        return (c[0], None) if c else None

    def call(t, q, c):
        return t.step((q, ()), c) if q is not None else None

    def ret(t, cfg, q, r):
        """return from state q with the stack that the call left"""
        if cfg is None or q is None:
            return None
        e = t.step((q, cfg[1]), r)
        return e[0] if e is not None else None
    seen = {(t.init, h.init): ()}
    order = [(t.init, h.init)]
    # modules are entered in the state after a call: collect well-matched words between entry and exit pairs
    summ = {}

    def module(entry):
        if entry not in summ:
            summ[entry] = {entry: ()}
    module((t.init, h.init))
    changed = True
    while changed:
        changed = False
        for entry in list(summ):
            m = summ[entry]
            for (p, q), w in list(m.items()):
                for a in I:
                    x = (ret(t, (None, ()), p, a), ret(h, (None, ()), q, a))
                    if x not in m:
                        m[x] = w + (a,)
                        changed = True
                for c in C:
                    e1, e2 = call(t, p, c), call(h, q, c)
                    sub = (top(e1)[0] if e1 else None, top(e2)[0] if e2 else None)
                    if sub not in summ:
                        module(sub)
                        changed = True
                    for (p2, q2), v in list(summ[sub].items()):
                        for r in R:
                            x = (ret(t, e1, p2, r), ret(h, e2, q2, r))
                            if x not in m:
                                m[x] = w + (c,) + v + (r,)
                                changed = True
    return summ[(t.init, h.init)]


def counterexample(t, h, I, C, R):
    """a well-matched word on which the languages differ, or None"""
    best = None
    for (p, q), w in sorted(pairs(t, h, I, C, R).items(), key=lambda x: len(x[1])):
        x = t.acc[p] if p is not None else False
        y = h.acc[q] if q is not None else False
        if truth_(Eq(x, y)):
            continue
        return w
    return best


class PdaSUL(SUL):
    def __init__(self, t):
        super().__init__()
        self.t = t
        self.asked = []

    def pre(self):
        self.c = self.t.start()

    def post(self):
        pass

    def step(self, letter):
        if letter is not None:
            self.c = self.t.step(self.c, letter)
        v = self.t.accepts(self.c)
        return bool(truth(v))


class PdaOracle(Oracle):
    def __init__(self, env, A, sul, t, parts, style):
        super().__init__(A, sul)
        self.env, self.t, self.parts, self.style = env, t, parts, style
        self.calls = 0
        self.last = None

    def find_cex(self, hypothesis):
        self.calls += 1
        self.last = hypothesis
        h = PdaTables(hypothesis)
        w = counterexample(self.t, h, *self.parts)
        if w is None:
            return None
        I, C, R = self.parts
        if self.style != 'shortest':
            # a longer counterexample
            n = len(w) + self.style
            more = [v for v in words(I + C + R, len(w), n) if truth_(self.t.accepts(end(self.t, v))) != truth_(h.accepts(end(h, v)))]
            w = more[self.env.choose(len(more), f'cex{self.calls}')] if more else w
        self.env.check(truth_(self.t.accepts(end(self.t, w))) != bool(truth(h.accepts(end(h, w)))), 'oracle')
        self.env.cover('cex')
        return w


def end(t, w):
    c = t.start()
    for a in w:
        c = t.step(c, a)
    return c


def h_kv(env, target, n, nI, nC, nR, cexp, cache=True, style='shortest', missing=True, symbols=None, pairing=False, initial=0):
    from aalpy.learning_algs import run_KV
    from aalpy.automata import SevpaAlphabet, Sevpa
    I, C, R = ['i', 'j'][:nI], ['(', '['][:nC], [')', ']'][:nR]
    if target == 'sevpa':
        m = sym_sevpa(env, n, I, C, R, missing=missing, initial=initial, tag='t')
    else:
        m = sym_vpa(env, n, I, C, R, missing=missing, symbols=symbols, initial=initial, tag='t')
    t = PdaTables(m)
    t.calls |= set(C)
    if pairing:
        # the returns of the system only match their own calls
        ex = dict(zip(C, R))
        for (q, a), l in t.tr.items():
            for _, act, g, _ in l:
                if act == 'pop':
                    env.assume(ex[g[1] if target == 'sevpa' else g] == a)
    A = I + C + R
    sul = PdaSUL(t)
    orc = PdaOracle(env, A, sul, t, (I, C, R), style)
    alphabet = SevpaAlphabet(I, C, R, dict(zip(C, R)) if pairing else None)
    h, info = run_KV(alphabet, sul, orc, 'vpa', cex_processing=cexp, cache_and_non_det_check=cache, return_data=True, print_level=0)
    env.check(type(h) is Sevpa, 'model of another type')
    th = PdaTables(h)
    ids = set(th.ids)
    env.check(len(ids) == len(h.states) and th.init in ids, 'the model is not well formed')
    for (q, a), l in th.tr.items():
        env.check(len({g for _, _, g, _ in l}) == len(l), 'the model is not deterministic')
        env.check(all(to in ids and (g is None or g[0] in ids) for _, _, g, to in l), 'the model mentions a state that it does not have')
    w = counterexample(t, th, I, C, R)
    env.check(w is None, 'the model accepts another language')
    env.check(info['automaton_size'] == len(h.states), 'reported size')
    # stepping the model
    for v in words(A, 1, 3):
        h.reset_to_initial()
        env.check([bool(truth(h.step(a))) for a in v] == [bool(truth(x)) for x in t.run(v)], 'verdicts of the model')
    if target == 'sevpa':
        env.check(len(h.states) <= n + 1, 'the model has more states than needed')
    env.cover('learned')
    if len(h.states) > 1:
        env.cover('multi')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn=h_kv, covers=('learned', 'cex'), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=20))
    for c in CEX:
        add(f'sevpa-n1-{c}', target='sevpa', n=1, nI=1, nC=1, nR=1, cexp=c)
        add(f'sevpa-n2-{c}', covers=['learned', 'cex', 'multi'], target='sevpa', n=2, nI=0, nC=1, nR=1, cexp=c, cache=c != 'rs')
    add('sevpa-n2i-rs', covers=['learned', 'cex', 'multi'], target='sevpa', n=2, nI=1, nC=1, nR=1, cexp='rs')
    add('sevpa-n1c2', target='sevpa', n=1, nI=0, nC=2, nR=2, cexp='rs')
    add('sevpa-n1c2-pairs', target='sevpa', n=1, nI=1, nC=2, nR=2, cexp='rs', pairing=True)
    add('vpa-n2', covers=['learned', 'cex', 'multi'], target='vpa', n=2, nI=0, nC=1, nR=1, cexp='rs')
    add('vpa-n2i', covers=['learned', 'cex', 'multi'], target='vpa', n=2, nI=1, nC=1, nR=1, cexp='linear_fwd')
    add('sevpa-n1-long', target='sevpa', n=1, nI=1, nC=1, nR=1, cexp='rs', style=2)
    for c in CEX:
        add(f'sevpa-n2i-long-{c}', covers=['learned', 'cex', 'multi'], target='sevpa', n=2, nI=1, nC=1, nR=1, cexp=c, style=1, missing=T)
        add(f'vpa-n2s2-{c}', covers=['learned', 'cex', 'multi'], target='vpa', n=2, nI=0, nC=1, nR=1, symbols=['X', 'Y'], cexp=c)
    add('sevpa-n2c2', covers=['learned', 'cex', 'multi'], target='sevpa', n=2, nI=0, nC=2, nR=1, cexp='rs', missing=T)
    add('sevpa-n2r2', covers=['learned', 'cex', 'multi'], target='sevpa', n=2, nI=0, nC=1, nR=2, cexp='exponential_fwd', missing=T)
    add('sevpa-n3', covers=['learned', 'cex', 'multi'], target='sevpa', n=3, nI=0, nC=1, nR=1, cexp='rs', missing=False) if T else None
    add('vpa-n3', covers=['learned', 'cex', 'multi'], target='vpa', n=3, nI=0, nC=1, nR=1, cexp='rs', missing=T)
    if T:
        for c in CEX[1:]:
            add(f'vpa-n3i-{c}', covers=['learned', 'cex', 'multi'], target='vpa', n=3, nI=1, nC=1, nR=1, cexp=c, missing=False)
    return out
