"""systems under learning: reset / step / query protocol and answers of the ready-made systems"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P08'
OUTSIDE = ('longer words and histories, larger automata, other regular expressions; strings given to regular expressions and '
           'Tomita grammars are concretised (each feasible string is one path)')
ASSUMPTIONS = ['letters, outputs and arguments are arbitrary values that support equality and truth testing only']


class Rec(SUL):
    def __init__(self, env):
        super().__init__()
        self.env = env
        self.ev = []
        self.k = 0

    def pre(self):
        self.ev.append('pre')

    def post(self):
        self.ev.append('post')

    def step(self, letter):
        v = self.env.val(f'out{self.k}')
        self.k += 1
        self.ev.append(('step', letter, v))
        return v


def h_query(env, L, K, method):
    s = Rec(env)
    steps = 0
    for k in range(K):
        n = env.choose(L + 1, 'len')
        w = tuple(env.val(f'w{k}.{i}') for i in range(n))
        given = w if env.choose(2, 'type') else list(w)
        start = len(s.ev)
        out = s.query(given) if method == 'query' else s.io_query(given)
        ev = s.ev[start:]
        env.check(len(ev) == 2 + max(n, 1), 'wrong number of calls for a query')
        env.check(ev[0] == 'pre' and ev[-1] == 'post', 'query does not start with pre and end with post')
        mid = ev[1:-1]
        env.check(all(isinstance(e, tuple) for e in mid), 'reset or cleanup in the middle of a query')
        if n == 0:
            env.check(mid[0][1] is None, 'the empty query must ask for the initial output')
            env.check(SeqEq(out, [mid[0][2]]) if method == 'query' else out == [], 'wrong answer to the empty query')
        else:
            env.check(And([Eq(mid[i][1], w[i]) for i in range(n)]), 'letters fed in the wrong order')
            exp = [mid[i][2] for i in range(n)]
            if method == 'io':
                exp = list(zip(w, exp))
            env.check(len(out) == n and Eq(list(out), exp), 'answer is not one output per letter')
        env.check(SeqEq(list(given), list(w)), 'query changes the word it was given')
        steps += n
        env.check(s.num_queries == k + 1 and s.num_steps == steps, 'queries or steps miscounted')


class AdsStub:
    def __init__(self, env, n):
        self.env, self.n = env, n
        self.k = 0
        self.log = []

    def next_input(self, last):
        self.log.append(last)
        self.given = getattr(self, 'given', [])
        if self.k >= self.n:
            return None
        self.k += 1
        c = self.env.choose(3, 'ads')
        if c == 0:
            return None
        if c == 1 and self.k == 1:
            return tuple()
        v = self.env.val(f'ads{self.k}')
        self.env.assume(v)      # letters of a separating tree are never the empty tuple
        self.given.append(v)
        return v


def h_adaptive(env, L, N):
    s = Rec(env)
    n = env.choose(L + 1, 'len')
    w = [env.val(f'w{i}') for i in range(n)]
    orig = list(w)
    ads = AdsStub(env, N)
    word, outs = s.adaptive_query(w, ads)
    env.check(s.ev[0] == 'pre' and s.ev[-1] == 'post' and s.ev.count('pre') == 1 and s.ev.count('post') == 1,
              'adaptive query does not reset and clean up exactly once')
    fed = [e for e in s.ev if isinstance(e, tuple) and e[1] is not None]
    env.check(len(word) == len(outs) == len(fed), 'adaptive query: not one output per letter')
    env.check(SeqEq(word, [e[1] for e in fed]), 'adaptive query reports other letters than it executed')
    env.check(SeqEq(outs, [e[2] for e in fed]), 'adaptive query reports other outputs than it received')
    env.check(SeqEq(word, orig + ads.given), 'adaptive query does not execute the given word and then the given letters')
    seen = [e[2] for e in s.ev if isinstance(e, tuple)]
    env.check(ads.log[0] is None and all(any(x is y for y in seen) for x in ads.log[1:]), 'the adaptive suffix is not told the received outputs')
    if len(fed) > n:
        env.check(SeqEq(ads.log[-(len(fed) - n):], [e[2] for e in fed[n:]]), 'the adaptive suffix is not told the received outputs')
    env.check(s.num_queries == 1 and s.num_steps == len(fed), 'adaptive query miscounted')


def h_automaton(env, kind, n, na, K, L):
    from aalpy.SULs import AutomatonSUL
    A = ['a', 'b', 'c'][:na]
    m = sym_automaton(env, kind, n, A)
    sul = AutomatonSUL(m)
    m.current_state = m.states[env.choose(n, 'cur')]
    for k in range(K):
        if kind != 'mealy' and env.choose(2, 'empty'):
            out = sul.query(())
            env.check(SeqEq(out, [state_out(m, m.initial_state)]), 'wrong initial output')
        else:
            w = env.choose(list(words(A, 1, L)), 'w')
            env.check(SeqEq(sul.query(w), hyp_outputs(m, w)), 'answer differs from the automaton')
        if env.choose(2, 'partial') and k < K - 1:
            # an aborted run must not influence later queries
            sul.pre()
            sul.step(env.choose(A, 'x'))


REGEX = {
    # name: (regex, alphabet, independent definition)
    'abc*': ('abc*', 'abc', lambda s: s.startswith('ab') and set(s[2:]) <= {'c'}),
    'alt': ('a|bb', 'ab', lambda s: s in ('a', 'bb')),
    'alt$': ('(a|ab)b*$', 'ab', lambda s: len(s) > 0 and s[0] == 'a' and set(s[1:]) <= {'b'}),
    'even': ('((0|1)(0|1))*', '01', lambda s: len(s) % 2 == 0),
    'opt': ('a?b+', 'ab', lambda s: s in ('b' * k for k in range(1, 9)) or s in ('a' + 'b' * k for k in range(1, 9))),
    'empty|a': ('|a', 'ab', lambda s: s in ('', 'a')),
}


def h_regex(env, name, K, L):
    from aalpy.SULs import RegexSUL
    rx, al, ref = REGEX[name]
    sul = RegexSUL(rx)
    concrete_words(env, sul, list(al), ref, K, L)


def _runs(s):
    out = []
    for c in s:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return out


def t3(s):
    r = _runs(s)
    odd1 = False
    for c, n in r:
        if c == '1' and n % 2:
            odd1 = True
        if c == '0' and n % 2 and odd1:
            return False
    return True


def t7(s):
    return len(_runs(s.lstrip('0'))) <= 3 if s.lstrip('0') else True


TOMITA = {
    1: lambda s: set(s) <= {'1'},
    2: lambda s: all(c == '10'[i % 2] for i, c in enumerate(s)) and len(s) % 2 == 0,
    3: t3,
    -3: lambda s: not t3(s),
    4: lambda s: all(not (c == '0' and n >= 3) for c, n in _runs(s)),
    5: lambda s: sum(c == '0' for c in s) % 2 == 0 and sum(c == '1' for c in s) % 2 == 0,
    6: lambda s: (sum(c == '0' for c in s) - sum(c == '1' for c in s)) % 3 == 0,
    # 0*1*0*1*
    7: lambda s: [c for c, _ in _runs(s)] in ([], ['0'], ['1'], ['0', '1'], ['1', '0'], ['0', '1', '0'], ['1', '0', '1'],
                                              ['0', '1', '0', '1']),
}


def concrete_words(env, sul, al, ref, K, L, conv=None):
    for k in range(K):
        n = env.choose(L + 1, f'len{k}')
        w = []
        for i in range(n):
            c = env.int(f'w{k}.{i}', 0, len(al) - 1)
            w.append(al[int(c)])
        out = sul.query(tuple(w))
        sw = ''.join(str(x) for x in w)
        if n == 0:
            env.check(out == [ref('')], 'wrong answer for the empty word')
        else:
            env.check(out == [ref(sw[:i + 1]) for i in range(n)], 'wrong answer')
        env.cover(f'{bool(out[-1])}')
        if k < K - 1 and env.choose(2, 'partial'):
            sul.pre()
            sul.step(al[0])


def h_tomita(env, level, K, L, ints):
    from aalpy.SULs import TomitaSUL
    sul = TomitaSUL(level)
    concrete_words(env, sul, [0, 1] if ints else ['0', '1'], TOMITA[level], K, L)


def h_pyclass(env, K):
    from aalpy.SULs import PyClassSUL, FunctionDecorator
    log = []

    class Target:
        def __init__(self):
            log.append('new')
            self.n = 0

        def none(self):
            log.append(('none', self.n))
            self.n += 1
            return self.n

        def one(self, x):
            log.append(('one', self.n, x))
            self.n += 1
            return x

        def two(self, x, y):
            log.append(('two', self.n, x, y))
            self.n += 1
            return y

    x, y = env.val('x'), env.val('y')
    D = [(FunctionDecorator(Target.none), ()), (FunctionDecorator(Target.one, x), (x,)),
         (FunctionDecorator(Target.one, [x]), (x,)), (FunctionDecorator(Target.two, [x, y]), (x, y)),
         (FunctionDecorator(Target.two, (y, x)), (y, x)), (FunctionDecorator(Target.one, 0), (0,)),
         (FunctionDecorator(Target.one, False), (False,)), (FunctionDecorator(Target.one, ''), ('',))]
    sul = PyClassSUL(Target)
    for k in range(2):
        n = env.choose(K, 'len') + 1
        idx = [env.choose(len(D), 'f') for _ in range(n)]
        del log[:]
        out = sul.query(tuple(D[i][0] for i in idx))
        env.check(len(log) == n + 1 and log[0] == 'new' and log.count('new') == 1, 'the class is not instantiated once per query')
        for j, i in enumerate(idx):
            d, args = D[i]
            e = log[j + 1]
            env.check(e[0] == d.function.__name__ and e[1] == j, 'wrong method called')
            env.check(SeqEq(e[2:], args), 'wrong arguments')
            env.check(Eq(out[j], j + 1 if e[0] == 'none' else args[-1]), 'wrong return value')


def configs(tier):
    T = tier == 'thorough'
    out = [Config('query', h_query, dict(L=5 if T else 3, K=3 if T else 2, method='query')),
           Config('io_query', h_query, dict(L=3, K=2, method='io')),
           Config('adaptive', h_adaptive, dict(L=3 if T else 2, N=4 if T else 3))]
    for kind in ('mealy', 'moore', 'dfa'):
        out.append(Config(f'automaton-{kind}-n2', h_automaton, dict(kind=kind, n=2, na=2, K=2, L=2)))
        out.append(Config(f'automaton-{kind}-n3', h_automaton, dict(kind=kind, n=3, na=1, K=2, L=3)))
        if T:
            out.append(Config(f'automaton-{kind}-n3a2', h_automaton, dict(kind=kind, n=3, na=2, K=2, L=3)))
    for r in REGEX:
        out.append(Config(f'regex-{r}', h_regex, dict(name=r, K=2, L=2), covers=['True', 'False']))
        out.append(Config(f'regex-{r}-long', h_regex, dict(name=r, K=1, L=8 if T else 4), covers=['True', 'False']))
    for t in TOMITA:
        cov = ['True', 'False']
        out.append(Config(f'tomita{t}', h_tomita, dict(level=t, K=2, L=2, ints=True), covers=['True']))
        out.append(Config(f'tomita{t}-long', h_tomita, dict(level=t, K=1, L=10 if T else 7, ints=t != 5), covers=cov))
    out.append(Config('pyclass', h_pyclass, dict(K=3 if T else 2)))
    return out
