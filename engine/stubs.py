"""Environment stubs: randomness becomes a solver/path choice, time is left alone."""
import contextlib
import random as _random
from . import sym
from .bootstrap import AALPY_MODULES

_ORIG = {n: getattr(_random, n) for n in
         ('choice', 'choices', 'randint', 'random', 'shuffle', 'sample', 'uniform', 'randrange', 'seed')}


class RandomStub:
    """every outcome the real functions can produce is an alternative (unless `limit` narrows it)"""

    def __init__(self, shuffle='few', randint=None, budget=None, after=None):
        self.after = after          # if given, random() counts against the budget and returns this afterwards (a Random: pseudo-random)
        self.shuffle_mode = shuffle
        self.randint_cap = randint
        self.budget = budget        # after this many nondeterministic draws, draw the first option
        self.n = 0
        self.calls = []

    def _pick(self, k, name):
        env = sym.cur()
        self.n += 1
        if self.budget is not None and self.n > self.budget:
            return self.after.randrange(k) if isinstance(self.after, _random.Random) else 0
        return env.choose(k, name)

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        self.calls.append(('choice', list(seq)))
        return seq[self._pick(len(seq), 'choice')]

    def randint(self, a, b):
        if isinstance(a, sym.Sym) or isinstance(b, sym.Sym):
            a, b = int(a), int(b)
        if b < a:
            raise ValueError('empty range for randrange()')
        n = b - a + 1
        if self.randint_cap is not None:
            n = min(n, self.randint_cap)
        return a + self._pick(n, 'randint')

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return self.randint(a, b - 1)

    def random(self):
        env = sym.cur()
        if self.after is not None:
            self.n += 1
            if self.n > self.budget:
                return self.after.getrandbits(20) / 2 ** 20 if isinstance(self.after, _random.Random) else self.after
        r = env.real(env.fresh('random'), 0)
        env.assume(r < 1)
        self.calls.append(('random', r))
        return r

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def seed(self, *a, **k):
        pass

    def shuffle(self, x):
        n = len(x)
        if n < 2:
            return
        if self.shuffle_mode == 'id':
            return
        if self.shuffle_mode == 'all' or (self.shuffle_mode == 'few' and n <= 2):
            rest = list(x)
            out = []
            while rest:
                out.append(rest.pop(self._pick(len(rest), 'shuffle')))
            x[:] = out
        else:
            m = self._pick(3, 'shuffle')
            if m == 1:
                x[:] = list(reversed(x))
            elif m == 2:
                x[:] = list(x[1:]) + [x[0]]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        population = list(population)
        if cum_weights is not None:
            w = [cum_weights[0]] + [b - a for a, b in zip(cum_weights, cum_weights[1:])]
        elif weights is not None:
            w = list(weights)
        else:
            w = [1] * len(population)
        if len(w) != len(population):
            raise ValueError('The number of weights does not match the population')
        self.calls.append(('choices', population, w))
        cand = [i for i, x in enumerate(w) if x > 0]
        if not cand:
            raise (ValueError('Total of weights must be greater than zero') if population else IndexError('empty'))
        return [population[cand[self._pick(len(cand), 'choices')]] for _ in range(k)]

    def sample(self, population, k):
        pop = list(population)
        if k > len(pop):
            raise ValueError('Sample larger than population or is negative')
        return [pop.pop(self._pick(len(pop), 'sample')) for _ in range(k)]


@contextlib.contextmanager
def random_stubbed(**kw):
    st = RandomStub(**kw)
    saved = []
    for n, orig in _ORIG.items():
        stub = getattr(st, n)
        saved.append((_random, n, orig))
        setattr(_random, n, stub)
        for mod in AALPY_MODULES.values():
            if vars(mod).get(n) is orig:
                saved.append((mod, n, orig))
                setattr(mod, n, stub)
    try:
        yield st
    finally:
        for mod, n, orig in saved:
            setattr(mod, n, orig)


@contextlib.contextmanager
def patched(*triples):
    """temporarily set module attributes: (module, name, value)"""
    missing = object()
    saved = []
    for mod, n, v in triples:
        saved.append((mod, n, vars(mod).get(n, missing)))
        setattr(mod, n, v)
    try:
        yield
    finally:
        for mod, n, v in reversed(saved):
            if v is missing:
                delattr(mod, n)
            else:
                setattr(mod, n, v)
