"""query cache: transparent, saves queries, detects nondeterminism"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Not, SeqEq

PROPERTY = 'P05'
OUTSIDE = 'longer histories and words than listed; queries issued in the middle of a stepwise run; the empty query'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only']


class Wild(SUL):
    """wrapped system; every run may answer anything (mode 'wild') or the answer is a function of the inputs ('det')"""

    def __init__(self, env, mode, outs=None):
        super().__init__()
        self.env, self.mode, self.outs = env, mode, outs
        self.run = 0
        self.w = ()
        self.pres = self.posts = 0
        self.log = []
        self.vals = {}

    def pre(self):
        self.run += 1
        self.pres += 1
        self.w = ()

    def post(self):
        self.posts += 1
        self.log.append(self.w)

    def step(self, letter):
        if letter is None:
            return self.value(())
        self.w += (letter,)
        return self.value(self.w)

    def value(self, w):
        k = (w if self.mode == 'det' else (self.run, w))
        if k not in self.vals:
            if self.outs is not None:
                self.vals[k] = self.env.choose(self.outs, 'v')
                return self.vals[k]
            self.vals[k] = self.env.val(f'v{"" if self.mode == "det" else self.run}.{"".join(w)}')
        return self.vals[k]


def h_cache(env, mode, cache_type, K, L, na=2, samples=False, outs=None):
    from aalpy.base.SUL import CacheSUL
    A = ['a', 'b', 'c'][:na]
    sys = Wild(env, mode, outs)
    c = CacheSUL(sys, cache_type)
    obs = {}          # what was observed so far
    W = list(words(A, 1, L))
    if samples:
        w = env.choose(W, 'sample')
        outs = tuple(env.val(f's{i}') if mode == 'wild' else sys_value(sys, w[:i + 1]) for i in range(len(w)))
        c.cache.add_to_cache(w, outs)
        for i in range(len(w)):
            obs[w[:i + 1]] = outs[i]
    saved = 0
    for k in range(K):
        op = env.choose(['query', 'steps', 'steps_none'] + (['list'] if cache_type == 'tree' else []), 'op')
        w = env.choose(W, 'w')
        runs = sys.run
        q = c.num_queries
        known = w in obs
        exp = []
        conflict = False
        raised = False
        try:
            if op in ('query', 'list'):
                out = c.query(w if op == 'query' else list(w))
            else:
                c.pre()
                if op == 'steps_none':
                    env.check(Eq(c.step(None), sys.value(())), 'step(None) answered wrongly')
                out = []
                for a in w:
                    out.append(c.step(a))
                c.post()
        except SystemExit:
            raised = True
            env.cover('nondeterminism')
        if known and op in ('query', 'list'):
            env.check(not raised and sys.run == runs, 'a known query was not answered from the cache')
            env.check(c.num_queries == q, 'a cached answer was counted as a query')
            env.check(SeqEq(out, [obs[w[:i + 1]] for i in range(len(w))]), 'wrong answer from the cache')
            saved += 1
            env.cover('cached')
        else:
            env.check(sys.run == runs + 1, 'the wrapped system was not queried exactly once')
            if op in ('query', 'list') and not raised:
                env.check(sys.log[-1] == w, 'the wrapped system got other inputs')
            # reference: first position whose answer contradicts what was observed
            for i in range(len(w)):
                p = w[:i + 1]
                v = sys.value(p)
                if p in obs and Not(Eq(obs[p], v)):
                    conflict = True
                    break
                obs.setdefault(p, v)
                exp.append(v)
            if conflict:
                env.check(raised, 'contradicting answer not reported as non-determinism')
            else:
                env.check(not raised, 'non-determinism reported without contradiction')
                env.check(SeqEq(out, exp), 'answer differs from the wrapped system')
        env.check(c.num_cached_queries == saved, 'cached answers miscounted')
        if conflict:
            break
    # nothing wrong was stored
    runs = sys.run
    for w in obs:
        env.check(SeqEq(c.query(w), [obs[w[:i + 1]] for i in range(len(w))]), 'stored answer is wrong')
    env.check(sys.run == runs, 'observed word not in the cache')
    for w in W:
        if w not in obs:
            r = c.cache.in_cache(w)
            env.check(r is None, 'cache claims to know an unobserved word')


def sys_value(s, w):
    return s.value(w)


def configs(tier):
    out = []
    for mode in ('det', 'wild'):
        for ct in ('tree', 'dict'):
            for samples in (False, True):
                K, L = (3, 2)
                if samples:
                    K = 2
                out.append(Config(f'{mode}-{ct}-K{K}L{L}-s{samples}', h_cache,
                                  dict(mode=mode, cache_type=ct, K=K, L=L, samples=samples),
                                  covers=['cached'] + (['nondeterminism'] if mode == 'wild' else [])))
            out.append(Config(f'{mode}-{ct}-K2L3', h_cache, dict(mode=mode, cache_type=ct, K=2, L=3)))
            # outputs that count as false, and no output at all
            out.append(Config(f'{mode}-{ct}-falsy', h_cache, dict(mode=mode, cache_type=ct, K=2, L=2, na=1, outs=[None, 0, '']),
                              covers=['cached'] + (['nondeterminism'] if mode == 'wild' else [])))
            if tier == 'thorough':
                out.append(Config(f'{mode}-{ct}-K4L2', h_cache, dict(mode=mode, cache_type=ct, K=4, L=2)))
                out.append(Config(f'{mode}-{ct}-K3L3', h_cache, dict(mode=mode, cache_type=ct, K=3, L=3)))
                out.append(Config(f'{mode}-{ct}-K5L3-unary', h_cache, dict(mode=mode, cache_type=ct, K=5, L=3, na=1)))
    return out
