"""learning statistics are the real traffic; samples do not change the result"""
from engine.runner import Config
from engine.models import *
from engine.stubs import patched, random_stubbed

PROPERTY = 'P06'
OUTSIDE = 'larger systems; more or longer samples; timing fields; oracles that count differently'
ASSUMPTIONS = ['the equivalence oracle is exact and interacts with the system stepwise, like every oracle of the library',
               'samples are consistent with the system']
LEARNERS = ['lstar', 'lstar_nocex', 'kv', 'kv_lin', 'lsharp', 'lsharp_ads', 'adaptive']


class Counting(MachineSUL):
    def __init__(self, m):
        super().__init__(m)
        self.oracle = self.adaptive = False
        self.q = self.s = 0
        self.asked = []       # (who asked, word)

    def pre(self):
        super().pre()
        self.asked.append(['oracle' if self.oracle else 'adaptive' if self.adaptive else 'query', ()])
        if not self.oracle:
            self.q += 1

    def step(self, letter):
        if letter is not None:
            self.asked[-1][1] += (letter,)
        if letter is not None and not self.oracle:
            self.s += 1
        return super().step(letter)


class CountingOracle(ExactOracle):
    def find_cex(self, h):
        self.raw.oracle = True
        r = super().find_cex(h)
        self.raw.oracle = False
        return r


def h_stats(env, kind, n, na, learner, cache, nsamples=0, slen=3):
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp
    from aalpy.learning_algs.adaptive.AdaptiveLSharp import run_adaptive_Lsharp
    from aalpy.base.SUL import CacheSUL
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, n, A)
    sul = Counting(m)
    orc = CountingOracle(A, sul, m)
    orc.raw = sul
    samples = None
    if nsamples:
        samples = []
        for _ in range(nsamples):
            w = env.choose(list(words(A, 1, slen)), 'sample')
            samples.append((w, m.outputs(w)))
    kw = dict(cache_and_non_det_check=cache, return_data=True, print_level=0)
    if learner != 'kv' and learner != 'kv_lin':
        kw['samples'] = samples
    calls = [0]
    orig = CacheSUL.query

    def counted(self, word):
        if not sul.oracle:
            calls[0] += 1
        return orig(self, word)
    adapt = [0]
    orig_a = SUL.adaptive_query

    def counted_a(self, word, ads):
        if isinstance(self, CacheSUL):
            adapt[0] += 1
        sul.adaptive = True
        try:
            return orig_a(self, word, ads)
        finally:
            sul.adaptive = False
    with patched((CacheSUL, 'query', counted), (SUL, 'adaptive_query', counted_a)):
        if learner == 'lstar':
            h, info = run_Lstar(list(A), sul, orc, kind, cex_processing=env.choose(
                ['rs', 'longest_prefix', 'linear_bwd', 'exponential_fwd'], 'cexp'), **kw)
        elif learner == 'lstar_nocex':
            h, info = run_Lstar(list(A), sul, orc, kind, cex_processing=None, **kw)
        elif learner == 'kv':
            h, info = run_KV(list(A), sul, orc, kind, **kw)
        elif learner == 'kv_lin':
            h, info = run_KV(list(A), sul, orc, kind, cex_processing='linear_fwd', **kw)
        elif learner == 'lsharp':
            h, info = run_Lsharp(list(A), sul, orc, kind, extension_rule='SepSeq', separation_rule='SepSeq', **kw)
        elif learner == 'lsharp_ads':
            h, info = run_Lsharp(list(A), sul, orc, kind, extension_rule='ADS', separation_rule='ADS', **kw)
        else:
            ref = sym_automaton(env, kind, 2, ['a'], 'r', lazy=False, initial=0, structure=[[1], [0]])
            h, info = run_adaptive_Lsharp(list(A), sul, [ref], orc, kind, **kw)
    env.check(info['automaton_size'] == len(h.states), 'reported size is not the size of the model')
    env.check(info['queries_learning'] == sul.q, 'reported learning queries differ from the real ones')
    env.check(info['steps_learning'] == sul.s, 'reported learning steps differ from the real ones')
    if cache or samples is not None:
        known = {w[:k] for w, _ in samples or () for k in range(1, len(w) + 1)}
        for who, w in sul.asked:
            env.check(who != 'query' or w not in known, f'the system is asked {w} although the answer is known')
            known.update(w[:k] for k in range(1, len(w) + 1))
    env.check(info['queries_eq_oracle'] == orc.num_queries and info['steps_eq_oracle'] == orc.num_steps,
              'oracle statistics are not those of the oracle')
    if cache:
        env.check(info['cache_saved'] == calls[0] - (sul.q - adapt[0]),
                  'cached answers are not the queries saved')
        if info['cache_saved']:
            env.cover('saved')
    assert_wellformed(env, h, A)
    assert_equivalent(env, m, h)
    env.cover('done')


def h_oracle(env, kind, oracle, n, ns, na, calls=2, budget=3, shapes=None):
    """what an equivalence oracle reports as executed is what it executed, after every search"""
    from aalpy.base.SUL import CacheSUL
    from checks.p19 import make, hypo
    A = ['a', 'b', 'c'][:na]
    m = Machine(env, kind, ns, A, 's')
    sul = CacheSUL(MachineSUL(m)) if oracle == 'cache' else MachineSUL(m)
    count = [0, 0]
    pre, step = sul.pre, sul.step

    def pre2():
        count[0] += 1
        pre()

    def step2(letter):
        count[1] += 1
        return step(letter)
    with random_stubbed(shuffle='id', budget=budget, randint=2, after=0.0):
        if oracle == 'cache':
            for w in [(A[0], A[-1]), (A[-1], A[0])]:
                sul.query(w)
        orc = make(oracle, A, sul, m, True)
        sul.pre, sul.step = pre2, step2
        for c in range(calls):
            h, t = hypo(env, kind, n[c], A, f'h{c}')
            cex = orc.find_cex(h)
            env.cover('none' if cex is None else 'cex')
            env.check(orc.num_queries == count[0], 'the number of queries of the oracle is not what it executed')
            env.check(orc.num_steps == count[1], 'the number of input steps of the oracle is not what it executed')


# these also with the letters 0, 1, ...
ZERO = ['mealy-n2a2-lstar-cacheTrue-samples1', 'dfa-n2a2-kv-cacheTrue-samples0', 'mealy-n2a2-lsharp-cacheTrue-samples1']


def configs(tier):
    out = []
    for kind in ('mealy', 'dfa', 'moore'):
        for l in LEARNERS:
            for cache in (True, False):
                for ns in ((0, 1) if not l.startswith('kv') else (0,)):
                    n, na = 2, 2
                    if ns and tier == 'quick' and kind == 'moore':
                        continue
                    sl = 2 if tier == 'quick' else 3
                    out.append(Config(f'{kind}-n{n}a{na}-{l}-cache{cache}-samples{ns}', h_stats,
                                      dict(kind=kind, n=n, na=na, learner=l, cache=cache, nsamples=ns, slen=sl),
                                      covers=['done']))
            if tier == 'thorough':
                for cache in (True, False):
                    out.append(Config(f'{kind}-n3a2-{l}-cache{cache}', h_stats,
                                      dict(kind=kind, n=3, na=2, learner=l, cache=cache), covers=['done']))
                if not l.startswith('kv'):
                    out.append(Config(f'{kind}-n2a2-{l}-2samples', h_stats,
                                      dict(kind=kind, n=2, na=2, learner=l, cache=True, nsamples=2, slen=3), covers=['done']))
            else:
                out.append(Config(f'{kind}-n4a1-{l}', h_stats,
                                  dict(kind=kind, n=4, na=1, learner=l, cache=l != 'lsharp'), covers=['done']))
    for i, o in enumerate(['bfe', 'pac', 'word', 'word_total', 'walk', 'walk_total', 'w', 'wp', 'rw', 'rwp', 'kstate', 'kstate_comb',
                           'ktrans_prefix', 'focus', 'prefix', 'prefix_shuffled', 'cache', 'provided', 'ktrans', 'ktrans_queries']):
        for j in range(3 if tier == 'thorough' else 1):
            kind = ('mealy', 'dfa', 'moore')[(i + j) % 3]
            out.append(Config(f'{kind}-oracle-{o}', h_oracle, dict(kind=kind, oracle=o, n=[1, 2, 2], ns=2, na=1 if o.startswith('k') else 2,
                                                                  calls=3 if tier == 'thorough' else 2)))
    return out
