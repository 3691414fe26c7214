"""statistical difference tests"""
import itertools
import math
from engine.runner import Config
from engine.mathsym import symbolic_math
from engine import sym
from engine.sym import Eq, And, Or, Not, truth

PROPERTY = 'P26'
OUTSIDE = 'larger frequencies and more outputs; differences within a relative distance of 1e-6 of the bound (floating-point rounding)'
ASSUMPTIONS = ['frequencies are integers, positive where an output was observed', 'square roots are encoded exactly, quantile table compared with independently computed quantiles']

EPS = 1e-6
O = ['x', 'y', 'z', 'w']


def table(env, tag, no, hi, empty, zero):
    """a frequency table over some of the outputs (in an arbitrary order) with one of the given totals"""
    subs = [s for k in range(0 if empty else 1, no + 1) for s in itertools.combinations(O[:no], k)]
    keys = list(env.choose(subs, tag + 'keys'))
    if len(keys) > 1 and env.choose(2, tag + 'order'):
        keys.reverse()
    lo = 0 if zero else 1
    n = env.choose([x for x in hi if x >= lo * len(keys)], tag + 'total') if keys else 0
    c = {}
    for o in keys[:-1]:
        c[o] = env.int(f'{tag}{o}', lo, n)
    if keys:
        last = n - sum(c.values())
        env.assume(truth(last >= lo))
        c[keys[-1]] = last
    return c


def spread(lo, hi, k):
    """at most k values between lo and hi, the ends included"""
    if hi - lo < k:
        return list(range(lo, hi + 1))
    return sorted({lo + (hi - lo) * i // (k - 1) for i in range(k)})


def pooled_tables(env, no, totals, k):
    """two tables with given totals and given pooled counts per output, the split of every pooled count is symbolic"""
    subs = [s for j in range(no + 1) for s in itertools.combinations(O[:no], j)]
    k1, k2 = list(env.choose(subs, 'akeys')), list(env.choose(subs, 'bkeys'))
    u = sorted({*k1, *k2})
    if not k1 or not k2 or not set(k1) & set(k2):
        return ({o: env.choose(spread(1, 60, 5), f'a{o}') for o in k1}, {o: env.choose(spread(1, 60, 5), f'b{o}') for o in k2})
    n1 = env.choose([x for x in totals if x >= len(k1)], 'an')
    n2 = env.choose([x for x in totals if x >= len(k2)], 'bn')
    u.sort(key=lambda o: (o in k1) and (o in k2))     # outputs of one table only come first
    c1, c2 = {}, {}
    left = n1 + n2
    s1 = 0
    for i, o in enumerate(u):
        if i < len(u) - 1:
            hi = left - sum((x in k1) + (x in k2) for x in u[i + 1:])
            lo = (o in k1) + (o in k2)
            env.assume(lo <= hi)
            p = env.choose(spread(lo, hi, k), f'p{o}')
        else:
            p = left
        left -= p
        if o in k1 and o in k2:
            v = env.int(f'a{o}', 1, p - 1) if i < len(u) - 1 else n1 - s1
            c1[o], c2[o] = v, p - v
        else:
            v = p if o in k1 else 0
            (c1 if o in k1 else c2)[o] = p
        s1 = s1 + v
    for c in (c1, c2):
        for v in c.values():
            env.assume(truth(v >= 1) if isinstance(v, sym.Sym) else v >= 1)
    env.assume(Eq(sum(c1.values()), n1))
    if env.choose(2, 'order'):
        c1 = dict(reversed(c1.items()))
    return c1, c2


def bound_check(env, res, c1, c2, f, extra=None, what='the test'):
    """res == exists o: |p1 - p2| > bound, up to rounding; f(n1, n2): the bound"""
    n1, n2 = sum(c1.values()), sum(c2.values())
    if not (truth(n1 > 0) and truth(n2 > 0)):
        env.check(Not(res), what + ' reports a difference without observations')
        return
    b = f(n1, n2)
    d = [abs(c1.get(o, 0) / n1 - c2.get(o, 0) / n2) for o in sorted({*c1, *c2})]
    if res:
        env.cover('different')
        env.check(Or([truth(x > b * (1 - EPS)) for x in d]), what + ' reports a difference that is within the bound')
    else:
        env.cover('same')
        env.check(And([truth(x < b * (1 + EPS)) for x in d]), what + ' misses a difference that exceeds the bound')


def roots(n1, n2, alpha):
    k = math.sqrt(0.5 * math.log(2 / alpha))
    return (math.sqrt(1 / n1) + math.sqrt(1 / n2)) * k


def roots2(n1, n2, alpha):
    L = math.log(2. / alpha)
    return math.sqrt((1. / (2 * n1)) * L) + math.sqrt((1. / (2 * n2)) * L)


def run(env, f):
    with symbolic_math():
        return bool(f())


def h_hoeff(env, test, no, hi, alpha, empty=True, zero=False, sym_=False):
    from aalpy.learning_algs.stochastic.DifferenceChecker import HoeffdingChecker, AdvancedHoeffdingChecker
    c1, c2 = table(env, 'a', no, hi, empty, zero), table(env, 'b', no, hi, empty, zero)
    ck = (HoeffdingChecker if test == 'basic' else AdvancedHoeffdingChecker)(alpha)
    with symbolic_math():
        res = bool(ck.are_cells_different(c1, c2))
        if test == 'basic' and set(c1) != set(c2):
            env.check(res, 'different outputs must be a difference')
        else:
            bound_check(env, res, c1, c2, lambda a, b: (roots if test == 'basic' else roots2)(a, b, alpha))
        if sym_:
            env.check(bool(ck.are_cells_different(c2, c1)) == res, 'the test depends on the order of its arguments')
            env.check(bool(ck.are_cells_different(dict(reversed(c1.items())), c2)) == res, 'the test depends on the order of the outputs')


def h_pta(env, test, no, hi, alpha, kind, ni=1, sym_=False):
    """compatibility of prefix tree nodes: Alergia's checker and the one of the generic state merging"""
    ins = ['i', 'j'][:ni] if kind != 'mc' else [None]
    tabs = []
    for s in ('a', 'b'):
        tabs.append({i: table(env, f'{s}{i}', no, hi, True, False) for i in ins if len(ins) == 1 or (s == 'a') == (i == 'i')})
    if len(ins) > 1:
        # one of the two tables of each input is fixed
        tabs[1]['i'] = {'x': 30}
        tabs[0]['j'] = {'x': 20, 'y': 10}
    orig = True
    if test == 'alergia':
        from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
        from aalpy.learning_algs.stochastic_passive.FPTA import AlergiaPtaNode
        nodes = []
        for k, t in enumerate(tabs):
            n = AlergiaPtaNode('out', ('p' * k,))
            for i, c in t.items():
                for o, v in c.items():
                    el = o if kind == 'mc' else (i, o)
                    n.input_frequency[el] = env.int(f'noise{k}{i}{o}', 1, 9)
                    n.original_input_frequency[el] = v
                    n.children[el] = n.original_children[el] = AlergiaPtaNode(o, ())
            nodes.append(n)
        with symbolic_math():
            ck = HoeffdingCompatibility(alpha)
            test_fn = lambda x, y: ck.are_states_different(x, y)
    else:
        from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import hoeffding_compatibility
        from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
        orig = bool(env.choose(2, 'original'))
        nodes = []
        for k, t in enumerate(tabs):
            n = GsmNode(('i', 'o'), None)
            for i, c in t.items():
                for o, v in c.items():
                    noise = env.int(f'noise{k}{i}{o}', 1, 9)
                    n.transitions.setdefault(i, {})[o] = TransitionInfo(None, noise if orig else v, None, v if orig else noise)
            nodes.append(n)
        with symbolic_math():
            sim = hoeffding_compatibility(alpha, orig)
            test_fn = lambda x, y: not sim(x, y)
    with symbolic_math():
        res = bool(test_fn(*nodes))
        exceeds, below = [], []
        for i in ins:
            c1, c2 = tabs[0][i], tabs[1][i]
            n1, n2 = sum(c1.values()), sum(c2.values())
            if not c1 or not c2:
                continue
            b = roots(n1, n2, alpha)
            for o in sorted({*c1, *c2}):
                d = abs(c1.get(o, 0) / n1 - c2.get(o, 0) / n2)
                exceeds.append(truth(d > b * (1 - EPS)))
                below.append(truth(d < b * (1 + EPS)))
        if res:
            env.cover('different')
            env.check(Or(exceeds), 'the test reports a difference that is within the bound')
        else:
            env.cover('same')
            env.check(And(below), 'the test misses a difference that exceeds the bound')
        if sym_:
            env.check(bool(test_fn(nodes[1], nodes[0])) == res, 'the test depends on the order of its arguments')


def quantile(p, dof):
    """inverse of the chi-square distribution function, by bisection on the incomplete gamma series"""
    def cdf(x):
        a, y = dof / 2, x / 2
        t = s = 1 / a
        n = a
        while t > s * 1e-17:
            n += 1
            t *= y / n
            s += t
        return s * math.exp(-y + a * math.log(y) - math.lgamma(a))
    lo, hi = 1e-9, 200.0
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if cdf(mid) < p else (lo, mid)
    return lo


_Q = {}


def quant(p, dof):
    if (p, dof) not in _Q:
        _Q[p, dof] = quantile(p, dof)
    return _Q[p, dof]


def h_chi(env, no, hi, alpha, spr=4, sym_=False):
    from aalpy.learning_algs.stochastic.DifferenceChecker import ChiSquareChecker
    c1, c2 = pooled_tables(env, no, hi, spr)
    ck = ChiSquareChecker(alpha)
    keys = sorted({*c1, *c2})
    with symbolic_math():
        res = bool(ck.are_cells_different(c1, c2))
        if not c1 or not c2 or len(keys) == 1:
            env.check(not res, 'a difference is reported without evidence')
        elif not set(c1) & set(c2):
            bound_check(env, res, c1, c2, lambda a, b: roots2(a, b, 0.05), what='the fallback of the chi-square test')
        else:
            n1, n2 = sum(c1.values()), sum(c2.values())
            y = 0
            if len(keys) == 2 and truth(Or([truth(c.get(k, 0) < 5) for c in (c1, c2) for k in keys])):
                y = 0.5
            q = 0
            for k in keys:
                p = (c1.get(k, 0) + c2.get(k, 0)) / (n1 + n2)
                for c, n in ((c1, n1), (c2, n2)):
                    e = n * p
                    d = abs(c.get(k, 0) - e) - y
                    q = q + d * d / e
            v = quant(1 - alpha, len(keys) - 1)
            if res:
                env.cover('different')
                env.check(truth(q > v * (1 - EPS)), 'a difference is reported although the statistic is below the quantile')
            else:
                env.cover('same')
                env.check(truth(q < v * (1 + EPS)), 'a difference is missed although the statistic reaches the quantile')
        if sym_:
            env.check(bool(ck.are_cells_different(c2, c1)) == res, 'the test depends on the order of its arguments')


def h_quantiles(env):
    """the quantile table, for every confidence level and degree of freedom"""
    from aalpy.learning_algs.stochastic.DifferenceChecker import ChiSquareChecker
    alpha = env.choose([0.05, 0.01, 0.001], 'alpha')
    dof = env.choose(20, 'dof') + 1
    ck = ChiSquareChecker(alpha)
    # dof+1 outputs with x observations each on disjoint halves plus one shared output: the answer flips at the quantile
    v = quant(1 - alpha, dof)
    c1 = {k: 10 for k in range(dof + 1)}
    n = 10 * (dof + 1)

    def stat(d):
        return 2 * d * d / 10 * 2
    # first table deviates by d on two outputs; find the integers around the threshold with large counts
    base = 10 ** 6
    lo = hi = None
    for target, exp in ((v * 0.999, False), (v * 1.001, True)):
        d = math.sqrt(target * base / 1)
        a = {k: base for k in range(dof + 1)}
        b = dict(a)
        a[0] += d / 2
        a[1] -= d / 2
        b[0] -= d / 2
        b[1] += d / 2
        env.check(bool(ck.are_cells_different(a, b)) == exp, 'the quantile table is wrong')
    env.cover('quantile')


def h_diff(env, no, hi, which):
    """difference values are symmetric and zero for equal distributions"""
    from aalpy.learning_algs.stochastic.DifferenceChecker import AdvancedHoeffdingChecker, ChiSquareChecker
    if which == 'chi':
        c1, c2 = pooled_tables(env, no, [1, 2, 7, 40], 4)
    else:
        c1, c2 = table(env, 'a', no, hi, True, False), table(env, 'b', no, hi, True, False)
    with symbolic_math():
        ck = AdvancedHoeffdingChecker(0.05, True) if which == 'hoeffding' else ChiSquareChecker(0.001, True)
        a, b = ck.difference_value(c1, c2), ck.difference_value(c2, c1)
        env.check(truth(a >= 0) if not (c1 and c2) or which == 'hoeffding' else True, 'negative difference')
        if isinstance(a, sym.Sym) or isinstance(b, sym.Sym):
            env.check(And([truth(a - b < EPS), truth(b - a < EPS)]), 'the difference value depends on the order of the arguments')
        else:
            env.check(abs(a - b) < EPS, 'the difference value depends on the order of the arguments')
        env.check(ck.use_diff_value() is True, 'use_diff_value')
        env.cover('value')


def configs(tier):
    T = tier == 'thorough'
    out = []

    def add(name, fn, covers=(), **kw):
        out.append(Config(name, fn, kw, covers=covers, path_timeout=60))
    DS = ['different', 'same']
    hi = [1, 2, 3, 7, 40, 1000] if not T else [1, 2, 3, 4, 5, 6, 8, 10, 15, 30, 77, 400, 5000]
    for t in ('basic', 'advanced'):
        for al in ((0.05, 0.3) if not T else (0.001, 0.05, 0.3, 1.0, 1.9)):
            add(f'{t}-{al}', h_hoeff, DS, test=t, no=2, hi=hi, alpha=al)
        add(f'{t}-sym', h_hoeff, DS, test=t, no=2, hi=hi, alpha=0.1, sym_=True)
        add(f'{t}-zero', h_hoeff, DS, test=t, no=2, hi=hi, alpha=0.1, zero=True)
        add(f'{t}-3', h_hoeff, DS, test=t, no=3, hi=hi, alpha=0.5)
    for t in ('alergia', 'gsm'):
        add(f'{t}-mc', h_pta, DS, test=t, no=2, hi=hi, alpha=0.5, kind='mc')
        add(f'{t}-mdp', h_pta, DS, test=t, no=2, hi=hi, alpha=0.05, kind='mdp')
        add(f'{t}-mdp2', h_pta, DS, test=t, no=2, hi=[2, 30] if not T else [1, 5, 30], alpha=1.0, kind='mdp', ni=2)
        add(f'{t}-sym', h_pta, DS, test=t, no=2, hi=hi, alpha=0.05, kind='mdp', sym_=True)
        add(f'{t}-3', h_pta, DS, test=t, no=3, hi=[40, 300] if not T else [3, 40, 300], alpha=0.5, kind='mdp')
        if T:
            add(f'{t}-3mc', h_pta, DS, test=t, no=3, hi=[40, 300], alpha=0.05, kind='mc', sym_=True)
    ch = [1, 2, 5, 9, 30, 500] if not T else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 50, 100, 1000]
    for al in (0.05, 0.01, 0.001):
        add(f'chi-{al}', h_chi, DS, no=2, hi=ch, alpha=al)
    add('chi-sym', h_chi, DS, no=2, hi=ch, alpha=0.01, sym_=True)
    add('chi-3', h_chi, DS, no=3, hi=[3, 8, 40] if not T else [1, 2, 3, 8, 40, 200], alpha=0.05, spr=3)
    add('quantiles', h_quantiles, ['quantile'])
    for w in ('hoeffding', 'chi'):
        add(f'value-{w}', h_diff, ['value'], no=2, hi=hi, which=w)
    return out
