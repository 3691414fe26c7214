"""counterexample processing returns genuinely distinguishing suffixes"""
from engine.runner import Config
from engine.models import *

PROPERTY = 'P07'
OUTSIDE = 'larger hypotheses and systems, longer counterexamples; the prefix-closed variants; visibly pushdown hypotheses (P32)'
ASSUMPTIONS = ['the hypothesis agrees with the system on every access sequence and its one-letter extensions (which '
               'closed tables and trees guarantee)', 'the given word is a counterexample on its last letter']
METHODS = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd', 'longest_prefix']


def h_cex(env, kind, method, n, k, na, L, plen=2):
    from aalpy.learning_algs.deterministic import CounterExampleProcessing as P
    A = ['a', 'b'][:na]
    m = Machine(env, kind, n, A)
    sul = MachineSUL(m)
    h = sym_automaton(env, kind, k, A, 'h', initial=0)
    sts = h.states
    # access sequences: any word leading to the state
    sts[0].prefix = ()
    for q in range(1, k):
        cand = [w for w in words(A, 1, plen)]
        w = env.choose(cand, f'p{q}')
        if hyp_state(h, w) is not sts[q]:
            env.assume(False)
        sts[q].prefix = w
    for s in sts:
        if kind == 'mealy':
            s.output_fun = {a: m.output(s.prefix + (a,)) for a in A}
        elif kind == 'dfa':
            s.is_accepting = m.output(s.prefix)
        else:
            s.output = m.output(s.prefix)
    if kind != 'mealy':
        for s in sts:
            for a in A:
                env.assume(Eq(state_out(h, s.transitions[a]), m.output(s.prefix + (a,))))
    cex = env.choose([w for w in words(A, 2, L)], 'cex')
    env.assume(differs(m, h, cex))
    closed = bool(env.choose(2, 'closed'))
    env.check(Not(truth(P.counterexample_successfully_processed(sul, cex, h))), 'counterexample considered processed')
    if method == 'rs':
        r = P.rs_cex_processing(sul, cex, h, closed)
    elif method.startswith('linear'):
        r = P.linear_cex_processing(sul, cex, h, closed, direction=method[-3:])
    elif method.startswith('exp'):
        r = P.exponential_cex_processing(sul, cex, h, closed, direction=method[-3:])
    else:
        S = [()] + [w for w in words(A, 1, 2) if not env.choose(2, 'inS')]
        env.assume(all(w[:-1] in S for w in S if w))
        r = P.longest_prefix_cex_processing(list(S), cex)
        closed = True
    env.check(len(r) > 0, 'no suffix returned')
    r = [tuple(x) for x in r]
    for v in r:
        env.check(0 < len(v) <= len(cex) and cex[len(cex) - len(v):] == v, 'not a non-empty suffix of the counterexample')
    env.check(len(set(r)) == len(r), 'suffix returned twice')
    v = max(r, key=len)
    if closed:
        env.check({v[i:] for i in range(len(v))} == set(r), 'suffixes are not closed')
    if method == 'longest_prefix':
        p = cex[:len(cex) - len(v)]
        longest = max((s for s in S if s == cex[:len(s)]), key=len)
        env.check(p == longest if longest != cex else p == (), 'the longest known prefix was not removed')
    else:
        env.check(Or([Not(Eq(m.output(s.prefix + (a,) + v), m.output(s.transitions[a].prefix + v)))
                      for s in sts for a in A]), 'suffix does not separate a transition from its target')
    env.cover(f'len{len(v)}')


# these also with the letters 0, 1, ...
ZERO = ['mealy-rs-n3k1a2L3', 'dfa-longest_prefix-n3k1a2L3', 'dfa-linear_bwd-n3k1a2L3']


def configs(tier):
    out = []
    for kind in ('mealy', 'dfa', 'moore'):
        for me in METHODS:
            if tier == 'quick':
                out.append(Config(f'{kind}-{me}-n3k1a2L3', h_cex, dict(kind=kind, method=me, n=3, k=1, na=2, L=3), covers=['len1']))
                out.append(Config(f'{kind}-{me}-n4k2a1L6', h_cex, dict(kind=kind, method=me, n=4, k=2, na=1, L=6), covers=['len1', 'len2']))
                if kind == 'dfa' and me != 'longest_prefix':
                    out.append(Config(f'{kind}-{me}-n3k2a2L3', h_cex, dict(kind=kind, method=me, n=3, k=2, na=2, L=3), covers=['len1']))
            else:
                out.append(Config(f'{kind}-{me}-n3k2a2L4', h_cex, dict(kind=kind, method=me, n=3, k=2, na=2, L=4), covers=['len1', 'len2']))
                out.append(Config(f'{kind}-{me}-n6k2a1L9', h_cex, dict(kind=kind, method=me, n=6, k=2, na=1, L=9), covers=['len1', 'len2']))
                out.append(Config(f'{kind}-{me}-n5k3a1L7', h_cex, dict(kind=kind, method=me, n=5, k=3, na=1, L=7), covers=['len1']))
    return out
