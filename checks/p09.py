"""running deterministic automata"""
from engine.runner import Config
from engine.models import *
from engine.sym import Eq, And, Or, Not, SeqEq

PROPERTY = 'P09'
OUTSIDE = 'more states, inputs and longer words than listed'
ASSUMPTIONS = ['outputs are arbitrary values that support equality only (for DFA: Booleans)']
ALPH = {'ab': ['a', 'b'], 'ints': [0, 1], 'odd': ['', ('x',)], 'a': ['a']}


def h_run(env, kind, n, al, L, ops, shape=None):
    A = ALPH[al]
    m = sym_automaton(env, kind, n, A, structure=STRUCTURES.get(shape))
    mealy = kind == 'mealy'
    cur = m.states[env.choose(n, 'cur')]
    m.current_state = cur

    def run(s, w):
        outs = []
        for a in w:
            if mealy:
                outs.append(s.output_fun[a])
                s = s.transitions[a]
            else:
                s = s.transitions[a]
                outs.append(state_out(m, s))
        return s, outs

    for _ in range(ops):
        op = env.choose(['step', 'none', 'exec', 'output_step', 'output_seq', 'reset', 'query_iter'], 'op')
        env.cover(op)
        if op == 'step':
            a = env.choose(A, 'a')
            exp_s, exp_o = run(cur, [a])
            o = m.step(a)
            env.check(Eq(o, exp_o[0]), 'step returns a wrong output')
            env.check(m.current_state is exp_s, 'step moves to a wrong state')
            cur = exp_s
        elif op == 'none':
            if mealy:
                continue
            env.check(Eq(m.step(None), state_out(m, cur)), 'step without a letter returns a wrong output')
            env.check(m.current_state is cur, 'step without a letter moves')
        elif op == 'exec':
            w = env.choose(list(words(A, 0, L)), 'w')
            s = m.states[env.choose(n, 's')]
            exp_s, exp_o = run(s, w)
            env.check(SeqEq(m.execute_sequence(s, w), exp_o), 'execute_sequence returns wrong outputs')
            env.check(m.current_state is exp_s, 'execute_sequence ends in a wrong state')
            cur = exp_s
        elif op == 'output_step':
            s = m.states[env.choose(n, 's')]
            a = env.choose(A, 'a')
            env.check(Eq(m.output_step(s, a), run(s, [a])[1][0]), 'output_step returns a wrong output')
            env.check(m.current_state is cur, 'output_step moves the machine')
        elif op == 'output_seq':
            w = env.choose(list(words(A, 0, L)), 'w')
            s = m.states[env.choose(n, 's')]
            exp = run(s, w)[1]
            if not w and not mealy:
                exp = [state_out(m, s)]
            env.check(SeqEq(m.compute_output_seq(s, w), exp), 'compute_output_seq returns wrong outputs')
            env.check(m.current_state is cur, 'compute_output_seq moves the machine')
        elif op == 'reset':
            m.reset_to_initial()
            cur = m.initial_state
            env.check(m.current_state is cur, 'reset does not return to the initial state')
        else:
            m.get_input_alphabet(), m.is_input_complete()
            env.check(m.current_state is cur, 'a query of the structure moves the machine')
    for s in m.states:
        env.check(list(s.transitions) == A, 'transition table changed')


def configs(tier):
    out = []
    for kind in ('mealy', 'moore', 'dfa'):
        for al in ('ab', 'ints', 'odd'):
            out.append(Config(f'{kind}-n2-{al}', h_run, dict(kind=kind, n=2, al=al, L=2, ops=1),
                              covers=['step', 'exec', 'output_step', 'output_seq', 'reset']))
        out.append(Config(f'{kind}-n2-a-ops2', h_run, dict(kind=kind, n=2, al='a', L=2, ops=2)))
        out.append(Config(f'{kind}-n3-ab', h_run, dict(kind=kind, n=3, al='ab', L=2, ops=1)))
        for sh in ('ring6', 'tree5', 'funnel5'):
            out.append(Config(f'{kind}-{sh}', h_run, dict(kind=kind, n=len(STRUCTURES[sh]), al='ab', L=4, ops=1, shape=sh)))
        if tier == 'thorough':
            out.append(Config(f'{kind}-n3-ab-L4', h_run, dict(kind=kind, n=3, al='ab', L=4, ops=1)))
            out.append(Config(f'{kind}-n4-a-L5', h_run, dict(kind=kind, n=4, al='a', L=5, ops=1)))
            out.append(Config(f'{kind}-n2-ab-ops2', h_run, dict(kind=kind, n=2, al='ab', L=2, ops=2)))
            out.append(Config(f'{kind}-n2-a-ops3', h_run, dict(kind=kind, n=2, al='a', L=2, ops=3)))
    return out
