"""a small probabilistic machine with symbolic probabilities"""


def small_machine(env, kind):
    from aalpy.automata import Mdp, MdpState, StochasticMealyMachine, StochasticMealyState
    p = env.real('p', 0, 1)
    env.assume(p > 0)
    env.assume(p < 1)
    if kind == 'mdp':
        s, t = MdpState('q0', 0), MdpState('q1', 1)
        s.transitions['a'] = [(s, p), (t, 1 - p)]
        t.transitions['a'] = [(s, 1.0)]
        return Mdp(s, [s, t])
    s, t = StochasticMealyState('q0'), StochasticMealyState('q1')
    s.transitions['a'] = [(s, 0, p), (t, 1, 1 - p)]
    t.transitions['a'] = [(s, 0, 1.0)]
    return StochasticMealyMachine(s, [s, t])
