"""property checking of learned stochastic models with an external model checker"""
import io
import random as _r
import os
import subprocess
import tempfile
from contextlib import contextmanager, redirect_stdout
from engine.runner import Config
from engine.sym import And, Or, Not, Eq, Implies, Iff, truth
from engine.stubs import patched, random_stubbed
from checks.p18 import h_prism

PROPERTY = 'P38'
OUTSIDE = 'the verdicts of the model checker itself (a stand-in prints them); answers that are not finite decimal numbers (Infinity, intervals)'
ASSUMPTIONS = ['the model checker prints one line "Result: <number>" per quantitative property, in the order of the properties file',
               'rounding takes either neighbour of a tie']

NUMBERS = ['0.25', '1.0', '0.0', '12.75', '1.2E-5', '9.765625E-4', '3.0E10', '0.9999999999', '7', '4.5e-3', '1E-7']
NOISE = ['', 'PRISM', 'Model checking: Pmax=? [ F<=5 "goal" ]', 'Value in the initial state: 0.31', 'Result: true',
         'Result (probability): 0.1', 'Time for model checking: 0.013 seconds.', '   Result: 0.5']


class Prism:
    """stand-in for the model checker: answers are the lines given by `answer`, calls are recorded"""

    def __init__(self, answer):
        self.answer, self.calls, self.models, self.killed = answer, [], [], 0

    @contextmanager
    def installed(self):
        me = self

        class Popen:
            def __init__(self, args, **kw):
                me.calls.append((list(args), kw))
                try:
                    with open(args[1]) as f:
                        me.models.append(f.read())
                except OSError:
                    me.models.append(None)
                data = ''.join(x + '\n' for x in me.answer(len(me.calls)))
                text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
                self.stdout = io.StringIO(data) if text else io.BytesIO(data.encode())
                self.stderr, self.returncode, self.pid = None, 0, 0

            def kill(self):
                me.killed += 1

            terminate = kill

            def wait(self, timeout=None):
                return 0

            def poll(self):
                return 0

            def communicate(self, input=None, timeout=None):
                return self.stdout.read(), None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        import aalpy.paths
        old = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                with patched((subprocess, 'Popen', Popen), (aalpy.paths, 'path_to_prism', '/opt/mc/bin/prism')):
                    yield self
            finally:
                os.chdir(old)


def small_mdp(k=0, p=0.5):
    from aalpy.automata import Mdp, MdpState
    a, b = MdpState('a', 'x'), MdpState('b', 'y')
    a.transitions['i'] = [(a, 1 - p), (b, p)]
    b.transitions['i'] = [(b, 1)]
    return Mdp(a, [a, b])


def small_smm(p=0.5):
    from aalpy.automata import StochasticMealyMachine, StochasticMealyState
    a, b = StochasticMealyState('a'), StochasticMealyState('b')
    a.transitions['i'] = [(a, 'x', 1 - p), (b, 'y', p)]
    b.transitions['i'] = [(b, 'y', 1)]
    return StochasticMealyMachine(a, [a, b])


def h_parse(env, n, files):
    """every printed number is read, in order, with its value"""
    from aalpy.utils.ModelChecking import evaluate_all_properties
    lines, want = [], []
    for j in range(n):
        k = env.choose(['number', 'noise'], f'k{j}')
        if k == 'noise':
            lines.append(env.choose(NOISE, f'noise{j}'))
        else:
            v = env.choose(NUMBERS, f'v{j}')
            lines.append('Result: ' + v + env.choose([' (exact floating point)', ''], f'tail{j}'))
            want.append(float(v))
    with Prism(lambda c: lines).installed() as pr:
        got = evaluate_all_properties(*files)
        cwd = os.getcwd()
    env.check(list(got.values()) == want, f'read {list(got.values())} from {lines}')
    env.check(list(got) == [f'prop{j + 1}' for j in range(len(want))], 'names of the properties')
    env.check(len(pr.calls) == 1 and pr.calls[0][0] == ['/opt/mc/bin/prism'] + [os.path.join(cwd, f) for f in files], 'command line of the model checker')
    env.cover('numbers' if want else 'none')


def h_experiment(env, n, k, model):
    """errors are the rounded distances to the given values; the temporary model file is removed"""
    from aalpy.utils import ModelChecking as M
    from aalpy.utils import mdp_2_prism_format
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    vals = [env.real(f'v{j}', 0, 2) for j in range(k)]
    correct = [env.real(f'c{j}', 0, 2) for j in range(n)]
    bound = env.real('bound', 0, 1)
    seen = []

    def evaluate(model_file, props):
        with open(model_file) as f:
            seen.append((f.read(), props, model_file))
        return {f'prop{j + 1}': v for j, v in enumerate(vals)}
    m = small_mdp() if model == 'mdp' else small_smm()
    with Prism(lambda c: []).installed(), patched((M, 'evaluate_all_properties', evaluate)):
        if model == 'mdp':
            prec = env.choose([4, 2], 'precision')
            r, d = M.model_check_experiment('file.props', list(correct), m, precision=prec)
            half = 10 ** -prec / 2 + 1e-12
            names = [f'prop{j + 1}' for j in range(k)]
            env.check(list(r) == names and list(d) == names, 'names of the properties')
            for j in range(k):
                x, v, c = f'prop{j + 1}', vals[j], correct[j]
                env.check(And(r[x] - v <= half, v - r[x] <= half), 'reported value')
                e = d[x]
                env.check(And(e >= 0, Or(And(e - (v - c) <= half, (v - c) - e <= half), And(e - (c - v) <= half, (c - v) - e <= half))), 'reported error')
            env.cover('experiment')
        else:
            prec = 4
        got = M.stop_based_on_confidence(m, ('file.props', list(correct), bound), print_level=1)
        half = 1e-4 / 2 + 1e-9
        within = And([And(v - c <= bound + half, c - v <= bound + half) for v, c in zip(vals, correct)])
        beyond = Or([Or(v - c > bound - half, c - v > bound - half) for v, c in zip(vals, correct)])
        if got:
            env.check(k > 0, 'stops although nothing was model checked')
            env.check(within, 'stops although an error is above the bound')
            env.cover('stop')
        else:
            env.check(True if k == 0 else beyond, 'does not stop although all errors are below the bound')
            env.cover('continue')
        text = mdp_2_prism_format(m if model == 'mdp' else smm_to_mdp_conversion(m), 'mc_exp')
        for t, props, f in seen:
            env.check(t == text, 'another model was given to the model checker')
            env.check(props == 'file.props', 'another properties file')
        env.check(len(seen) == (2 if model == 'mdp' else 1), 'number of calls')
        env.check(os.listdir('.') == [], 'temporary files are left behind')


def h_learn(env, kind, strategy, rounds):
    """stochastic learning with a property based criterion stops at the first round, not before min_rounds, where it holds, and at max_rounds"""
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.learning_algs.stochastic.SamplingBasedObservationTable import SamplingBasedObservationTable as Tab
    from aalpy.learning_algs.stochastic.StochasticTeacher import StochasticTeacher
    from aalpy.utils import mdp_2_prism_format
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    from aalpy.base import Oracle
    from checks.p28 import AnySystem
    mdp = kind == 'mdp'
    hi = env.choose(range(1, rounds + 1), 'max')
    lo = env.choose(range(1, hi + 1), 'min')
    good, cont = {}, {}
    refine, gen = Tab.refine_not_completed_cells, Tab.generate_hypothesis
    at, sampled = [0], [0]
    query = StochasticTeacher.tree_query

    def my_gen(self):
        at[0] += 1
        return gen(self)

    def my_query(self, root):
        # four traces before every round
        if sampled[0] < 4 * (1 + at[0]):
            sampled[0] += 1
            return query(self, root)

    def my_refine(self, *a, **kw):
        refine(self, *a, **kw)
        if at[0] == 0:
            return True
        cont[at[0]] = env.choose([True, False], f'refined{at[0]}')
        return cont[at[0]]

    def answer(call):
        # two properties with value 1/4 and 1/2 and bound 1/50
        r = at[0]
        good[r] = env.choose(['good', 'bad', 'none'], f'verdict{r}')
        return {'good': ['Result: 0.26', 'Result: 0.485'], 'bad': ['Result: 0.25', 'Result: 0.47'], 'none': []}[good[r]]

    class NoCex(Oracle):
        def find_cex(self, hypothesis):
            return None
    sul = AnySystem(env, mdp, 0, ['x', 'y'])
    pr = Prism(answer)
    with pr.installed(), patched((Tab, 'refine_not_completed_cells', my_refine), (Tab, 'generate_hypothesis', my_gen), (StochasticTeacher, 'tree_query', my_query)), random_stubbed(budget=0, after=_r.Random(3)):
        h, info = run_stochastic_Lstar(['a'], sul, NoCex(['a'], sul), automaton_type=kind, strategy=strategy, min_rounds=lo, max_rounds=hi,
                                       n_c=2, n_resample=1, custom_oracle=True, return_data=True, print_level=0,
                                       target_unambiguity=2, stopping_range_dict={}, property_based_stopping=('p.props', [0.25, 0.5], 0.02))
        left = os.listdir('.')
    r = info['learning_rounds']
    want = None
    for k in range(1, hi + 1):
        if k == hi or (k >= lo and good.get(k) == 'good') or not cont.get(k, True):
            want = k
            break
    env.check(r == want, f'stopped after {r} instead of {want} rounds')
    env.check(r <= hi, 'more rounds than allowed')
    env.check(sorted(set(good) | {hi}) == sorted(set(range(lo, r + 1)) | {hi}), 'the properties are checked in other rounds')
    env.check(left == [], 'temporary files are left behind')
    if good.get(r):
        text = mdp_2_prism_format(h if mdp else smm_to_mdp_conversion(h), 'mc_exp')
        env.check(pr.models[-1] == text, 'the returned model is not the one that was checked')
    env.cover('limit' if r == hi else 'early')


def configs(tier):
    T = tier == 'thorough'
    out = [Config('parse', h_parse, dict(n=3 if T else 2, files=('m.prism', 'sub/p.props')), covers=['numbers', 'none'])]
    for k in range(0, 5 if T else 4):
        for model in ('mdp', 'smm'):
            out.append(Config(f'errors-{model}-{k}', h_experiment, dict(n=max(k, 1), k=k, model=model),
                              covers=['continue'] + (['stop'] if k else [])))
    out.append(Config('prism', h_prism, dict(n=2, na=1, maxb=2, outs=['x', 'x__y', 'init'], names=['a']), covers=['exported']))
    out.append(Config('prism-n3', h_prism, dict(n=3, na=1, maxb=1, outs=['x', 'y'], names=['go']), covers=['exported']))
    for kind in ('mdp', 'smm'):
        for strategy in ('normal', 'chi2', 'classic'):
            out.append(Config(f'learn-{kind}-{strategy}', h_learn, dict(kind=kind, strategy=strategy, rounds=5 if T else 3), covers=['limit', 'early']))
    return out
