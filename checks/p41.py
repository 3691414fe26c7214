"""the exchange with the external jAlergia program"""
import os
import subprocess
import tempfile
from contextlib import contextmanager, redirect_stdout
import io
from engine.runner import Config
from engine.stubs import patched

PROPERTY = 'P41'
OUTSIDE = 'what jAlergia itself computes (a stand-in reads the handed-over file and writes a model); symbols that contain a comma or a line break'
ASSUMPTIONS = ['jAlergia reads one comma separated sequence per line and writes jAlergiaModel.dot into the working directory']

SYMBOLS = ['a', 'b1', 'two words', 0, 3, -1, 'None', '0']


def model(kind, k):
    from aalpy.automata import Mdp, MdpState, StochasticMealyMachine, StochasticMealyState, MarkovChain, McState
    p, q = [(0.5, 0.5), (0.25, 0.75), (0.125, 0.875)][k]
    if kind == 'mdp':
        a, b = MdpState('q0', 'x'), MdpState('q1', 'y')
        a.transitions['i'] = [(a, p), (b, q)]
        b.transitions['i'] = [(b, 1.0)]
        return Mdp(a, [a, b])
    if kind == 'mc':
        a, b = McState('q0', 'x'), McState('q1', 'y')
        a.transitions += [(a, p), (b, q)]
        b.transitions += [(b, 1.0)]
        return MarkovChain(a, [a, b])
    a, b = StochasticMealyState('q0'), StochasticMealyState('q1')
    a.transitions['i'] = [(a, 'x', p), (b, 'y', q)]
    b.transitions['i'] = [(b, 'y', 1.0)]
    return StochasticMealyMachine(a, [a, b])


def table(m, kind):
    """transitions by output of the states (mdp, mc) or by position"""
    ids = {s: i for i, s in enumerate(m.states)}
    rows = []
    for s in m.states:
        if kind == 'mc':
            rows.append((s.output, sorted((ids[t], float(p)) for t, p in s.transitions)))
        elif kind == 'mdp':
            rows.append((s.output, {i: sorted((ids[t], float(p)) for t, p in ts) for i, ts in s.transitions.items()}))
        else:
            rows.append({i: sorted((ids[t], o, float(p)) for t, o, p in ts) for i, ts in s.transitions.items()})
    return ids[m.initial_state], rows


def snapshot():
    out = {}
    for f in sorted(os.listdir('.')):
        with open(f) as h:
            out[f] = h.read()
    return out


def h_bridge(env, kind, num, L, given):
    from aalpy.learning_algs import run_JAlergia
    from aalpy.utils import save_automaton_to_file
    which = env.choose([0, 1, 2], 'model')
    works = env.choose([True, False], 'works')
    stale = env.choose([True, False], 'stale')
    jar = env.choose(['here.jar', 'sub/alergia.jar', 'missing.jar'], 'jar')
    data = []
    for j in range(env.choose(range(num + 1), 'num') if given != 'missing' else 0):
        data.append([env.choose(SYMBOLS, f's{j}_{k}') for k in range(env.choose(range(1, L + 1), f'len{j}'))])
    if env.choose([True, False], 'tuples'):
        data = tuple(tuple(s) for s in data)
    eps, heap = env.choose([(0.05, None), (1, '-Xmx64M')], 'options')
    lines = [','.join(str(x) for x in s) for s in data]
    calls = []
    old = os.getcwd()

    def java(args, *a, **kw):
        args = list(args)
        f = args[args.index('-input') + 1]
        with open(f) as h:
            calls.append((args, h.read(), os.path.exists('jAlergiaModel.dot')))
        if works:
            save_automaton_to_file(model(kind, which), 'jAlergiaModel', 'dot')
        return 0 if works else 1

    def run(args, *a, **kw):
        return subprocess.CompletedProcess(args, java(args))

    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            os.mkdir('jars'), os.mkdir('w')
            os.chdir('w')
            os.mkdir('../w/sub')
            for f in ('here.jar', 'sub/alergia.jar'):
                open(f, 'w').close()
            if given == 'file':
                with open('data.txt', 'w') as h:
                    h.write('\n'.join(lines))
                arg = env.choose(['data.txt', './data.txt'], 'path')
            else:
                arg = 'nothing.txt' if given == 'missing' else data
            here = lambda: {f: open(f).read() for f in sorted(os.listdir('.')) if os.path.isfile(f)}
            before = here()
            if stale:
                save_automaton_to_file(model(kind, (which + 1) % 3), 'jAlergiaModel', 'dot')
            cwd = os.getcwd()
            kw = {} if heap is None else {'heap_memory': heap}
            with patched((subprocess, 'call', java), (subprocess, 'check_call', java), (subprocess, 'run', run)), redirect_stdout(io.StringIO()):
                got = run_JAlergia(arg, kind, jar, eps, **kw)
            after = here()
        finally:
            os.chdir(old)
    copy = [list(s) for s in data]
    runs = jar != 'missing.jar' and given != 'missing'
    env.check(len(calls) == (1 if runs else 0), 'number of calls of the program')
    if not runs:
        env.check(got is None, 'a model although nothing was run')
        env.cover('not run')
        return
    args, text, seen = calls[0]
    env.check(text.splitlines() == lines, f'the program was given {text!r} instead of {lines}')
    env.check(not seen, 'an old model is still there while the program runs')
    src = args[args.index('-input') + 1]
    env.check(args == ['java', heap or '-Xmx2048M', '-jar', os.path.join(cwd, jar), '-input', src, '-eps', str(eps), '-type', kind], f'command line {args}')
    env.check(os.path.isabs(src), 'relative path of the data')
    env.check(after == before, f'files left behind, removed or changed: {sorted(after)} instead of {sorted(before)}')
    env.check([list(s) for s in data] == copy, 'data changed')
    if works:
        env.check(got is not None and table(got, kind) == table(model(kind, which), kind), 'another model than the one the program wrote')
        env.cover('model')
    else:
        env.check(got is None, 'a model although the program failed')
        env.cover('failure')


def configs(tier):
    T = tier == 'thorough'
    out = []
    for kind in ('mdp', 'mc', 'smm'):
        out.append(Config(f'list-{kind}', h_bridge, dict(kind=kind, num=1 if not T else 2, L=1 if not T else 2, given='list'), covers=['not run', 'model', 'failure']))
        out.append(Config(f'file-{kind}', h_bridge, dict(kind=kind, num=1, L=1 if not T else 2, given='file'), covers=['not run', 'model', 'failure']))
        out.append(Config(f'missing-{kind}', h_bridge, dict(kind=kind, num=0, L=1, given='missing'), covers=['not run']))
    return out
