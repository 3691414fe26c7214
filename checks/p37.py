"""ready-made example models and systems"""
from fractions import Fraction
from engine.runner import Config
from engine.sym import And, Or, Not, Eq, Iff, Implies, SymInt, truth
from engine.stubs import patched, random_stubbed

PROPERTY = 'P37'
OUTSIDE = 'longer words; ready-made models whose language is not described (sevpa_for_L10, sevpa_for_L11, vpa_for_L16, the nondeterministic machines)'
ASSUMPTIONS = ['day -1..40, month -1..20, year -1..10100, written as decimal numerals (DateValidator)']


# recognizers: prefix -> None (no extension is in the language) or whether the prefix itself is
def dyck(pairs, internal=(), blocks=()):
    """non-empty words of matching brackets, internal letters and blocks of internal letters"""
    close = {r: c for c, r in pairs}
    opening = {c for c, _ in pairs}

    def f(w):
        stack, i = [], 0
        while i < len(w):
            x = w[i]
            if x in opening:
                stack.append(x)
            elif x in close:
                if not stack or stack.pop() != close[x]:
                    return None
            elif x not in internal:
                for b in blocks:
                    if tuple(w[i:i + len(b)]) == tuple(b):
                        i += len(b) - 1
                        break
                    if tuple(b[:len(w) - i]) == tuple(w[i:]):
                        return False
                else:
                    return None
            i += 1
        return not stack and len(w) > 0
    return f


def updown(up, down, match=None):
    """n >= 1 blocks of `up`, then n blocks of `down` (matching blocks if asked for)"""
    def f(w):
        # all ways to read w as blocks up^k down^j plus a started block
        res = []

        def rec(i, stack, phase):
            if i == len(w):
                res.append(not stack and phase == 1)
                return
            for b in (up if phase == 0 else []):
                if tuple(w[i:i + len(b)]) == tuple(b):
                    rec(i + len(b), stack + [b], 0)
                elif tuple(b[:len(w) - i]) == tuple(w[i:]):
                    res.append(False)
            for b in down:
                if stack and (match is None or match[stack[-1]] == b):
                    if tuple(w[i:i + len(b)]) == tuple(b):
                        rec(i + len(b), stack[:-1], 1)
                    elif tuple(b[:len(w) - i]) == tuple(w[i:]):
                        res.append(False)
        rec(0, [], 0)
        return any(res) if res else None
    return f


def odd(w):
    n = 0
    while n < len(w) and w[n] == '(':
        n += 1
    if any(x != ')' for x in w[n:]) or len(w) - n > n:
        return None
    if n < len(w) and n % 2 == 0:
        return None
    return n > 0 and len(w) == 2 * n


B = {1: [('(', ')')], 2: [('(', ')'), ('[', ']')], 3: [('(', ')'), ('[', ']'), ('{', '}')], 4: [('(', ')'), ('[', ']'), ('{', '}'), ('<', '>')]}
M = {'(': ')', '[': ']'}
def json(w):
    """objects and arrays, with the letters key and val for keys and scalar values"""
    # what may come next; a stack of open brackets
    state, stack = 'top', []
    for x in w:
        if state == 'end':
            return None
        if x in '{[' and state in ('top', 'value', 'item', 'item-or-end'):
            stack.append(x)
            state = 'key-or-end' if x == '{' else 'item-or-end'
        elif x == 'val' and state in ('value', 'item', 'item-or-end'):
            state = 'after'
        elif x == 'key' and state in ('key', 'key-or-end'):
            state = 'colon'
        elif x == ':' and state == 'colon':
            state = 'value'
        elif x == ',' and state == 'after':
            state = 'key' if stack[-1] == '{' else 'item'
        elif x in ']}' and state in ('after', 'key-or-end' if x == '}' else 'item-or-end') and stack[-1] == {'}': '{', ']': '['}[x]:
            stack.pop()
            state = 'after' if stack else 'end'
        else:
            return None
    return state == 'end'


VPA = {
    'vpa_json': (['{', '[', '}', ']', ':', ',', 'key', 'val'], json),
    'vpa_L1': ('ab', updown(['a'], ['b'])), 'sevpa_for_L1': ('ab', updown(['a'], ['b'])),
    'vpa_L2': ('abcd', updown(['a', 'b'], ['c', 'd'])), 'sevpa_for_L2': ('abcd', updown(['a', 'b'], ['c', 'd'])),
    'vpa_for_L3': ('abcdefgh', updown(['ab', 'cd'], ['ef', 'gh'])), 'sevpa_for_L3': ('abcdefgh', updown(['ab', 'cd'], ['ef', 'gh'])),
    'vpa_L3': ('abcd', updown(['ab'], ['cd'])), 'sevpa_for_L4': ('abcd', updown(['ab'], ['cd'])),
    'sevpa_for_L5': ('abcdef', updown(['abc'], ['def'])),
    'vpa_L4': ('([)]', dyck(B[2])), 'sevpa_for_L7': ('([)]', dyck(B[2])),
    'vpa_L6': ('([{)]}', dyck(B[3])), 'sevpa_for_L8': ('([{)]}', dyck(B[3])),
    'vpa_L8': ('([{<)]}>', dyck(B[4])), 'sevpa_for_L9': ('([{<)]}>', dyck(B[4])),
    'vpa_L9': ('([)]', updown(['(', '['], [')', ']'], M)), 'sevpa_for_L12': ('([)]', updown(['(', '['], [')', ']'], M)),
    'vpa_L10': ('()abc', dyck(B[1], 'abc')), 'sevpa_for_L13': ('()abc', dyck(B[1], 'abc')),
    'vpa_L11': ('([)]abc', dyck(B[2], 'abc')), 'sevpa_for_L14': ('([)]abc', dyck(B[2], 'abc')),
    'vpa_L12': ('()abcd', dyck(B[1], 'd', ['abc'])), 'sevpa_for_L15': ('()abcd', dyck(B[1], 'd', ['abc'])),
    'vpa_for_odd_parentheses': ('()', odd),
}


def letters(env, A, L, alive):
    """an arbitrary word, one letter at a time; stops behind a prefix without continuation"""
    w = ()
    while len(w) < L:
        w += (env.choose(list(A), f'w{len(w)}'),)
        yield w
        if not alive(w):
            return


def h_vpa(env, name, L):
    from aalpy.utils import BenchmarkVpaModels, BenchmarkSevpaModels
    from aalpy.SULs import AutomatonSUL
    A, ref = VPA[name]
    m = getattr(BenchmarkVpaModels, name, None) or getattr(BenchmarkSevpaModels, name)
    sul = AutomatonSUL(m())
    sul.pre()
    env.check(sul.step(None) is False, 'the empty word is accepted')
    last = True

    def alive(w):
        return ref(w) is not None
    for w in letters(env, A, L, alive):
        got = sul.step(w[-1])
        want = ref(w)
        env.check(got is bool(want), f'the model does not accept exactly the words of its language ({"".join(w)})')
        if want:
            env.cover('accepted')
        last = want is not None
    if last is False:
        env.cover('dead')
    sul.post()


def h_even(env, L):
    """only words of matched parentheses with an even number of pairs"""
    from aalpy.utils.BenchmarkVpaModels import vpa_for_even_parentheses
    m = vpa_for_even_parentheses()
    m.reset_to_initial()
    ref = dyck(B[1])
    for w in letters(env, '()', L, lambda w: ref(w) is not None):
        got = m.step(w[-1])
        env.check(not got or ref(w) and len(w) % 4 == 0, 'accepts a word that is not balanced or has an odd number of pairs')
        n = len(w) // 4
        if ''.join(w) == '(' * 2 * n + ')' * 2 * n:
            env.check(got, 'does not accept nested pairs')
            env.cover('accepted')


def h_angluin(env, L):
    from aalpy.utils.BenchmarkSULs import get_Angluin_dfa
    m = get_Angluin_dfa()
    m.reset_to_initial()
    for w in letters(env, 'ab', L, lambda w: True):
        env.check(m.step(w[-1]) is (w.count('a') % 2 == 0 and w.count('b') % 2 == 0), "not the words with even numbers of a's and b's")
    env.cover('words')


MODELS = ['get_faulty_coffee_machine_MDP', 'get_weird_coffee_machine_MDP', 'get_faulty_coffee_machine_SMM', 'get_minimal_faulty_coffee_machine_SMM',
          'get_faulty_mqtt_SMM', 'get_small_gridworld', 'get_small_pomdp', 'get_benchmark_ONFSM', 'get_ONFSM']


def h_model(env, name, L):
    """arbitrary walks with arbitrary draws; the distributions of every state on the way"""
    from aalpy.utils import BenchmarkSULs
    m = getattr(BenchmarkSULs, name)()
    ids = {id(s) for s in m.states}
    env.check(id(m.initial_state) in ids and len({s.state_id for s in m.states}) == len(m.states), 'initial state or state ids')
    A = sorted({a for s in m.states for a in s.transitions})
    m.reset_to_initial()
    with random_stubbed(budget=L):
        for k in range(L):
            s = m.current_state
            for a in A:
                ts = s.transitions[a] if a in s.transitions else []
                env.check(all(id(t[1] if 'ONFSM' in name else t[0]) in ids for t in ts), 'transition leaves the model')
                if 'ONFSM' in name:
                    env.check(len(ts) == len({t[0] for t in ts}), 'not observable')
                else:
                    p = [Fraction(t[-1]).limit_denominator(1000) for t in ts]
                    env.check(all(x > 0 for x in p), f'probability zero ({s.state_id}, {a})')
                    env.check(sum(p) == 1, f'the probabilities of a state and input do not sum to one ({s.state_id}, {a})')
                    if 'SMM' in name or 'grid' in name:
                        env.check(len({(id(t[0]), t[1]) for t in ts}) == len(ts), 'a transition is listed twice')
            a = env.choose(A, f'a{k}')
            m.step(a)
    env.cover('walk')


def h_coffee(env, L):
    """the three models of the faulty coffee machine: the same output probabilities for every word"""
    from aalpy.utils.BenchmarkSULs import get_faulty_coffee_machine_MDP, get_faulty_coffee_machine_SMM, get_minimal_faulty_coffee_machine_SMM
    dist = []
    for m in (get_faulty_coffee_machine_MDP(), get_faulty_coffee_machine_SMM(), get_minimal_faulty_coffee_machine_SMM()):
        dist.append({m.initial_state: Fraction(1)})
    for k in range(L):
        a = env.choose(['but', 'coin'], f'a{k}')
        o = env.choose(['init', 'beep', 'coffee'], f'o{k}')
        for j, d in enumerate(dist):
            new = {}
            for s, p in d.items():
                for t in s.transitions[a]:
                    out, q = (t[0].output, t[1]) if j == 0 else (t[1], t[2])
                    if out == o:
                        new[t[0]] = new.get(t[0], 0) + p * Fraction(q).limit_denominator(1000)
            dist[j] = new
        tot = [sum(d.values()) for d in dist]
        env.check(tot[0] == tot[1] == tot[2], 'the three coffee machines differ')
        if not tot[0]:
            return
    env.cover('words')


def h_balanced(env, pairs, empty, L):
    """balanced strings"""
    from aalpy.utils.BenchmarkSULs import get_balanced_string_sul, is_balanced
    pairs = [tuple(p) for p in pairs]
    A = [x for p in pairs for x in p] + ['x']
    ref = dyck(pairs, 'x')
    sul = get_balanced_string_sul(dict(pairs), empty)
    for rep in range(2):
        sul.pre()
        env.check(sul.step(None) is empty, 'the empty string')
        w = ()
        for w in letters(env, A, L if rep else 1, lambda w: ref(w) is not None):
            env.check(bool(sul.step(w[-1])) == bool(ref(w)), 'not exactly the balanced strings')
            env.check(bool(is_balanced(list(w), dict(pairs), empty)) == bool(ref(w)), 'is_balanced')
            env.cover('balanced' if ref(w) else 'unbalanced')
        sul.post()


def numerals(values):
    """stand-in for int(): the given numerals denote the given (symbolic) numbers"""
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (int, SymInt))

    class Int(int, metaclass=Meta):
        def __new__(cls, x=0, *args):
            v = values.get(x.strip()) if isinstance(x, str) else x
            return int(x, *args) if v is None else v
    return Int


def h_date(env, kind):
    """dates of the Gregorian calendar without leap years; day, month and year are any integers"""
    from aalpy.utils import BenchmarkSULs
    v = BenchmarkSULs.DateValidator()
    if kind == 'date':
        d, m, y = [env.int(k, -1, hi) for k, hi in (('d', 40), ('m', 20), ('y', 10100))]
        want = And(1 <= m, m <= 12, 1 <= d, d <= 31, 0 <= y, y <= 9999,
                   Implies(Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11)), d <= 30), Implies(Eq(m, 2), d <= 28))
        if env.symbolic:
            text, table = '71/72/7003', {'71': d, '72': m, '7003': y}
        else:
            text, table = f'{d}/{m}/{y}', {}
        with patched((BenchmarkSULs, 'int', numerals(table))):
            got = bool(v.is_date_accepted(text))
        env.check(Iff(got, want), 'verdict on a date')
        env.cover('valid' if got else 'invalid')
    else:
        s = ''.join(env.choose(['1', '/', 'a', ''], f'c{i}') for i in range(5))
        parts = s.split('/')
        want = len(parts) == 3 and all(p.isdigit() for p in parts) and int(parts[0]) <= 28 and int(parts[1]) <= 12
        env.check(bool(v.is_date_accepted(s)) is want, f'string {s!r}')
        env.cover('string')


class Mqtt:
    """session with subscriptions, from the description of the answers"""

    def __init__(self):
        self.open, self.topics = False, []

    def step(self, f, arg):
        bad = arg is not None and ('\n' in arg or '\0' in arg)
        if f == 'connect':
            self.open = not self.open
            self.topics = []
            return 'CONNACK' if self.open else 'CONCLOSED'
        if f == 'disconnect' or bad or not self.open:
            self.open, self.topics = False, []
            return 'CONCLOSED'
        if f == 'subscribe':
            self.topics.append(arg)
            return 'SUBACK'
        if f == 'unsubscribe':
            self.topics = [t for t in self.topics if t != arg]
            return 'UNSUBACK'
        return 'PUBACK_PUBACK' if arg in self.topics else 'PUBACK'


def h_mqtt(env, L):
    from aalpy.utils.BenchmarkSULs import MockMqttExample
    m, ref = MockMqttExample(), Mqtt()
    for k in range(L):
        f = env.choose(['connect', 'disconnect', 'subscribe', 'unsubscribe', 'publish'], f'f{k}')
        if f in ('connect', 'disconnect'):
            got, want = getattr(m, f)(), ref.step(f, None)
        else:
            arg = env.choose(['t', 'u', 'x\n', '\0'] if k < 2 else ['t', 'u', 'x\n'], f'a{k}')
            got, want = getattr(m, f)(arg), ref.step(f, arg)
        env.check(got == want, f'answer to {f}')
        env.cover(want)


def h_session(env, L):
    """Longer runs with one topic: sessions that end and start again."""
    from aalpy.utils.BenchmarkSULs import MockMqttExample
    m, ref, seen = MockMqttExample(), Mqtt(), 0
    for k in range(L):
        f, arg = env.choose([('connect', None), ('disconnect', None), ('subscribe', 't'), ('unsubscribe', 't'), ('publish', 't'), ('subscribe', 'x\n')], f'f{k}')
        got = getattr(m, f)() if arg is None else getattr(m, f)(arg)
        want = ref.step(f, arg)
        env.check(got == want, f'answer to {f}')
        env.cover(want)
        seen += want == 'CONNACK'
    if seen > 1:
        env.cover('again')


def configs(tier):
    out = []
    T = tier == 'thorough'
    for name, (A, _) in VPA.items():
        L = {2: 9, 4: 7, 5: 5, 6: 6, 7: 4, 8: 5}[len(A)]
        if name in ('vpa_for_L3', 'sevpa_for_L3'):
            L = 8
        if name == 'vpa_json':
            L = 9
        if name == 'sevpa_for_L5':
            L = 12
        out.append(Config(name, h_vpa, dict(name=name, L=L + (1 if T else 0)), covers=['accepted', 'dead']))
    out.append(Config('even', h_even, dict(L=9 + T), covers=['accepted']))
    out.append(Config('angluin', h_angluin, dict(L=7 + 2 * T), covers=['words']))
    for name in MODELS:
        out.append(Config(name, h_model, dict(name=name, L=3 + T), covers=['walk']))
    out.append(Config('coffee', h_coffee, dict(L=5 + T), covers=['words']))
    for empty in (False, True):
        out.append(Config(f'balanced-{empty}', h_balanced, dict(pairs=['()', '[]'], empty=empty, L=5 + T), covers=['balanced', 'unbalanced']))
    out.append(Config('date', h_date, dict(kind='date'), covers=['valid', 'invalid']))
    out.append(Config('date-string', h_date, dict(kind='string'), covers=['string']))
    out.append(Config('mqtt-session', h_session, dict(L=5 + T), covers=['PUBACK_PUBACK', 'again']))
    out.append(Config('mqtt', h_mqtt, dict(L=4 + T), covers=['CONNACK', 'SUBACK', 'PUBACK_PUBACK', 'UNSUBACK', 'PUBACK', 'CONCLOSED']))
    return out
