"""The same harness over another input alphabet.

The letters 'a', 'b', ... in the source of a check (list, tuple, set and dictionary displays, comparisons, defaults) are
replaced by 0, 1, ...: symbols that are falsy, equal to False or True, and not strings.
"""
import ast
import importlib.util
import sys

NUM = {c: i for i, c in enumerate('abcd')}


class Swap(ast.NodeTransformer):
    def visit_Call(self, n):
        f = n.func
        # names of symbols, names of configurations and texts stay
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'env':
            keep = {id(a) for a in n.args if isinstance(a, ast.Constant)}
            n.args = [a if id(a) in keep else self.visit(a) for a in n.args]
            n.keywords = [self.visit(k) for k in n.keywords]
            return n
        return self.generic_visit(n)

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str) and n.value in NUM:
            return ast.copy_location(ast.Constant(NUM[n.value]), n)
        return n


def variant(check):
    """the module of a check with the letters replaced"""
    name = check.__name__ + '_num'
    if name in sys.modules:
        return sys.modules[name]
    with open(check.__file__) as f:
        tree = ast.fix_missing_locations(Swap().visit(ast.parse(f.read())))
    m = type(sys)(name)
    m.__file__ = check.__file__
    m.__package__ = 'checks'
    sys.modules[name] = m
    exec(compile(tree, check.__file__, 'exec'), m.__dict__)
    return m
