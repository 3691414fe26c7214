"""Make the working tree of /repo importable, make object hashing deterministic."""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
# optional hand-over of symbolic values is never needed: the code under test is unmodified
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
for p in ('/opt/venv/lib/python3.12/site-packages',):
    if p not in sys.path:
        sys.path.append(p)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

_loaded = False
AALPY_MODULES = {}


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    import importlib
    import pkgutil
    import aalpy
    assert aalpy.__file__.startswith(REPO + '/'), aalpy.__file__
    AALPY_MODULES['aalpy'] = aalpy
    for m in pkgutil.walk_packages(aalpy.__path__, 'aalpy.'):
        try:
            AALPY_MODULES[m.name] = importlib.import_module(m.name)
        except Exception as e:      # a module that needs something not installed
            print('note: cannot import', m.name, e, file=sys.stderr)
    from . import sym

    def det_hash(self):
        env = sym.ENV
        if env is None:
            return object.__hash__(self)
        ids = env.__dict__.setdefault('hash_ids', {})
        k = id(self)
        r = ids.get(k)
        if r is None:
            r = ids[k] = len(ids) + 1
            env.keep.append(self)
        return r

    done = set()
    for mod in AALPY_MODULES.values():
        for c in list(vars(mod).values()):
            if isinstance(c, type) and c.__module__.startswith('aalpy') and c not in done:
                done.add(c)
                if c.__hash__ is object.__hash__ and not issubclass(c, BaseException):
                    try:
                        c.__hash__ = det_hash
                    except TypeError:
                        pass


_state = None


def reset_state():
    """every path starts from the state of freshly imported modules (class counters, module level tables)"""
    global _state
    import copy
    simple = (int, float, str, bool, type(None))

    def plain(v, d=0):
        if isinstance(v, simple):
            return True
        if d < 4 and isinstance(v, (list, set, tuple)):
            return all(plain(x, d + 1) for x in v)
        if d < 4 and isinstance(v, dict):
            return all(plain(x, d + 1) and plain(y, d + 1) for x, y in v.items())
        return False

    if _state is None:
        _state = []
        seen = set()
        for mod in AALPY_MODULES.values():
            owners = [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__.startswith('aalpy')]
            for o in owners:
                if id(o) in seen:
                    continue
                seen.add(id(o))
                for k, v in list(vars(o).items()):
                    if k.startswith('__') or isinstance(v, (bool, str, type(None))):
                        continue
                    if plain(v):
                        _state.append((o, k, v, copy.deepcopy(v) if isinstance(v, (list, dict, set)) else v))
        return
    for o, k, obj, v in _state:
        if isinstance(obj, (list, dict, set)):
            if obj != v:
                obj.clear()
                obj.extend(copy.deepcopy(v)) if isinstance(obj, list) else obj.update(copy.deepcopy(v))
            if vars(o).get(k) is not obj:
                setattr(o, k, obj)
        elif vars(o).get(k) is not v:
            setattr(o, k, v)
