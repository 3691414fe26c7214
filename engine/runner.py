"""Explores harnesses over all paths with several worker processes, reports, replays."""
import argparse
import contextlib
import io
import json
import multiprocessing as mp
from multiprocessing.connection import wait
import os
import signal
import sys
import time
import traceback
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Config:
    """one harness instance: fn(env, **params) plus bounds and expected reachability labels"""

    def __init__(self, name, fn, params=None, covers=(), path_timeout=20, max_decisions=4000, expect_exc=()):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.covers = set(covers)
        self.path_timeout = path_timeout
        self.max_decisions = max_decisions


class Stats:
    FIELDS = ('paths', 'cut', 'decisions', 'forks', 'queries', 'obligations', 'checks', 'solver_s', 'replayed', 'inconclusive')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))


def _alarm(signum, frame):
    from . import sym
    raise sym.PathTimeout('wall clock')


class Silencer:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def run_concrete(cfg, inputs, timeout=30):
    """run a harness on concrete inputs; returns (failed, message)"""
    from . import sym
    from .bootstrap import reset_state
    reset_state()
    env = sym.ConcreteEnv(inputs)
    sym.set_env(env)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        cfg.fn(env, **cfg.params)
    except sym.CexFound:
        return True, env.failures[-1]
    except sym.PathAbort:
        return False, 'inputs outside the assumptions'
    except sym.PathTimeout:
        return True, 'does not terminate (wall clock)'
    except (Exception, SystemExit) as e:
        return True, f'unexpected {type(e).__name__}: {str(e)[:200]} at {_where(e)}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sym.set_env(None)
    return False, 'ok'


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/aalpy/' in f.filename:
            return f'{os.path.basename(f.filename)}:{f.name}'
    return f'{os.path.basename(tb[-1].filename)}:{tb[-1].name}' if tb else '?'


class Explorer:
    """lives in a worker process"""

    def __init__(self, configs):
        self.configs = configs
        self.funcs = set()
        self.new_funcs = set()
        self._monitor()

    def _monitor(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        tid = 4
        try:
            mon.use_tool_id(tid, 'verif')
        except ValueError:
            return
        marker = '/aalpy/'

        def start(code, off):
            fn = code.co_filename
            i = fn.rfind(marker)
            if i >= 0:
                q = fn[i + len(marker):] + ':' + code.co_qualname
                if q not in self.funcs:
                    self.funcs.add(q)
                    self.new_funcs.add(q)
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, start)
        mon.set_events(tid, mon.events.PY_START)

    def explore(self, ci, stack, slice_s, budget_paths=10 ** 9):
        keep_going = os.environ.get('VERIF_ALL')
        from . import sym
        from .bootstrap import reset_state
        cfg = self.configs[ci]
        st = Stats()
        covers = {}
        notes = set()
        cexs = []
        errors = []
        samples = []
        spurious = {}
        sh = sym.Shared(max_decisions=cfg.max_decisions)
        t_end = time.monotonic() + slice_s
        first = True
        while stack and (first or time.monotonic() < t_end) and st.paths < budget_paths:
            first = False
            prefix = stack.pop()
            reset_state()
            env = sym.SymEnv(prefix, sh)
            sym.set_env(env)
            sh.solver.push()
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, cfg.path_timeout)
            status = 'ok'
            try:
                cfg.fn(env, **cfg.params)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except sym.PathAbort:
                status = 'cut'
            except sym.CexFound:
                status = 'cex'
            except sym.Inconclusive as e:
                status = 'unknown'
                st.inconclusive += 1
                spurious.setdefault(f'solver unknown: {e}', {})
            except sym.PathTimeout as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                status = 'timeout'
                try:
                    env.feasible_inputs(f'does not terminate within the bound ({e})')
                except sym.Inconclusive as e2:
                    st.inconclusive += 1
                    spurious.setdefault(f'solver unknown: {e2}', {})
            except (Exception, SystemExit) as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                status = 'exc'
                try:
                    env.feasible_inputs(f'unexpected {type(e).__name__}: {str(e)[:300]} at {_where(e)}')
                    if os.environ.get('VERIF_TB'):
                        env.cexs[-1]['tb'] = traceback.format_exc()
                except sym.Inconclusive as e2:
                    st.inconclusive += 1
                    spurious.setdefault(f'solver unknown: {e2}', {})
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            # a failure must reproduce on the real code without symbolic values, otherwise the path is inconclusive
            if env.cexs:
                keep = []
                for c in env.cexs:
                    bad, msg = run_concrete(cfg, c['inputs'], cfg.path_timeout * 2)
                    if bad:
                        c['concrete'] = msg
                        keep.append(c)
                    else:
                        st.inconclusive += 1
                        spurious.setdefault(c['msg'][:300] + ' / ' + msg, c)
                        status = 'spurious'
                env.cexs = keep
            # sample some passing paths: the model of the path is run concretely on the real code
            if status == 'ok' and (st.paths < 1 or st.paths % 97 == 96):
                try:
                    env.cexs = []
                    env.feasible_inputs('sample')
                    if env.cexs:
                        inp = env.cexs.pop()['inputs']
                        bad, msg = run_concrete(cfg, inp, cfg.path_timeout)
                        st.replayed += 1
                        if bad and any(k == 'real' for _, k in env.vars.values()):
                            # solver reals against floats: not a verdict
                            spurious.setdefault(f'float replay: {msg}', {'inputs': inp})
                            st.inconclusive += 1
                        elif bad:
                            env.cexs.append({'msg': f'concrete run of a path model: {msg}', 'inputs': inp,
                                             'concrete': msg})
                        if len(samples) < 1:
                            samples.append({'config': cfg.name, 'path_len': len(env.trace),
                                            'inputs': {k: inp[k] for k in list(inp)[:40]}})
                except sym.Inconclusive:
                    pass
            sym.set_env(None)
            sh.solver.pop()
            stack.extend(env.pending)
            st.paths += 1
            if status == 'cut':
                st.cut += 1
            st.decisions += max(0, len(env.trace) - len(prefix))
            st.forks += len(env.pending)
            st.checks += env.checks
            for c in env.covers:
                covers[c] = covers.get(c, 0) + 1
            notes |= env.notes
            for c in env.cexs:
                c['config'] = cfg.name
                cexs.append(c)
            if (cexs and not keep_going) or errors or len(cexs) > 50:
                break
        st.queries, st.solver_s, st.obligations = sh.queries, sh.solver_s, sh.obligations
        nf, self.new_funcs = self.new_funcs, set()
        return dict(ci=ci, left=stack, stats=st, covers=covers, cexs=cexs, errors=errors, notes=notes,
                    funcs=nf, samples=samples, spurious=spurious)


def _worker(conn, configs):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = Silencer()
    if not os.environ.get('VERIF_DEBUG'):
        sys.stderr = Silencer()
    ex = Explorer(configs)
    import gc
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        if msg[0] == 'explore':
            _, ci, stack, slice_s = msg
            try:
                r = ex.explore(ci, stack, slice_s)
            except BaseException as e:
                r = dict(ci=ci, left=[], stats=Stats(), covers={}, cexs=[],
                         errors=[f'engine: {type(e).__name__} {e} {traceback.format_exc()[-1500:]}'],
                         notes=set(), funcs=set(), samples=[], spurious={})
            conn.send(r)


def explore_all(configs, jobs, budget_s, verbose=False, on_cex=None):
    ctx = mp.get_context('fork')
    workers = []
    for _ in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, configs), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    t0 = time.monotonic()
    n = len(configs)
    queue = [[ci, [[]]] for ci in range(n)]   # pending work items
    per = [Stats() for _ in range(n)]
    covers = [dict() for _ in range(n)]
    outstanding = [0] * n
    done_t = [None] * n
    cexs, errors, notes, funcs, samples = [], [], set(), set(), []
    idle = list(workers)
    busy = []
    stop = False
    spurious = {}
    exhausted = True
    sampled = set()
    while True:
        now = time.monotonic() - t0
        if now > budget_s and not stop:
            stop = True
            exhausted = exhausted and not queue and not busy
        if now > budget_s + 90 and busy:
            # a call into native code that cannot be interrupted: its paths stay undecided
            for w in busy:
                w[0].kill()
                spurious.setdefault(f'{configs[w[2]].name}: a worker did not answer', {})
            exhausted = False
            break
        while idle and queue and not stop:
            w = idle.pop()
            ci, stack = queue.pop(0)
            # split when there are idle workers
            if len(stack) > 1 and len(queue) < len(idle) + 1:
                parts = min(len(stack), len(idle) + 1 - len(queue) + 1)
                chunks = [stack[i::parts] for i in range(parts)]
                stack = chunks[0]
                for c in chunks[1:]:
                    if c:
                        queue.append([ci, c])
            young = per[ci].paths < 200
            w[1].send(('explore', ci, stack, 0.15 if young else 1.0))
            w[2] = ci
            busy.append(w)
        if not busy:
            break
        for conn in wait([w[1] for w in busy], timeout=1.0):
            w = next(x for x in busy if x[1] is conn)
            try:
                r = conn.recv()
            except EOFError:
                busy.remove(w)
                errors.append(f'worker died in {configs[w[2]].name}')
                stop = True
                continue
            busy.remove(w)
            idle.append(w)
            ci = r['ci']
            per[ci].add(r['stats'])
            for k, v in r['covers'].items():
                covers[ci][k] = covers[ci].get(k, 0) + v
            notes |= r['notes']
            funcs |= r['funcs']
            if ci not in sampled and r['samples']:
                sampled.add(ci)
                samples += r['samples']
            for k, c in r['spurious'].items():
                spurious.setdefault(f'{configs[ci].name}: {k}', c)
            errors += [f'{configs[ci].name}: {e}' for e in r['errors']]
            if r['errors']:
                stop = True
            for c in r['cexs']:
                cexs.append(c)
                if on_cex is None or on_cex(c):
                    stop = True
            if r['left']:
                queue.append([ci, r['left']])
            done_t[ci] = time.monotonic() - t0
            if verbose and (per[ci].paths % 1000) < 50:
                print(f'  {now:6.1f}s {configs[ci].name} paths={per[ci].paths} left~{sum(len(q[1]) for q in queue)}',
                      flush=True)
    if queue:
        exhausted = False
    frontier = {}
    for ci, s in queue:
        frontier[configs[ci].name] = frontier.get(configs[ci].name, 0) + len(s)
    for w in workers:
        try:
            w[1].send(None)
        except OSError:
            pass
    for w in workers:
        w[0].join(2)
        if w[0].is_alive():
            w[0].kill()
    return dict(per=per, covers=covers, cexs=cexs, errors=errors, notes=notes, funcs=funcs,
                samples=samples, exhausted=exhausted and not stop, frontier=frontier, done_t=done_t,
                wall=time.monotonic() - t0, spurious=spurious)


def load_known():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def match_known(known, prop, cex):
    import re
    for k in known:
        if k.get('kind') != 'known' or k['property'] != prop:
            continue
        if re.fullmatch(k['config'], cex['config']) and re.search(k['msg'], cex['msg']):
            if all(cex['inputs'].get(n) == v for n, v in k.get('inputs', {}).items()):
                return k
    return None


def replay_subprocess(check, prop, tier, cex, timeout):
    """re-run the counterexample in a fresh interpreter on the real code"""
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', 'replay', f"{prop}.json")
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, **cex}, f, indent=1, sort_keys=True, default=str)
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), prop, '--replay', path],
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, 'replay does not terminate', path
    out = (r.stdout or '').strip().splitlines()
    return r.returncode == 1, (out[-1] if out else r.stderr[-500:]), path


def config_list(check, tier):
    """the configurations of a check, and those named in its ZERO once more with the letters 0, 1, ... (suffix @0)"""
    out = list(check.configs(tier))
    zero = getattr(check, 'ZERO', ())
    if zero:
        from . import letters
        names = {c.name for c in out}
        for c in letters.variant(check).configs(tier):
            if c.name in zero:
                c.name += '@0'
                out.append(c)
        if tier == 'quick' and set(zero) - names:
            raise ValueError(f'no configurations {sorted(set(zero) - names)}')
    return out


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first counterexample (development)')
    args = ap.parse_args(sys.argv[2:])
    prop = check.PROPERTY
    if args.replay:
        rec = json.load(open(args.replay))
        for tier in ('quick', 'thorough'):
            for cfg in config_list(check, tier):
                if cfg.name == rec['config']:
                    so = sys.stdout
                    sys.stdout = Silencer()
                    try:
                        bad, msg = run_concrete(cfg, rec['inputs'], 60)
                    finally:
                        sys.stdout = so
                    print(f"replay {prop} {cfg.name}: {'FAILS' if bad else 'passes'}: {msg}")
                    return 1 if bad else 0
        print('replay: no such configuration')
        return 2
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    configs = [c for c in config_list(check, tier) if not args.only or args.only in c.name]
    budget = args.budget or (getattr(check, 'QUICK_BUDGET', 240) if tier == 'quick'
                             else getattr(check, 'THOROUGH_BUDGET', 3600))
    t0 = time.monotonic()
    if args.all:
        os.environ['VERIF_ALL'] = '1'
    known = load_known()
    seen_known = {}

    def on_cex(c):
        k = match_known(known, prop, c)
        if k:
            seen_known[k['id']] = k
            return False
        return not args.all
    res = explore_all(configs, args.jobs, budget, args.v, on_cex)
    rc = 0
    lines = []
    violations = 0
    for k in seen_known.values():
        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    new = [c for c in res['cexs'] if not match_known(known, prop, c)]
    if args.all:
        import collections
        import re
        cnt = collections.Counter((c['config'], re.sub(r'0x[0-9a-f]+|<[^>]*>', '<>', c['msg'])) for c in new)
        for (c, msg), k in sorted(cnt.items()):
            print(f'   {k:5d} x {c}: {msg}')
    reproduced = None
    for c in new[:8]:
        ok, msg, path = replay_subprocess(check, prop, tier, c, 120)
        if ok:
            reproduced = (c, msg, path)
            break
        else:
            lines.append(f"ENGINE-ERROR: counterexample of {c['config']} does not reproduce: {c['msg']} / {msg}")
            if c.get('tb'):
                lines.append(c['tb'])
    if reproduced:
        c, msg, path = reproduced
        violations = 1
        lines = [l for l in lines if not l.startswith('ENGINE-ERROR')]
        lines.append(f"counterexample: config={c['config']} {c['msg']}")
        lines.append(f"replayed on the real code: {msg}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif new:
        rc = 3
    if not reproduced and res['errors']:
        for e in res['errors'][:3]:
            lines.append('ERROR: ' + e)
        rc = 3
    vacuous = []
    if rc == 0:
        for i, cfg in enumerate(configs):
            miss = cfg.covers - set(res['covers'][i])
            if miss and cfg.name not in res['frontier'] and res['per'][i].paths:
                vacuous.append(f'VACUOUS: {cfg.name} never reached {sorted(miss)}')
        lines += vacuous
        # a few situations that the code under test never gets into are reported; many mean that nothing was decided
        if vacuous and (os.environ.get('VERIF_STRICT') or 5 * len(vacuous) > sum(1 for c in configs if c.covers)):
            rc = 4
    tot = Stats()
    for p in res['per']:
        tot.add(p)
    for k in list(res['spurious'])[:5]:
        lines.append(f'INCONCLUSIVE (does not reproduce without symbolic values): {k}')
    if rc == 0 and tot.inconclusive * 2 > tot.paths:
        rc = 3
    cov = {
        'explanation': (
            'Bounded symbolic execution of the real functions: every feasible path of each harness within its '
            'stated bounds is executed on solver terms; feasibility of each branch and every assertion is decided '
            'by z3 (an assertion is discharged when path-condition and negated assertion is unsat, so it holds for '
            'all inputs following the path).'),
        'exhaustive': bool(res['exhausted']),
        'configs': [
            {'name': c.name, 'bounds': {k: (v if isinstance(v, (int, str, bool, float, type(None))) else str(v)[:200])
                                        for k, v in c.params.items()},
             'paths': p.paths, 'paths_cut_by_assumption': p.cut, 'forks': p.forks, 'decisions': p.decisions,
             'solver_queries': p.queries, 'assertions_discharged': p.obligations,
             'solver_s': round(p.solver_s, 2), 'reached': cv,
             'unexplored_frontier': res['frontier'].get(c.name, 0)}
            for c, p, cv in zip(configs, res['per'], res['covers'])],
        'paths': tot.paths, 'decisions': tot.decisions, 'solver_queries': tot.queries,
        'assertions_discharged': tot.obligations, 'solver_s': round(tot.solver_s, 2),
        'inconclusive': tot.inconclusive, 'inconclusive_samples': sorted(res['spurious'])[:10],
        'path_models_replayed_on_real_code': tot.replayed,
        'functions_encoded': sorted(res['funcs']),
        'samples': res['samples'][:5],
        'notes': sorted(res['notes']) + vacuous,
        'outside_the_bounds': getattr(check, 'OUTSIDE', 'anything larger than the bounds listed per configuration'),
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': list(getattr(check, 'ASSUMPTIONS', [])),
          'wall_s': round(time.monotonic() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not args.only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] configs={len(configs)} paths={tot.paths} decisions={tot.decisions} queries={tot.queries} "
          f"assertions={tot.obligations} solver={tot.solver_s:.1f}s replays={tot.replayed} "
          f"exhausted={res['exhausted']} funcs={len(res['funcs'])} wall={time.monotonic()-t0:.1f}s")
    if args.v:
        for c, p, cv, d in zip(configs, res['per'], res['covers'], res['done_t']):
            print(f'   {c.name}: paths={p.paths} cut={p.cut} obl={p.obligations} q={p.queries} solver={p.solver_s:.1f}s '
                  f'covers={cv} done={d and round(d,1)} left={res["frontier"].get(c.name, 0)}')
    for l in lines:
        print(l)
    return rc
