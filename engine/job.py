"""One job = one harness on one case: explore symbolically, discharge every obligation."""
import random
import re
import sys
import time
import traceback

import numpy as np

from . import sym as S
from . import solve
from .sym import N, B, SymError
from .explore import explore, PathLimit, Abort
from .harness import SymEnv, Stop

_MARK = '/OpenNTN/'


def profiled(fn, seen):
    """runs fn, recording which functions of the code under check are executed"""
    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            f = c.co_filename
            i = f.find(_MARK)
            if i >= 0:
                seen.add(f[i + 1:] + ':' + c.co_qualname)
    sys.setprofile(prof)
    try:
        return fn()
    finally:
        sys.setprofile(None)


class Interface(Exception):
    """a private function the harness enters through is gone or has another signature"""


def interface(e, tb):
    if not tb or '/props/' not in tb[-1].filename:
        return False
    m = str(e)
    if isinstance(e, AttributeError):
        return re.search(r"has no attribute '_[a-z]", m) is not None
    return isinstance(e, TypeError) and re.search(r'\b_?[a-z]\w*\(\) (missing|takes|got)', m) is not None


def run_job(fn, case, tier, seed, budget, known=()):
    t0 = time.time()
    deadline = t0 + budget
    from .loader import SymLoader
    loader = SymLoader()
    from . import loader as Lm
    seen = set()
    st = {}
    first = [True]

    def one(chooser, cur):
        env = SymEnv(case, chooser, cur, loader, tier)
        loader._config().precision = case.get('config_precision', 'single')
        exc = None
        try:
            if first[0]:
                profiled(lambda: fn(env, **case.get('args', {})), seen)
            else:
                fn(env, **case.get('args', {}))
        except Stop:
            pass
        except SymError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{x.filename.split(_MARK)[-1]}:{x.lineno}" for x in tb if _MARK in x.filename]
            exc = f"{type(e).__name__}: {str(e)[:200]} at {where[-2:]}"
            if not where:
                if interface(e, tb):
                    raise Interface(f'{type(e).__name__}: {str(e)[:160]} at {tb[-1].filename.split("/")[-1]}:{tb[-1].lineno}')
                raise
        first[0] = False
        env.permlog = list(env.F.PERM['log'])
        return env, exc, list(cur)

    res = {'obligations': 0, 'holds': 0, 'how': {}, 'cex': [], 'undecided': [], 'error': None, 'functions': [], 'paths': 0,
           'samples': [], 'validation': None, 'reach': 0}
    try:
        paths = explore(one, max_paths=case.get('max_paths', 3000), deadline=deadline, stats=st)
    except (SymError, PathLimit, Interface) as e:
        res['unexplored'] = f'{type(e).__name__}: {e}'
        if isinstance(e, SymError):
            res['unexplored'] += ' | ' + ' <- '.join(f"{x.filename.split('/')[-1]}:{x.lineno}" for x in traceback.extract_tb(e.__traceback__)[-6:])
        res['wall'] = time.time() - t0
        res['functions'] = sorted(seen)
        res['stats'] = dict(solve.STATS)
        return res
    res['explore_s'] = time.time() - t0
    res['paths'] = len(paths)
    vac = 0
    prepared = []
    for pc, (env, exc, assumed) in paths:
        prepared.append((pc, env, exc, assumed))
    # ---- obligations
    proven = {}
    rng = random.Random(seed)
    for pc, env, exc, assumed in prepared:
        base = pc + assumed
        # reachability twin: the end of the path must be reachable
        if True:
            w = witness(base, env, seed)
            if w is None:
                vac += 1
            else:
                res['reach'] += 1
                env.witness = w
        if exc is not None:
            m = getattr(env, 'witness', None)
            if m is not None:
                res['obligations'] += 1
                res['cex'].append({'label': 'unexpected exception: ' + exc, 'model': fill(m, env), 'how': 'path'})
            continue
        stop = False
        easy = []
        for label, got, want, tol, kind, na in env.records:
            res['obligations'] += 1
            if kind == 'bool':
                goal, diff, margin = got, None, None
            else:
                diff = S._norm(got) - S._norm(want)
                if not isinstance(diff, N):
                    d, w = float(diff), want
                    if not isinstance(want, N):
                        nanok = d != d and same_special(got, want)
                        goal = S.TRUE if nanok or abs(d) <= tol * (1 + abs(float(want))) else S.FALSE
                    else:
                        goal = S.TRUE if d == 0 or abs(d) <= tol else S.le(abs(d), S.abs1(want) * tol + tol)
                    margin = None
                else:
                    bound = S.abs1(want) * tol + tol if isinstance(want, N) else tol * (1 + abs(float(want)))
                    goal = S.le(S.abs1(diff), bound)
                    margin = S.abs1(diff) - bound
                    if not isinstance(margin, N):
                        margin = None
            if goal is S.TRUE:
                res['holds'] += 1
                res['how']['structural'] = res['how'].get('structural', 0) + 1
                if isinstance(got, (N, B)) or isinstance(want, (N, B)):
                    easy.append((kind, got, want, tol))
                continue
            key = (goal.id, tuple(sorted(b.id for b in base)))
            if key in proven:
                r = proven[key]
            else:
                if time.time() > deadline:
                    r = solve.Result('unknown', how='job budget')
                else:
                    r = solve.prove(goal, base, timeout_ms=case.get('timeout_ms', 4000), margin=margin,
                                    deadline=min(deadline, time.time() + case.get('ob_budget', 60)), diff=diff if isinstance(diff, N) else None,
                                    split_depth=case.get('split_depth', 10))
                proven[key] = r
            if r.verdict == 'holds':
                res['holds'] += 1
                h = r.how or 'z3'
                res['how'][h] = res['how'].get(h, 0) + 1
                if len(res['samples']) < 3 and h != 'structural':
                    res['samples'].append({'obligation': label, 'discharged_by': h, 'path_conditions': len(base)})
            elif r.verdict == 'cex':
                m = dict(r.model)
                m = complete(m, base, goal, env, seed)
                m.update(perm_model(env, m))
                res['cex'].append({'label': label, 'model': m, 'how': r.how})
                if len(res['cex']) >= case.get('max_cex', 8):
                    stop = True
                    break
            else:
                res['undecided'].append({'label': label, 'how': r.how})
        if stop:
            break
        solve.confirm(easy, base, deadline)
    res['vacuous_paths'] = vac
    if prepared and not res['reach'] and not res['cex']:
        res['error'] = 'vacuous: no path of the harness is reachable'
    # ---- data for comparing the encoding with the real code
    try:
        res['validation'] = validation(prepared, seed)
    except Exception as e:
        res['validation_error'] = repr(e)[:300]
    res['functions'] = sorted(seen)
    res['stats'] = dict(solve.STATS)
    res['explore'] = st
    res['wall'] = time.time() - t0
    return res


def same_special(a, b):
    try:
        a, b = float(a), float(b)
    except Exception:
        return False
    return a == b or (a != a and b != b)


def perm_model(env, model=None):
    """values for the draws whose order was fixed (or is given by the Boolean matrix of the model)"""
    out = {}
    for names, p in getattr(env, 'permlog', []):
        if p is None:
            desc = names[-1] == 'desc'
            draws = [n for n in names if n != 'desc']
            tag = f"pm_{names[0]}{'d' if desc else ''}"
            p = [next((i for i in range(len(draws)) if (model or {}).get(f'{tag}_{k}_{i}')), None) for k in range(len(draws))]
            if len(set(p)) < len(p) or None in p:
                continue
            names, p = draws, p[::-1] if desc else p
        for rank, idx in enumerate(p):
            out[names[idx]] = -1.0 + 2.0 * rank / max(1, len(p))
    return out


def witness(base, env, seed):
    m = solve.falsify(S.FALSE, base, n=3000, seed=seed, rounds=1)
    if m is not None:
        return m
    r, e = solve.solve(base, 3000)
    if r == 'unsat':
        return None
    m = solve.falsify(S.FALSE, base, [e] if e else [], n=6000, seed=seed + 1, rounds=2)
    return m if m is not None else (e if r == 'sat' and e is not None else None)


def fill(m, env):
    return dict(m)


def complete(m, base, goal, env, seed):
    """values for the variables the obligation does not mention but the path does"""
    vs = {v.args[0] for v in S.variables(base)} - set(m)
    if not vs:
        return m
    sub = {}
    for v in S.variables(base):
        n = v.args[0]
        if n in m:
            sub[v.id] = (S.TRUE if m[n] else S.FALSE) if v.op == 'bv' else float(m[n])
    rest = [S.rebuild(b, sub) for b in base]
    rest = [b for b in rest if b is not S.TRUE]
    if any(b is S.FALSE for b in rest):
        return m
    w = witness(rest, env, seed)
    if w:
        m = dict(w, **m)
    return m


def validation(prepared, seed):
    """one random assignment on a feasible path, with the values the encoding predicts"""
    cands = [p for p in prepared if p[2] is None and getattr(p[1], 'witness', None) is not None and p[1].records]
    if not cands:
        return None
    pc, env, exc, assumed = cands[seed % len(cands)]
    base = pc + assumed
    model = dict(env.witness)
    rng = np.random.default_rng(seed + 5)
    recs = [(l, env.full.get(l, g), w, k) for (l, g, w, t, k, na) in env.records]
    if len(recs) > 600:
        idx = sorted(rng.choice(len(recs), 600, replace=False))
        recs = [recs[i] for i in idx]
    roots = [g for _, g, _, k in recs if isinstance(g, (N, B))]
    for v in S.variables(base + roots):
        n = v.args[0]
        if n not in model:
            model[n] = bool(rng.random() < 0.5) if v.op == 'bv' else float(solve.default_sample(v, 1, rng)[0])
    for name, kind, lo, hi, isint in env.drawlog:
        if name not in model:
            model[name] = float(rng.integers(int(lo), int(hi) + 1)) if isint else float(rng.normal() if kind == 'normal' else rng.uniform(lo, hi))
    pm = perm_model(env, model)
    model.update(pm)
    vals = solve.evaluate([g for _, g, _, _ in recs], model)
    out = []
    for (l, g, w, k), v in zip(recs, vals):
        try:
            out.append((l, bool(v) if k == 'bool' else float(v)))
        except Exception:
            pass
    # the assignment must satisfy the path
    ok = all(bool(x) for x in solve.evaluate(base, model)) if base else True
    return {'model': model, 'values': out, 'ok': bool(ok)}
