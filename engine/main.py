"""Decides one property: runs its harness jobs in parallel, replays counterexamples on the
real code, validates the encoding against the real code, writes the evidence."""
import importlib
import json
import math
import multiprocessing as mp
import os
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Real:
    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg',
                   TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1', OMP_NUM_THREADS='1')
        self.p = subprocess.Popen([PY, '-B', '-m', 'engine.realrun'], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE if not os.environ.get('VERIF_DEBUG') else None, text=True, bufsize=1)
        if self.p.stderr:
            import threading
            self.err = []
            threading.Thread(target=lambda: [self.err.append(l) or (len(self.err) > 200 and self.err.pop(0)) for l in self.p.stderr], daemon=True).start()
        self.ready = False

    def ask(self, q, timeout=300):
        if not self.ready:
            l = self._line(240)
            if l.strip() != 'ready':
                raise RuntimeError('real runner did not start: ' + l + ''.join(getattr(self, 'err', [])[-5:]))
            self.ready = True
        self.p.stdin.write(json.dumps(q) + '\n')
        self.p.stdin.flush()
        return json.loads(self._line(timeout))

    def _line(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            raise RuntimeError('real runner timed out')
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError('real runner ended: ' + ''.join(getattr(self, 'err', [])[-8:]))
        return l

    def close(self):
        try:
            self.p.stdin.close()
            self.p.terminate()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def _worker(prop, hname, case, tier, seed, budget, conn):
    try:
        sys.setrecursionlimit(200000)
        import threading
        threading.stack_size(512 * 1024 * 1024)
        box = {}

        def go():
            try:
                from engine import job
                M = importlib.import_module('props.' + prop)
                box['r'] = job.run_job(M.HARNESSES[hname]['fn'], case, tier, seed, budget)
            except BaseException as e:
                box['r'] = {'error': 'internal: ' + traceback.format_exc()[-1500:]}
        t = threading.Thread(target=go)
        t.start()
        t.join()
        conn.send(box['r'])
    except BaseException as e:
        conn.send({'error': 'internal: ' + repr(e)})
    conn.close()


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def main(prop, tier, seed):
    t0 = time.time()
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.path.insert(0, HERE)
    total = float(os.environ.get('VERIF_BUDGET', 480 if tier == 'quick' else 3000))
    M = importlib.import_module('props.' + prop)
    only = os.environ.get('VERIF_ONLY')
    real = Real()
    from engine import job, solve, loader as Lm  # noqa: F401  (preload before forking)
    import z3  # noqa: F401
    jobs = []
    for hname, h in M.HARNESSES.items():
        if only and only not in hname:
            continue
        for case in h['cases'](tier):
            jobs.append((hname, dict(case)))
    jobs.sort(key=lambda j: -j[1].get('weight', 1))
    ncpu = int(os.environ.get('VERIF_JOBS', 8))
    running, queue, results = {}, list(enumerate(jobs)), {}
    ctx = mp.get_context('fork')
    while queue or running:
        while queue and len(running) < ncpu:
            i, (hname, case) = queue.pop(0)
            left = total - (time.time() - t0)
            budget = min(case.get('budget', 240 if tier == 'quick' else 1500), max(5.0, left))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(prop, hname, case, tier, seed, budget, b))
            p.start()
            b.close()
            running[a] = (i, p, time.time() + budget + 60)
        for c in mp.connection.wait(list(running), timeout=1.0):
            i, p, _ = running.pop(c)
            try:
                results[i] = c.recv()
            except EOFError:
                results[i] = {'error': f'worker ended with code {p.exitcode}'}
            p.join(5)
        for c, (i, p, dl) in list(running.items()):
            if time.time() > dl:
                p.kill()
                results[i] = {'unexplored': 'job exceeded its time'}
                running.pop(c)
    # ---- verdicts
    errors, violations, findings, undecided, nonrepro, unexplored = [], [], [], [], [], []
    hard = 760 if tier == 'quick' else 10 ** 6
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    agg = {'obligations': 0, 'holds': 0, 'paths': 0, 'queries': 0, 'z3_s': 0.0, 'how': {}, 'functions': set(), 'forks': 0, 'reach': 0, 'confirmed': 0}
    samples, val = [], {'runs': 0, 'values': 0, 'mismatches': []}
    vbudget = 60 if tier == 'quick' else 600
    vt = 0.0
    done_h = {}
    for i, (hname, case) in enumerate(jobs):
        r = results[i]
        tag = f"{hname}{json.dumps(case.get('args', {}), sort_keys=True, default=str)}"
        if r.get('error'):
            errors.append(f'{tag}: {r["error"]}')
        if r.get('unexplored'):
            unexplored.append(f'{tag}: {r["unexplored"]}')
        for k in ('obligations', 'holds', 'paths', 'reach'):
            agg[k] += r.get(k, 0)
        for k, v in (r.get('how') or {}).items():
            agg['how'][k] = agg['how'].get(k, 0) + v
        st = r.get('stats') or {}
        agg['queries'] += st.get('queries', 0)
        agg['z3_s'] += st.get('z3_s', 0.0)
        agg['confirmed'] = agg.get('confirmed', 0) + st.get('confirmed', 0)
        agg['forks'] += (r.get('explore') or {}).get('forks', 0)
        agg['functions'] |= set(r.get('functions') or [])
        for s in (r.get('samples') or [])[:1]:
            if len(samples) < 12:
                samples.append(dict(s, harness=tag))
        for u in r.get('undecided') or []:
            undecided.append(f"{tag}: {u['label']} ({u['how']})")
        # replay
        for n, c in enumerate((r.get('cex') or [])):
            if len(violations) >= 3 and n >= 1:
                break
            if time.time() - t0 > hard:
                undecided.append(f"{tag}: {c['label']} (no time left to replay the counterexample)")
                continue
            q = {'prop': prop, 'harness': hname, 'case': case, 'model': c['model'], 'seed': seed, 'tier': tier}
            try:
                a = real.ask(q, 300 if tier == 'thorough' else 120)
            except Exception as e:
                errors.append(f'{tag}: replay failed: {e}')
                real = Real()
                continue
            if a['error'] and not a['exception']:
                errors.append(f"{tag}: replay error: {a['error'][-300:]}")
                continue
            if a['error']:
                errors.append(f"{tag}: replay error: {a['error'][-400:]}")
                continue
            if a['failed'] or a['exception']:
                what = a['exception'] or '; '.join(f'{x}: {y}' for x, y in a['failed'][:3])
                k = match(known, hname, case, c['label'], a)
                (findings if k else violations).append({'harness': hname, 'case': case, 'label': c['label'], 'model': c['model'],
                                                       'observed': what, 'finding': k})
                if not k:
                    break
            else:
                nonrepro.append(f"{tag}: {c['label']} (model {str(c['model'])[:300]}; skipped={a['skipped']})")
        # validation of the encoding
        v = r.get('validation')
        if v and v['ok'] and (tier == 'thorough' or done_h.get(hname, 0) < 2) and vt < vbudget and not r.get('cex') and time.time() - t0 < hard - 60:
            t1 = time.time()
            try:
                a = real.ask({'prop': prop, 'harness': hname, 'case': case, 'model': v['model'], 'seed': seed, 'want_values': True, 'tier': tier})
                done_h[hname] = done_h.get(hname, 0) + 1
                if a['error'] or a['exception']:
                    val['mismatches'].append(f"{tag}: real run: {(a['error'] or a['exception'])[-300:]}")
                elif not a['skipped']:
                    val['runs'] += 1
                    got = {}
                    for l, x in a['values']:
                        got.setdefault(l, []).append(x)
                    for l, x in v['values']:
                        if l not in got:
                            val['mismatches'].append(f'{tag}: {l} not observed on the real code')
                            continue
                        val['values'] += 1
                        if not any(same(x, y, case.get('val_tol', 2e-5)) for y in got[l]):
                            val['mismatches'].append(f'{tag}: {l}: encoding {x!r}, real code {got[l][0]!r}')
            except Exception as e:
                errors.append(f'{tag}: validation failed: {e!r}'[:400])
                real.close()
                real = Real()
            vt += time.time() - t1
    real.close()
    wall = time.time() - t0
    if val['mismatches']:
        errors.append(f"encoding differs from the real code: {val['mismatches'][:3]} ({len(val['mismatches'])})")
    undecided += [f'{x}: solver counterexample does not reproduce on the real code' for x in nonrepro]
    if unexplored and not agg['holds'] and not violations:
        errors.append('nothing could be decided: ' + unexplored[0])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 1), 'violations': len(violations),
          'assumptions': list(getattr(M, 'ASSUMPTIONS', [])) + COMMON,
          'coverage': {
              'explanation': 'Symbolic execution of the OpenNTN sources (re-read from the working tree in this run) with inputs and random draws '
                             'as solver variables; every obligation decided for all values within the bounds by term identity, polynomial '
                             'normal form or Z3 over the reals; nothing here is sampled.',
              'bounds': getattr(M, 'BOUNDS', ''),
              'functions_encoded': sorted(agg['functions']),
              'harness_jobs': len(jobs), 'paths': agg['paths'], 'forks': agg['forks'], 'reachable_paths': agg['reach'],
              'obligations': agg['obligations'], 'discharged': agg['holds'], 'discharged_by': agg['how'],
              'jobs_not_explored': unexplored[:20],
              'undecided': len(undecided), 'undecided_list': undecided[:20],
              'solver_queries': agg['queries'], 'solver_s': round(agg['z3_s'], 1),
              'term_identities_also_confirmed_by_z3': agg['confirmed'],
              'encoding_validated': {'real_runs': val['runs'], 'values_compared': val['values'], 'mismatches': len(val['mismatches'])},
              'samples': samples or [{'note': 'all obligations reduced to identical terms'}],
              'known_findings_seen': [f['finding'] for f in findings],
          }}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print(f"{prop} {tier}: jobs={len(jobs)} paths={agg['paths']} obligations={agg['obligations']} discharged={agg['holds']} {agg['how']} "
          f"undecided={len(undecided)} queries={agg['queries']} solver={agg['z3_s']:.1f}s validated={val['runs']}/{val['values']} wall={wall:.1f}s")
    if os.environ.get('VERIF_TIMES'):
        for i, (hname, case) in sorted(enumerate(jobs), key=lambda x: -results[x[0]].get('wall', 0))[:int(os.environ['VERIF_TIMES'])]:
            print('   ', round(results[i].get('wall', 0), 1), 's', round(results[i].get('explore_s', 0), 1), 's explore', hname, case.get('args'), results[i].get('how'), results[i].get('paths'))
    for u in undecided[:10]:
        print('UNDECIDED', u[:300])
    for u in unexplored[:10]:
        print('NOT-EXPLORED', u[:600])
    for f in {f['finding']: f for f in findings}.values():
        print(f"KNOWN-FINDING: property={prop} {f['finding']}")
    for k in known:
        if not any(f['finding'] == k['what'] for f in findings):
            print(f"note: known finding not observed: {k['what']}")
    if violations:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{prop}.json')
        json.dump({'property': prop, 'violations': violations}, open(path, 'w'), indent=1, default=str)
        for v in violations[:3]:
            print(f"  {v['harness']} {v['case'].get('args')}: {v['label']}\n    observed on the real code: {v['observed'][:400]}\n    inputs: {str(v['model'])[:400]}")
        print(f'VIOLATION property={prop} replay={path}')
        for e in errors[:3]:
            print('note:', e[:400])
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR', e[:1200])
        return 2
    return 0


def match(known, hname, case, label, a):
    for k in known:
        m = k.get('match', {})
        if m.get('harness') == hname and all(case.get('args', {}).get(x) == y for x, y in m.get('args', {}).items()):
            if 'observed' in m and m['observed'] not in ((a['exception'] or '') + ' '.join(f'{x}: {y}' for x, y in a['failed'])):
                continue
            return k['what']
    return None


def same(x, y, tol):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if x != x and y != y:
        return True
    if x == y:
        return True
    return abs(x - y) <= tol * (1 + abs(x))


COMMON = ['real arithmetic: rounding of floating-point numbers is outside the claim (comparisons allow a relative tolerance)',
          'TensorFlow and Sionna operations are modelled by their documented real-number semantics; the encoding is compared with the real code on concrete runs',
          'Gaussian draws range over [-6, 6] standard deviations and uniform draws over their closed interval; each draw is an independent variable']
