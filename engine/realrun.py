"""Runs harnesses on the real package (TensorFlow + Sionna).  JSON lines on stdin/stdout."""
import importlib
import json
import os
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from engine.loader import RealLoader
    from engine.harness import RealEnv, Skip, Stop
    import numpy as np
    L = RealLoader()
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        r = {'failed': [], 'values': [], 'error': None, 'skipped': False, 'exception': None}
        try:
            M = importlib.import_module('props.' + q['prop'])
            h = M.HARNESSES[q['harness']]
            case = q['case']
            from sionna.phy import config
            config.precision = case.get('config_precision', 'single')
            env = RealEnv(case, q['model'], L, seed=q.get('seed', 1), tier=q.get('tier', 'quick'), rtol=case.get('replay_tol', q.get('rtol', 1e-5)))
            try:
                h['fn'](env, **case.get('args', {}))
            except Skip:
                r['skipped'] = True
            except Stop:
                pass
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f"{x.filename}:{x.lineno}" for x in tb if '/OpenNTN/' in x.filename]
                r['exception'] = f"{type(e).__name__}: {str(e)[:300]} at {where[-2:]}"
                if not where:
                    r['error'] = 'harness: ' + r['exception'] + ' | ' + ' <- '.join(f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb[-4:])
            r['failed'] = [[a, b] for a, b in env.failed[:20]]
            r['nfailed'] = len(env.failed)
            if q.get('want_values'):
                r['values'] = [[a, (bool(b) if isinstance(b, (bool, np.bool_)) else float(b))] for a, b in env.values]
        except Exception as e:
            r['error'] = traceback.format_exc()[-800:]
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
