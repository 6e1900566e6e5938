"""Concrete contract evaluation: runs under the repository's interpreter.
argv: json spec on stdin {src, prop, names, n, seed, time, presets:[{name,preset,seed}]}
prints one json line per contract."""
import sys
import os
import json
import time
import random
import warnings


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


def run_one(c, seed, presets=None, lits=()):
    import numpy as np
    from .con import ConT, Violation
    from .api import Reject
    rng = random.Random(seed)
    st = np.random.get_state()
    np.random.seed(seed % (2 ** 32))
    t = ConT(rng, np.random.RandomState((seed * 7919 + 13) % (2 ** 32)), presets)
    t.seed = seed
    t.lits = lits
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                c.fn(t)
        return ('ok' if t.checks else 'empty'), t, None
    except Reject:
        return 'reject', t, None
    except Violation as v:
        return 'violation', t, dict(label=v.label, detail=str(v.detail)[:1500])
    except AssertionError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return 'violation', t, dict(label='no exception on valid input',
                                    detail='%s: %s' % (type(e).__name__, str(e)[:300]),
                                    where=['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]])
    finally:
        t.cleanup()
        np.random.set_state(st)


def main():
    spec = json.load(sys.stdin)
    sys.path.insert(0, spec['src'])
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import logging
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    logging.disable(logging.CRITICAL)
    try:
        import mpi4py
        mpi4py.rc.initialize = mpi4py.rc.finalize = False
    except ImportError:
        pass
    import numpy as np
    import pyuoi
    if not pyuoi.__file__.startswith(spec['src']):
        out.write(json.dumps(dict(error='wrong pyuoi: %s' % pyuoi.__file__)) + '\n')
        out.flush()
        os._exit(3)
    from .load import load_contracts
    from .api import CONTRACTS
    load_contracts(spec['prop'])
    t_end = time.time() + spec['time']
    cs = [c for c in CONTRACTS.get(spec['prop'], []) if c.con and (not spec.get('names') or c.name in spec['names'])]
    part, parts = spec.get('part', 0), spec.get('parts', 1)
    known = spec.get('known', {})
    for i, c in enumerate(cs):
        share = (t_end - time.time()) / max(1, len(cs) - i)
        lim = time.time() + max(share, 1.0)
        res = dict(contract=c.name, runs=0, ok=0, rejected=0, checks=0, violation=None, distinct=0)
        seen = set()
        todo = [(p.get('seed', 0), p['preset']) for p in spec.get('presets', []) if p['contract'] == c.name]
        n = max(1, int(c.n * spec.get('factor', 1)) // parts)
        base = spec['seed'] * 1000003 + part * 7919
        # the first cases of part 0 are the same for every seed: a stable regression set
        todo += [((j if part == 0 and j < 20 else base + j), None) for j in range(n)]
        for seed, pre in todo:
            if time.time() > lim and res['runs'] >= 3:
                res['cut'] = True
                break
            st, t, v = run_one(c, seed, pre, spec.get('lits', ()))
            res['runs'] += 1
            if st == 'reject':
                res['rejected'] += 1
                continue
            key = repr(sorted((k, str(x)) for k, x in t.inputs.items()))
            if key not in seen:
                seen.add(key)
            res['checks'] += t.checks
            if st == 'violation':
                kn = match_known(known, c.name, v, t.inputs)
                if kn is not None:
                    res.setdefault('known', {}).setdefault(kn, dict(seed=seed, **v))
                    continue
                res['violation'] = dict(seed=seed, preset=pre, inputs=jsonable(t.inputs), **v)
                break
            res['ok'] += 1
            if 'sample' not in res and st == 'ok':
                s = json.dumps(jsonable(t.inputs))
                res['sample'] = s[:400]
        res['distinct'] = len(seen)
        out.write(json.dumps(res) + '\n')
        out.flush()
    out.flush()
    os._exit(0)


def match_known(known, cname, v, inputs):
    for kid, k in known.items():
        if k['contract'] == cname and k['label'] == v['label']:
            cond = k.get('when')
            try:
                if cond is None or eval(cond, {'inputs': inputs, 'detail': v['detail']}):
                    return kid
            except Exception:
                pass
    return None


if __name__ == '__main__':
    main()
