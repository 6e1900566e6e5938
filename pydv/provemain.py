"""Proves contracts in this process. stdin: {prop, names, repo, time, debug}; one json line per contract."""
import sys
import os
import json
import time


def main():
    spec = json.load(sys.stdin)
    os.environ['PYDV_REPO'] = spec['repo']
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.setrecursionlimit(20000)
    from . import symt, prove
    from .load import load_contracts
    from .api import CONTRACTS
    load_contracts(spec['prop'])
    slow = spec.get('slow') or 1
    symt.Session.oblig_time *= slow
    prove.slower(slow)
    for c in CONTRACTS[spec['prop']]:
        if c.name not in spec['names'] or not c.proof:
            continue
        s = symt.Session(spec['prop'], time.time() + spec['time'])
        z0 = dict(prove.STATS)
        info = symt.run_contract(s, c)
        info['z3_queries'] = prove.STATS['z3_queries'] - z0['z3_queries']
        info['z3_time'] = round(prove.STATS['z3_time'] - z0['z3_time'], 2)
        info['assumes'] = c.assumes + sorted(s.assumed)
        info['executed'] = sorted(s.executed())
        obs = {}
        for r in s.results:
            o = obs.setdefault((r['label'], r['kind']), dict(label=r['label'], kind=r['kind'], n=0, proved=0, refuted=[], unknown=0))
            o['n'] += 1
            if r['status'] == 'proved':
                o['proved'] += 1
            elif r['status'] == 'refuted':
                if len(o['refuted']) < 3:
                    o['refuted'].append(r['detail'])
                o['nref'] = o.get('nref', 0) + 1
            else:
                o['unknown'] += 1
                o['residue'] = (r['detail'] or {}).get('residue') if isinstance(r['detail'], dict) else None
        info['obs'] = list(obs.values())
        out.write(json.dumps(info, default=str) + '\n')
        out.flush()
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
