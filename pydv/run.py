"""Check of one property: proof of every contract from /repo's current source,
plus evaluation of the same contracts on the freshly built code (replay of
refutations; bounded stand-in for what is not proved).
usage: python3-vt -m pydv.run P01 [--tier quick|thorough] [--no-build]"""
import sys
import os
import json
import time
import shutil
import tempfile
import hashlib
import subprocess
import threading
import argparse
from concurrent.futures import ThreadPoolExecutor
from . import baseline

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self',
           OMPI_MCA_pml='ob1', MPLBACKEND='Agg', PYTHONPATH=VERIF)
WANT = ['src', 'liblbfgs', 'compat', 'setup.py', 'pyproject.toml', 'setup.cfg', 'README.md', 'README.rst', 'LICENSE',
        'requirements.txt', 'MANIFEST.in']


def build(scratch):
    """the extension and sources of /repo's working tree, in a scratch copy"""
    for w in WANT:
        s = os.path.join(REPO, w)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(scratch, w), ignore=shutil.ignore_patterns(
                '*.so', '__pycache__', '*.pyc', '_lowlevel.c', 'build', '*.egg-info'))
        elif os.path.exists(s):
            shutil.copy(s, scratch)
    for f in os.listdir(REPO):
        if f.startswith('requirements') and not os.path.exists(os.path.join(scratch, f)):
            shutil.copy(os.path.join(REPO, f), scratch)
    t0 = time.time()
    p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=scratch, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if p.returncode != 0:
        return None, p.stdout.decode(errors='replace')[-3000:], time.time() - t0
    return os.path.join(scratch, 'src'), '', time.time() - t0


def call(cmd, spec, timeout, cwd=VERIF):
    """one job; -> (json lines, error)"""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd,
                         start_new_session=True)
    err = None
    try:
        o, e = p.communicate(json.dumps(spec).encode(), timeout=timeout)
        if p.returncode != 0:
            err = 'exit %s: %s' % (p.returncode, e.decode(errors='replace')[-800:])
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        err = 'timeout'
    out = []
    for line in o.decode(errors='replace').splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            pass
    return out, err


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            d = json.load(f)
    except OSError:
        return {}
    return {k['id']: k for k in d.get('known', []) if k['property'] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--names', nargs='*')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    thorough = a.tier == 'thorough'
    t_start = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.path.insert(0, VERIF)
    from pydv.load import load_contracts
    from pydv.api import CONTRACTS
    meta = load_contracts(a.prop)
    cs = [c for c in CONTRACTS[a.prop] if not a.names or c.name in a.names]
    known = known_findings(a.prop)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='pydv_%s_' % a.prop)
    os.chmod(scratch, 0o755)
    ENV['TMPDIR'] = os.path.join(scratch, 'tmp')
    os.makedirs(ENV['TMPDIR'])
    tot = 1500 if thorough else 420
    try:
        rc = run(a, cs, known, seed, thorough, scratch, evd, t_start, tot)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, cs, known, seed, thorough, scratch, evd, t_start, tot):
    prop = a.prop
    proofs, concrete, errors = {}, {}, []
    ncpu = max(2, min(8, os.cpu_count() or 2))
    built = {}

    def do_build():
        with bl:
            if 'src' not in built:
                try:
                    built['src'], built['log'], built['time'] = build(scratch)
                except subprocess.TimeoutExpired:
                    built['src'], built['log'], built['time'] = None, 'build timed out', 400
        return built['src']
    bl = threading.Lock()
    VT = 'python3-vt'
    changed, lits = baseline.changes(REPO)

    def prove_job(c, more=1):
        lim = c.budget * (4 if thorough else 1) * more
        o, e = call([VT, '-m', 'pydv.provemain'], dict(prop=prop, names=[c.name], repo=REPO, time=lim, slow=more), lim + 60)
        if o:
            proofs[c.name] = o[0]
        else:
            proofs[c.name] = dict(name=c.name, funcs=c.funcs, status='engine error: %s' % e, obligations=0, proved=0, obs=[])

    def con_job(c, part, parts, budget, presets=(), factor=None, lits=()):
        src = do_build()
        if src is None:
            return
        spec = dict(src=src, prop=prop, names=[c.name], seed=seed, time=budget, part=part, parts=parts,
                    factor=(factor if factor is not None else (10 if thorough else 1)), known=known, presets=list(presets), lits=list(lits))
        for _ in range(2):
            o, e = call([PY, '-m', 'pydv.worker'], spec, budget + 150, cwd=VERIF)
            if o or e == 'timeout':
                break
        with bl:
            if o and 'contract' in o[0]:
                concrete.setdefault(c.name, []).append(o[0])
            else:
                errors.append('%s: concrete evaluation failed: %s %s' % (c.name, e, o))

    jobs = []
    with ThreadPoolExecutor(ncpu) as ex:
        jobs.append(ex.submit(do_build))
        for c in cs:
            if c.proof:
                jobs.append(ex.submit(prove_job, c))
        for c in cs:
            if c.con:
                parts = 4 if (thorough or c.n > 400) else (2 if c.n >= 100 else 1)
                for p in range(parts):
                    jobs.append(ex.submit(con_job, c, p, parts, (120 if thorough else 60)))
        for j in jobs:
            j.result()
        # refuted obligations: replay the countermodels on the real code, look harder
        # for a failing input where there is none
        again = []
        for c in cs:
            pr = proofs.get(c.name)
            if not c.con or has_violation(concrete, c.name):
                continue
            if pr is not None and pr['status'] != 'proved':
                pres = []
                for o in pr.get('obs', []):
                    for r in o.get('refuted', []):
                        m = r.get('model') if isinstance(r, dict) else None
                        if isinstance(m, dict):
                            pres += [dict(contract=c.name, preset=m, seed=k) for k in range(4)]
                for p in range(4):
                    again.append(ex.submit(con_job, c, 10 + p, 1, 60, pres if p == 0 else (), 6, lits if p % 2 else ()))
        for j in again:
            j.result()
        # an obligation that was not discharged within its limits gets larger ones
        left = [c for c in cs if c.proof and proofs[c.name]['status'] not in ('proved', 'refuted') and
                not has_violation(concrete, c.name)]
        room = tot - (time.time() - t_start)
        if left and room > 60:
            jobs = [ex.submit(prove_job, c, min(3, max(1, room / (c.budget + 60.)))) for c in left]
            for j in jobs:
                j.result()
    # outcome
    viol, finding, degraded, noinput = [], {}, [], []
    if built.get('src') is None:
        # code that does not build cannot be evaluated: undecided
        degraded.append('build failed: ' + built.get('log', '')[-500:])
    for c in cs:
        rs = concrete.get(c.name, [])
        v = next((r['violation'] for r in rs if r.get('violation')), None)
        for r in rs:
            for k, d in r.get('known', {}).items():
                finding.setdefault(k, d)
        pr = proofs.get(c.name)
        if v is not None:
            viol.append((c, v, pr))
        elif pr is not None and pr['status'] != 'proved':
            kn = [k for k in known.values() if k['contract'] == c.name]
            ref = [o for o in pr.get('obs', []) if o.get('nref')]
            if ref and all(any(k.get('label') == o['label'] for k in kn) for o in ref):
                degraded.append('%s: refuted as the known finding says' % c.name)
            elif ref and not pr['status'].startswith('unsupported'):
                noinput.append((c, ref, pr))
            elif changed and touches(pr, changed):
                # not accepted by the verifier on code that is not the code it was accepted on
                noinput.append((c, [o for o in pr.get('obs', []) if o['proved'] < o['n']] or
                                [dict(label='obligations of %s not accepted (%s)' % (', '.join(c.funcs), pr['status'][:200]))], pr))
            else:
                degraded.append('%s: %s' % (c.name, pr['status']))
    rep = []
    for c, v, pr in viol:
        path = os.path.join(evd, 'replay', '%s_%s.json' % (prop, c.name))
        obs = [dict(label=o['label'], kind=o['kind'], refuted=o.get('nref', 0), unknown=o['unknown']) for o in (pr or {}).get('obs', [])
               if o['proved'] < o['n']]
        with open(path, 'w') as f:
            json.dump(dict(property=prop, contract=c.name, functions=c.funcs, failing=v, failed_obligations=obs,
                           replay='VERIF_SEED=%d %s -m pydv.worker (spec on stdin: names=[%s], seed case %s)' % (
                               seed, PY, c.name, v.get('seed'))), f, indent=1)
        rep.append((path, ''))
        print('  contract %s: %s: %s' % (c.name, v['label'], str(v['detail'])[:300]))
    for c, ref, pr in noinput:
        path = os.path.join(evd, 'replay', '%s_%s_obligation.json' % (prop, c.name))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, contract=c.name, functions=c.funcs, failed_obligations=ref, verifier=pr), f, indent=1,
                      default=str)
        rep.append((path, ' no-failing-input-found'))
        print('  contract %s: obligation not discharged: %s' % (c.name, '; '.join(o['label'] for o in ref)[:300]))
    for k, kf in known.items():
        # printed whenever the finding is on record and still shows
        if k in finding:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    rep.sort(key=lambda t: t[1] != '')
    if rep:
        print('VIOLATION property=%s replay=%s%s' % (prop, rep[0][0], rep[0][1]))
    write_evidence(a, cs, proofs, concrete, errors, degraded, len(rep), built, seed, t_start, evd, known, finding)
    if a.verbose or True:
        n = sum(p.get('obligations', 0) for p in proofs.values())
        d = sum(p.get('proved', 0) for p in proofs.values())
        runs = sum(r['ok'] for rs in concrete.values() for r in rs)
        print('%s: %d contracts, %d/%d obligations discharged, %d concrete evaluations, %d undecided, %.0f s' % (
            prop, len(cs), d, n, runs, len(degraded), time.time() - t_start))
        for x in degraded + errors:
            print('  undecided/bounded: ' + x[:300].replace('\n', ' '))
    return 1 if rep else 0


def touches(pr, changed):
    ex = pr.get('executed')
    return ex is None or any(m in changed for m in ex)


def has_violation(concrete, name):
    return any(r.get('violation') for r in concrete.get(name, []))


def write_evidence(a, cs, proofs, concrete, errors, degraded, nviol, built, seed, t_start, evd, known, finding):
    from pydv.api import TRUSTED
    level = level_of(a.prop)
    pc = [c for c in cs if c.proof]
    proved_c = [c.name for c in pc if proofs.get(c.name, {}).get('status') == 'proved']
    evals = sum(r['runs'] for rs in concrete.values() for r in rs)
    dist = sum(r['distinct'] for rs in concrete.values() for r in rs)
    samples = []
    for n, rs in concrete.items():
        for r in rs:
            if r.get('sample') and len(samples) < 6:
                samples.append(dict(contract=n, inputs=r['sample']))
                break
    funcs = {}
    for c in cs:
        for f in c.funcs:
            st = 'proved' if c.name in proved_c else ('bounded' if not c.proof else 'undecided')
            funcs.setdefault(f, {})[c.name] = st
    assumes = list(TRUSTED)
    for c in cs:
        for x in (proofs.get(c.name, {}).get('assumes') or c.assumes):
            if x not in assumes:
                assumes.append(x)
    cov = dict(
        obligations=sum(p.get('obligations', 0) for p in proofs.values()),
        discharged=sum(p.get('proved', 0) for p in proofs.values()),
        checker_cmd='python3-vt -m pydv.run %s --tier %s' % (a.prop, a.tier),
        trusted_base=['pydv symbolic executor and normaliser (/verif/pydv)', 'z3 4.x (python3-vt z3-solver)',
                      'models of numpy/scipy/scikit-learn/mpi4py operations in pydv/npshim.py, ext.py, skl.py, mpi.py'],
        functions_under_contract=funcs,
        contracts=[dict(name=c.name, functions=c.funcs, mode=('proof' if c.proof else 'bounded: %s' % c.bounded),
                        status=proofs.get(c.name, {}).get('status', 'bounded'),
                        obligations=proofs.get(c.name, {}).get('obligations', 0),
                        discharged=proofs.get(c.name, {}).get('proved', 0),
                        paths=proofs.get(c.name, {}).get('paths', 0),
                        wall_s=proofs.get(c.name, {}).get('wall', 0),
                        z3_queries=proofs.get(c.name, {}).get('z3_queries', 0),
                        z3_s=proofs.get(c.name, {}).get('z3_time', 0),
                        concrete=dict(runs=sum(r['runs'] for r in concrete.get(c.name, [])),
                                      rejected=sum(r['rejected'] for r in concrete.get(c.name, [])),
                                      checks=sum(r['checks'] for r in concrete.get(c.name, []))),
                        note=c.note) for c in cs],
        solver_time_s=round(sum(p.get('z3_time', 0) for p in proofs.values()), 2),
        back_end='pydv normal forms (exact rational/symbolic) + z3',
        undecided=degraded, errors=errors, evaluations=evals, distinct_nontrivial=dist,
        rule='contract inputs drawn from the generators in the contract; an evaluation counts when it passes the '
             'precondition and executes at least one ensures; distinct by input values',
        samples=samples or ['none'], build_s=round(built.get('time', 0), 1),
        known_findings_seen=sorted(finding),
        explanation='contracts (pre/postconditions, loop invariants) executed symbolically on the instrumented AST of '
                    '/repo/src for all inputs; the same contract text is evaluated on the freshly built package')
    ev = dict(property=a.prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=assumes, wall_s=round(time.time() - t_start, 2), violations=nviol)
    with open(os.path.join(evd, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def level_of(prop):
    try:
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c['level']
    except (OSError, ValueError, KeyError):
        pass
    return 'other'


if __name__ == '__main__':
    main()
