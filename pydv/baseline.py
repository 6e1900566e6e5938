"""Digests of the source on which every claimed obligation was discharged.
They decide nothing on their own: when the verifier stops accepting an
obligation, they tell whether the source it was generated from has changed
(then the obligation is reported) or the machine was short of resources (the
run then says so and is quiet).
usage: python3-vt -m pydv.baseline   rewrites baseline/source.json"""
import os
import ast
import json
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(VERIF, 'baseline', 'source.json')


def strip(tree):
    """without docstrings and other statements that are only a constant"""
    for n in ast.walk(tree):
        b = getattr(n, 'body', None)
        if isinstance(b, list):
            n.body = [x for x in b if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
                                           and isinstance(x.value.value, str))] or b[:1]
    return tree


def entry(text):
    t = strip(ast.parse(text))
    lits = sorted({float(n.value) for n in ast.walk(t) if isinstance(n, ast.Constant)
                   and isinstance(n.value, (int, float)) and not isinstance(n.value, bool)})
    return dict(digest=hashlib.sha256(ast.dump(t).encode()).hexdigest()[:20], literals=lits)


def scan(repo):
    out = {}
    from . import cfront
    for m, text in cfront.TEXTS.items():
        try:
            out[m] = entry(text(repo))
        except Exception:
            out[m] = dict(digest='untranslatable', literals=[])
    src = os.path.join(repo, 'src')
    for d, _, fs in os.walk(os.path.join(src, 'pyuoi')):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            m = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
            if m.endswith('.__init__'):
                m = m[:-9]
            try:
                out[m] = entry(open(p).read())
            except (SyntaxError, ValueError):
                out[m] = dict(digest='unparsable', literals=[])
    return out


def changes(repo):
    """-> (modules whose code differs from the baseline, numbers that occur only in the current code)"""
    try:
        with open(FILE) as f:
            base = json.load(f)
    except (OSError, ValueError):
        base = {}
    cur = scan(repo)
    mods = sorted(m for m in set(base) | set(cur) if base.get(m, {}).get('digest') != cur.get(m, {}).get('digest'))
    lits = set()
    for m in mods:
        lits |= set(cur.get(m, {}).get('literals', [])) - set(base.get(m, {}).get('literals', []))
    return mods, sorted(x for x in lits if x not in (0., 1., 2.))[:12]


if __name__ == '__main__':
    os.makedirs(os.path.dirname(FILE), exist_ok=True)
    with open(FILE, 'w') as f:
        json.dump(scan(os.environ.get('PYDV_REPO', '/repo')), f, indent=1, sort_keys=True)
        f.write('\n')
