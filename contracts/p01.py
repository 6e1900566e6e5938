"""P01: stability selection thresholds."""
from pydv.api import contract

LM = 'pyuoi.linear_model.utils'
DM = 'pyuoi.decomposition.utils'
F = ['pyuoi.linear_model.utils.stability_selection_to_threshold']
G = ['pyuoi.decomposition.utils.stability_selection_to_threshold']


def inside(t, x, nb):
    return t.and_(x >= 1, x <= nb)


@contract('P01', funcs=F)
def lm_scalar(t):
    f = t.mod(LM).stability_selection_to_threshold
    nb = t.integer('n_boots', lo=1, hi=12)
    kind = t.choice('kind', ['float', 'int'])
    if kind == 'float':
        p = t.real('p', lo=-0.5, hi=1.5)
        want = t.ite(p >= 0, t.floor(p * nb), 0)
    else:
        p = t.integer('p_int', lo=-2, hi=14)
        want = p
    bad, r = t.raises(ValueError, lambda: f(p, nb))
    if bad:
        t.ensure('ValueError only out of range', t.not_(inside(t, want, nb)))
    else:
        t.ensure('accepted only in range', inside(t, want, nb))
        t.ensure_array('threshold', r, (1,), lambda i: want, kind='i')


@contract('P01', funcs=F)
def lm_many(t):
    f = t.mod(LM).stability_selection_to_threshold
    nb = t.integer('n_boots', lo=1, hi=12)
    n = t.dim('n_thr')
    kind = t.choice('kind', ['f', 'i'])
    cont = t.choice('container', ['list', 'array'])
    lo, hi = (-0.3, 1.3) if kind == 'f' else (-1, 12)
    wide = t.boolean('wide')
    if not wide:
        lo, hi = (0.3, 1.0) if kind == 'f' else (1, 2)
    name = 'v_%s_%s' % (kind, wide)
    v = t.seq(name, n, kind, lo, hi) if cont == 'list' else t.array(name, (n,), kind, lo, hi)

    def want(i):
        x = t.at(v, i)
        return t.ite(x >= 0, t.floor(x * nb), 0) if kind == 'f' else x
    allin = t.all(n, lambda i: inside(t, want(i), nb))
    bad, r = t.raises(ValueError, lambda: f(v, nb))
    if bad:
        t.ensure('ValueError only out of range', t.not_(allin))
    else:
        t.ensure('accepted only in range', allin)
        t.ensure_array('thresholds', r, (n,), want, kind='i')


@contract('P01', funcs=F)
def lm_other_kinds(t):
    f = t.mod(LM).stability_selection_to_threshold
    nb = t.integer('n_boots', lo=1, hi=12)
    other = t.choice('other', ['str', 'none', 'dict', 'mixed', 'strlist', 'boolarr', 'tuple', 'complex'])
    v = {'str': '0.5', 'none': None, 'dict': {}, 'mixed': [0.5, 1], 'strlist': ['a'],
         'boolarr': t.np.array([True, False]), 'tuple': (0.5, 0.6), 'complex': 0.5j}[other]
    bad, r = t.raises(ValueError, lambda: f(v, nb))
    t.ensure('other kinds are rejected with ValueError', bad)


@contract('P01', funcs=G)
def dec_scalar(t):
    f = t.mod(DM).stability_selection_to_threshold
    nb = t.integer('n_boots', lo=1, hi=12)
    kind = t.choice('kind', ['float', 'int'])
    if kind == 'float':
        p = t.real('p', lo=-0.5, hi=1.5)
        want = t.ite(p >= 0, t.floor(p * nb), 0)
    else:
        p = t.integer('p_int', lo=-2, hi=14)
        want = p
    bad, r = t.raises(ValueError, lambda: f(p, nb))
    if bad:
        t.ensure('ValueError only out of range', t.not_(inside(t, want, nb)))
    else:
        t.ensure('accepted only in range', inside(t, want, nb))
        t.ensure_eq('threshold', r, want)


@contract('P01', funcs=G)
def dec_other_kinds(t):
    f = t.mod(DM).stability_selection_to_threshold
    nb = t.integer('n_boots', lo=1, hi=12)
    other = t.choice('other', ['str', 'none', 'dict', 'list', 'tuple', 'array'])
    v = {'str': '0.5', 'none': None, 'dict': {}, 'list': [0.5], 'tuple': (0.5, 0.6),
         'array': t.np.array([0.5])}[other]
    bad, r = t.raises(ValueError, lambda: f(v, nb))
    t.ensure('other kinds are rejected with ValueError', bad)
