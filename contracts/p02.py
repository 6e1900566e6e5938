"""P02: candidate supports."""
from pydv.api import contract

LM = 'pyuoi.linear_model.utils'
B = 'pyuoi.linear_model.base'


def insupport(t, coefs, nb, need, r, f):
    return t.sum(nb, lambda b: t.ite(t.at(coefs, b, r, f) != 0, 1, 0)) >= need


@contract('P02', funcs=[LM + '.intersection'], n=150)
def intersection(t):
    fn = t.mod(LM).intersection
    nb, nr, nf = t.dim('n_boots'), t.dim('n_reg'), t.dim('n_features')
    coefs = t.array('coefs', (nb, nr, nf))
    if t.choice('thresholds', ['given', 'none']) == 'given':
        nt = t.dim('n_thr')
        th = t.array('thr', (nt,), kind='i', lo=0, hi=4)
        s = fn(coefs, th)
        t.ensure_unique_rows('supports', s, nt * nr, nf,
                             lambda k, f: insupport(t, coefs, nb, t.at(th, k // nr), k % nr, f))
    else:
        s = fn(coefs)
        t.ensure_unique_rows('supports', s, nr, nf, lambda k, f: insupport(t, coefs, nb, nb, k, f))


@contract('P02', funcs=[B + '.AbstractUoILinearRegressor.intersect', LM + '.intersection'], n=60)
def linear_intersect(t):
    cls = t.mod('pyuoi.linear_model.lasso').UoI_Lasso
    nb, nr, nf, nt = t.dim('n_boots'), t.dim('n_reg'), t.dim('n_features'), t.dim('n_thr')
    coefs = t.array('coefs', (nb, nr, nf))
    th = t.array('thr', (nt,), kind='i', lo=0, hi=4)
    o = cls(random_state=t.np.random.RandomState(1))
    s = o.intersect(coefs, th)
    t.ensure_unique_rows('supports', s, nt * nr, nf,
                         lambda k, f: insupport(t, coefs, nb, t.at(th, k // nr), k % nr, f))


@contract('P02', funcs=[B + '.AbstractUoIGeneralizedLinearRegressor.intersect', LM + '.intersection'], n=150)
def glm_intersect(t):
    """shared supports: a feature is kept when any output keeps it"""
    cls = t.mod('pyuoi.linear_model.logistic').UoI_L1Logistic
    nb, nr, nf, nt, no = t.dim('n_boots'), t.dim('n_reg'), t.dim('n_features'), t.dim('n_thr', hi=3), t.dim('n_out', hi=3)
    coefs = t.array('coefs', (nb, nr, nf * no))
    th = t.array('thr', (nt,), kind='i', lo=0, hi=4)
    shared = t.boolean('shared')
    o = cls(random_state=t.np.random.RandomState(1), shared_support=shared)
    o.output_dim = no
    s = o.intersect(coefs, th)

    def ins(k, j):
        return insupport(t, coefs, nb, t.at(th, k // nr), k % nr, j)
    if shared and no > 1:
        t.ensure_unique_rows('shared supports', s, nt * nr, nf,
                             lambda k, f: t.any(no, lambda c: ins(k, c * nf + f)))
    else:
        t.ensure_unique_rows('supports', s, nt * nr, nf * no, ins)
