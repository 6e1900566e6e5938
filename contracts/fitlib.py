"""Stand-ins shared by the contracts of the fitting procedure."""
B = 'pyuoi.linear_model.base'
LA = 'pyuoi.linear_model.lasso'
LG = 'pyuoi.linear_model.logistic'


class Stop(Exception):
    pass


class Splits(object):
    """train_test_split: records every draw, hands out prescribed index arrays"""

    def __init__(self, t, n, plan):
        self.t, self.n, self.plan, self.calls = t, n, plan, []

    def __call__(self, *arrays, **kw):
        t = self.t
        k = len(self.calls)
        self.calls.append(kw)
        if k >= len(self.plan):
            t.fail('no more draws than bootstraps')
            raise Stop()
        t.ensure('one array is split', len(arrays) == 1)
        t.ensure_array('rows are split', arrays[0], (self.n,), lambda i: i)
        return [self.plan[k][0].copy(), self.plan[k][1].copy()]


def splits_args(t, splits, lo, hi, frac, strat, rng):
    for kw in splits.calls[lo:hi]:
        if kw.get('test_size') is not None:
            t.ensure_eq('resample size', kw['test_size'], 1 - frac, tol=1e-12)
        else:
            t.ensure_eq('resample size', kw['train_size'], frac, tol=1e-12)
        t.ensure('stratified as asked', kw.get('stratify') is strat)
        t.ensure('drawn from the stream of the estimator', kw.get('random_state') is rng)


def data(t, count, xlo=None):
    n, d = t.dim('n', lo=2), t.dim('d')
    n_tr, n_te = t.dim('n_tr'), t.dim('n_te')
    idx = [(t.array('train%d' % k, (n_tr,), kind='i', lo=0, hi=n - 1),
            t.array('test%d' % k, (n_te,), kind='i', lo=0, hi=n - 1)) for k in range(count)]
    X, y = t.array('X', (n, d)), t.array('y', (n,))
    t.requires(t.any(n, lambda i: t.not_(t.at(y, i) == t.at(y, 0))))
    return n, d, n_tr, n_te, idx, X, y


class Fitter(object):
    """base model stand-in: coefficients are a generic (bilinear) function of
    exactly the rows, columns and responses it is given"""

    def __init__(self, t, u, v, k=1, d=None):
        self.t, self.u, self.v, self.k, self.d = t, u, v, k, d

    def wsum(self, n, f):
        t = self.t
        return t.sum(n, lambda i: t.at(self.u, i) * f(i))

    def fit(self, A, b, coef_mask=None):
        t = self.t
        wb = self.wsum(t.shape(b)[0], lambda i: t.at(b, i))
        self.wb = wb
        m = t.shape(A)[0]

        def c(o, j):
            r = t.at(self.v, o) * wb + (1 + t.at(self.v, o)) * self.wsum(m, lambda i: t.at(A, i, j))
            return r * t.at(coef_mask, o * self.d + j) if coef_mask is not None else r
        self.coef_ = t.table((self.k, t.shape(A)[1]), c)
        return self

    def spec(self, X, y, tr, n_tr, o, j):
        t = self.t
        return t.at(self.v, o) * self.wsum(n_tr, lambda i: t.at(y, t.at(tr, i))) \
            + (1 + t.at(self.v, o)) * self.wsum(n_tr, lambda i: t.at(X, t.at(tr, i), j))
