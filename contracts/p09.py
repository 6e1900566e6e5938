"""P09: the masked logistic regression.

The two minimisers are stand-ins: each evaluates the objective it is given and hands back any point of the space it was
given.  The obligations say what the estimator reports for that point, so they hold whatever the layout of the vector that
is optimised.  Trusted of OWL-QN: a coordinate that starts at zero and whose gradient is always zero stays there.
"""
from pydv.api import contract

LG = 'pyuoi.linear_model.logistic'
M = LG + '.MaskedCoefLogisticRegression'
FUNCS = [M + '.fit', M + '._pre_fit', M + '._post_fit', LG + '._logistic_regression_path', LG + '._logistic_loss_and_grad',
         LG + '._intercept_dot', LG + '._multinomial_loss_grad', LG + '._multinomial_loss']


class Minimiser(object):
    """what is handed back: the start, a vector naming its own coordinates, or any point"""

    def __init__(self, t, mode):
        self.t, self.mode, self.calls, self.value, self.penalty, self.size = t, mode, 0, None, None, None

    def run(self, f, x0):
        """f(point) -> value, gradient"""
        t = self.t
        self.calls += 1
        size = self.size = t.shape(x0)[0]
        start = x0.copy()
        self.start = start
        if self.mode == 'start':
            self.value = f(start.copy())[0]
            return start
        if self.mode == 'places':
            return t.table((size,), lambda i: 1. + i)
        point = t.array('minimum', (size,))
        if self.mode == 'gradient':
            self.point = point
            self.grad = f(point.copy())[1].copy()
        else:
            self.value, _ = f(point.copy())
        return point.copy()

    def lbfgs(self, f, x0, progress=None, args=(), orthantwise_c=0, orthantwise_start=0, orthantwise_end=-1, **o):
        t = self.t

        def both(v):
            g = t.np.zeros(t.shape(x0))
            return f(v, g, *args), g
        end = t.ite(orthantwise_end == -1, t.shape(x0)[0], orthantwise_end)
        self.penalty = (orthantwise_c, orthantwise_start, end)
        return self.run(both, x0)

    def lbfgsb(self, f, x0, fprime=None, args=(), **o):
        return self.run(lambda v: f(v, *args), x0), 0., {'warnflag': 0, 'nit': 1, 'task': b''}


class Problem(object):
    """data, mask and the estimator; k is the number of rows of coef_"""

    def __init__(self, t, k, penalty, weights=False):
        self.t, self.k, self.penalty = t, k, penalty
        n, d = self.n, self.d = t.dim('n', lo=3), t.dim('d')
        multi = 'multinomial' if k == 2 else 'auto'
        opts = [(True, True), (False, True)] + ([(True, False)] if k != 2 else [])
        self.icpt, self.masked = t.choice('intercept and mask', opts)
        self.weighted = weights and t.boolean('weights')
        self.X = t.array('X', (n, d), lo=-2, hi=2)
        self.y, self.codes, _ = t.labels('y', n, max(k, 2), user=True)
        self.sw = t.array('weights', (n,), lo=1, hi=3) if self.weighted else None
        self.C = t.real('C', lo=0.1, hi=10)
        # the shape of coef_, or one entry per feature for two classes
        self.flat = k == 1 and self.masked and t.boolean('one entry per feature')
        self.mask = t.array('mask', (d,) if self.flat else (k, d), kind='b') if self.masked else None
        self.options = dict(penalty=penalty, C=self.C, fit_intercept=self.icpt, multi_class=multi)
        if t.symbolic:
            class Empty(object):
                def __init__(self, b, output_dim):
                    self.intercept_ = t.array('start', (output_dim,))
            t.stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)
        self.alpha = 1. / self.C if penalty == 'l2' else 0

    def on(self, c, j):
        return True if self.mask is None else self.t.at(self.mask, j) if self.flat else self.t.at(self.mask, c, j)

    def fit(self, mode, old=None):
        t = self.t
        m = Minimiser(t, mode)
        t.stub(LG, 'fmin_lbfgs', m.lbfgs)
        t.stub('scipy.optimize', 'fmin_l_bfgs_b', m.lbfgsb)
        est = t.mod(LG).MaskedCoefLogisticRegression(warm_start=old is not None, **self.options)
        if old is not None:
            est.coef_, est.intercept_ = old[0].copy(), old[1].copy()
        est.fit(self.X, self.y, sample_weight=self.sw, coef_mask=self.mask.copy() if self.masked else None)
        t.ensure_shape('coef_', est.coef_, (self.k, self.d))
        t.ensure_shape('intercept_', est.intercept_, (self.k,))
        if not self.icpt:
            t.each(self.k, lambda c: t.ensure('no intercept', t.at(est.intercept_, c) == 0))
        if m.calls == 0:
            t.ensure('nothing to optimise only without an intercept and with everything masked',
                     t.and_(not self.icpt, t.not_(t.any((self.k, self.d), lambda c, j: self.on(c, j)))))
            self.zeros(est)
            return est, None
        t.ensure('one optimisation', m.calls == 1)
        return est, m

    def zeros(self, est):
        t = self.t
        if self.masked:
            t.each((self.k, self.d), lambda c, j: t.ensure('a masked coefficient is exactly zero', t.implies(
                t.not_(self.on(c, j)), t.at(est.coef_, c, j) == 0)))


def start(t, k, penalty):
    """no free coefficient and no intercept is out of reach"""
    p = Problem(t, k, penalty)
    old, old_b = t.array('old', (k, p.d)), t.array('old intercept', (k,))
    est, m = p.fit('start', (old, old_b))
    if m is None:
        return
    t.ensure_array('every free coefficient can be reported, and no other', est.coef_, (k, p.d),
                   lambda c, j: t.ite(p.on(c, j), t.at(old, c, j), 0))
    if p.icpt:
        t.ensure_array('every intercept can be reported', est.intercept_, (k,), lambda c: t.at(old_b, c))


def objective(t, k, penalty):
    """masked coefficients are zero and the objective is the loss of what is reported"""
    p = Problem(t, k, penalty, weights=True)
    if penalty == 'l2':
        est, m = p.fit('value')
    else:
        est, m = p.fit('start', (t.array('old', (k, p.d)), t.array('old intercept', (k,))))
    if m is None:
        return
    p.zeros(est)
    n, d, X, codes = p.n, p.d, p.X, p.codes
    W, b = est.coef_, est.intercept_

    def eta(i, c):
        return t.sum(d, lambda j: t.at(X, i, j) * t.at(W, c, j)) + t.at(b, c)

    def loss(i):
        if k == 1:
            return t.ite(t.at(codes, i) == 1, t.log(1 + t.exp(-eta(i, 0))), t.log(1 + t.exp(eta(i, 0))))
        return t.log(t.sum(k, lambda c: t.exp(eta(i, c)))) - t.sum(k, lambda c: t.ite(t.at(codes, i) == c, eta(i, c), 0))
    want = t.sum(n, lambda i: (t.at(p.sw, i) if p.weighted else 1) * loss(i)) / n \
        + p.alpha / 2 * t.sum((k, d), lambda c, j: t.at(W, c, j) * t.at(W, c, j))
    t.ensure_eq('the objective is the penalised loss of what is reported', m.value, want)


def places(t, k, penalty):
    """the absolute penalty covers the coefficients and nothing else"""
    p = Problem(t, k, penalty)
    est, m = p.fit('places')
    if m is None:
        return
    c0, lo, hi = m.penalty
    t.ensure_eq('the weight of the penalty', c0, 1. / p.C)
    t.ensure_eq('as many penalised coordinates as coefficients', hi - lo, k * p.d)
    t.each((k, p.d), lambda c, j: t.ensure('coefficients are penalised', t.and_(
        lo < t.at(est.coef_, c, j), t.at(est.coef_, c, j) <= hi)))
    if p.icpt:
        t.each(k, lambda c: t.ensure('intercepts are not', t.or_(t.at(est.intercept_, c) <= lo, t.at(est.intercept_, c) > hi)))


def gradient(t, k, penalty):
    """the gradient handed to the minimiser is that of the loss, coordinate by coordinate"""
    p = Problem(t, k, penalty, weights=True)
    names, m = p.fit('places')
    if m is None:
        return
    est, m = p.fit('gradient')
    n, d, X, codes = p.n, p.d, p.X, p.codes

    def w(c, j):
        return t.ite(p.on(c, j), t.at(est.coef_, c, j), 0)

    def eta(i, c):
        return t.sum(d, lambda j: t.at(X, i, j) * w(c, j)) + t.at(est.intercept_, c)

    def err(i, c):
        """derivative of the loss of one sample by the linear predictor of row c"""
        s = t.at(p.sw, i) if p.weighted else 1
        if k == 1:
            return s * (1 / (1 + t.exp(-eta(i, 0))) - t.ite(t.at(codes, i) == 1, 1, 0))
        return s * (t.exp(eta(i, c)) / t.sum(k, lambda e: t.exp(eta(i, e))) - t.ite(t.at(codes, i) == c, 1, 0))

    def coef(c, j):
        at = t.whole(t.at(names.coef_, c, j) - 1)
        if p.masked and not p.on(c, j):
            if at >= 0:
                t.ensure('the gradient by a masked coefficient is zero', t.at(m.grad, at) == 0)
                t.ensure('a masked coefficient starts at zero', t.at(m.start, at) == 0)
            return
        t.ensure_eq('gradient by a free coefficient', t.at(m.grad, at),
                    t.sum(n, lambda i: err(i, c) * t.at(X, i, j)) / n + p.alpha * w(c, j), tol=1e-6)
    for c in range(k):
        t.each(d, lambda j: coef(c, j))
        if p.icpt:
            t.ensure_eq('gradient by an intercept', t.at(m.grad, t.whole(t.at(names.intercept_, c) - 1)),
                        t.sum(n, lambda i: err(i, c)) / n, tol=1e-6)


@contract('P09', funcs=FUNCS, n=60, proof=False, bounded='whole fits with the real minimisers, optimality of what is reported within 2%')
def whole_fits(t):
    np = t.np
    k = t.choice('classes', [1, 2, 3])
    penalty = t.choice('penalty', ['l1', 'l2'])
    p = Problem(t, k, penalty, weights=True)
    std = t.boolean('standardize')
    t.requires(p.n >= 8)
    mask = None if p.mask is None else p.mask.copy()
    X = p.X + 0.
    if std:
        t.requires(bool((X.std(axis=0) > 0.1).all()))
    est = t.mod(LG).MaskedCoefLogisticRegression(standardize=std, tol=1e-5, **p.options)
    try:
        est.fit(X, p.y, sample_weight=p.sw, coef_mask=mask)
    except t.mod('pyuoi.lbfgs._lowlevel').LBFGSError:
        return          # a line search gave up: no result to judge
    t.ensure('the mask is unchanged', mask is None or bool((mask == p.mask).all()))
    W, b = est.coef_, est.intercept_
    on = np.ones((k, p.d), bool) if mask is None else mask.reshape(k, p.d)
    t.ensure('masked coefficients are exactly zero', bool((W[~on] == 0).all()))
    if std:
        s, mu = X.std(axis=0), X.mean(axis=0) if p.icpt else 0.
        b, W, X = b + (W @ (mu * np.ones(p.d)) if p.icpt else 0.), W * s, (X - mu) / s
    e = X @ W.T + b
    if k == 1:
        r = 1 / (1 + np.exp(-e)) - (p.codes == 1)[:, None]
    else:
        q = np.exp(e - e.max(axis=1)[:, None])
        r = q / q.sum(axis=1)[:, None] - (p.codes[:, None] == np.arange(k))
    r = r * (1 if p.sw is None else p.sw[:, None])
    g = r.T @ X / p.n + p.alpha * W
    tol = 2e-2
    if penalty == 'l1':
        c = 1. / p.C
        bad = np.where(W == 0, np.maximum(np.abs(g) - c, 0), np.abs(g + c * np.sign(W)))
    else:
        bad = np.abs(g)
    t.ensure('free coefficients are optimal', bool((bad[on] <= tol).all()))
    if p.icpt:
        t.ensure('intercepts are optimal', bool((np.abs(r.sum(axis=0)) / p.n <= tol).all()))
    else:
        t.ensure('no intercept', bool((est.intercept_ == 0).all()))


for _p in ('l1', 'l2'):
    for _f in (start, objective, gradient) + ((places,) if _p == 'l1' else ()):
        for _k in (1, 2, 3):
            contract('P09', funcs=FUNCS, n=60, budget=150, name='%s_%s_%d' % (_p, _f.__name__, _k))(
                lambda t, k=_k, p=_p, f=_f: f(t, k, p))
