"""P21: Poisson predictions are the mean and mode of the fitted model."""
from pydv.api import contract

PO = 'pyuoi.linear_model.poisson'
NEG = -float('inf')


def check(t, est, coef, icpt, tag=''):
    """predictions of est against exp(icpt + X coef) on new rows"""
    m, d = t.dim('m' + tag), t.shape(coef)[-1]
    Z = t.array('Z' + tag, (m, d), lo=-2, hi=2)

    def mean(i):
        return t.exp(icpt + t.sum(d, lambda j: t.at(Z, i, j) * (t.at(coef, j) if t.ndim(coef) == 1 else t.at(coef, 0, j))))
    t.ensure_array('mean', est.predict_mean(Z), (m,), mean)
    t.ensure_array('mode', est.predict(Z), (m,), lambda i: t.floor(mean(i)))


@contract('P21', funcs=[PO + '.Poisson.predict', PO + '.Poisson.predict_mean'], n=120)
def fitted(t):
    cls = t.choice('class', ['Poisson', 'UoI_Poisson'])
    est = getattr(t.mod(PO), cls)()
    d = t.dim('d')
    coef = t.array('coef', (d,), lo=-1, hi=1)
    b = t.real('b', lo=-2, hi=2)
    est.coef_ = coef.copy()
    est.intercept_ = b if cls == 'Poisson' else t.np.array([b])
    check(t, est, coef, b)


@contract('P21', funcs=[PO + '.Poisson.predict', PO + '.Poisson.predict_mean'], n=6)
def not_fitted(t):
    est = getattr(t.mod(PO), t.choice('class', ['Poisson', 'UoI_Poisson']))()
    m, d = t.dim('m'), t.dim('d')
    Z = t.array('Z', (m, d))
    NF = t.mod(PO).check_is_fitted
    exc = NotFitted(t)
    for f in (est.predict, est.predict_mean):
        bad, r = t.raises(exc, lambda: f(Z))
        t.ensure('NotFittedError', bad)


def NotFitted(t):
    if t.symbolic:
        from pydv.ext import NotFittedError
    else:
        from sklearn.exceptions import NotFittedError
    return NotFittedError


@contract('P21', funcs=[PO + '.Poisson.fit', PO + '.Poisson._post_fit', PO + '.Poisson.predict_mean', PO + '.Poisson.predict'], n=100)
def single_fit(t):
    """whatever the solver finds, predictions on the training inputs are those of its model"""
    m = t.mod(PO)
    solver = t.choice('solver', ['lbfgs', 'cd'])
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    n, d = t.dim('n', lo=2), t.dim('d')
    X = t.array('X', (n, d))
    y = t.array('y', (n,), kind='i', lo=0, hi=4)
    t.requires(t.any(n, lambda i: t.not_(t.at(y, i) == t.at(y, 0))))
    sol = t.array('sol', (d,), lo=-1, hi=1)
    b = t.real('b', lo=-2, hi=2) if icpt else 0
    seen = []
    est = m.Poisson(standardize=std, fit_intercept=icpt, solver=solver)
    if solver == 'lbfgs':
        def run(f, x0, *a, args=(), **kw):
            seen.append(args[0])
            return t.np.append(sol, b) if icpt else sol.copy()
        t.stub('pyuoi.lbfgs', 'fmin_lbfgs', run, users=[PO])
    else:
        def cd(X, y, sample_weight=None):
            seen.append(X)
            return sol.copy(), b
        est._cd = cd
    est.fit(X.copy(), y.copy())
    Xs = seen[0]
    t.ensure_shape('one coefficient per feature', est.coef_, (d,))

    def mean(i):
        return t.exp(t.sum(d, lambda j: t.at(Xs, i, j) * t.at(sol, j)) + b)
    t.ensure_array('mean', est.predict_mean(X), (n,), mean)
    t.ensure_array('mode', est.predict(X), (n,), lambda i: t.floor(mean(i)), tol=0.999)
    check(t, est, est.coef_, est.intercept_, '2')


@contract('P21', funcs=[PO + '.Poisson.fit', PO + '.UoI_Poisson._fit_intercept', PO + '.UoI_Poisson._post_fit'], n=100)
def constant_response(t):
    m = t.mod(PO)
    cls = t.choice('class', ['Poisson', 'UoI_Poisson'])
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    n, d, k = t.dim('n', lo=2), t.dim('d'), t.dim('m')
    X = t.array('X', (n, d))
    Z = t.array('Z', (k, d))
    v = t.integer('v', lo=1, hi=5)
    y = t.table((n,), lambda i: v, kind='i')
    est = getattr(m, cls)(fit_intercept=icpt, standardize=std)
    est.fit(X, y)
    want = v if icpt else 1
    t.ensure_array('coefficients', est.coef_, (d,), lambda j: 0)
    t.ensure_array('mean', est.predict_mean(Z), (k,), lambda i: want)
    if t.symbolic:
        # floor of exp(log v) is v
        t.ensure_array('mode', est.predict(Z), (k,), lambda i: t.floor(want))


@contract('P21', funcs=[PO + '.Poisson.fit', PO + '.UoI_Poisson._fit_intercept', PO + '.UoI_Poisson._post_fit'], n=60)
def all_zero_response(t):
    m = t.mod(PO)
    cls = t.choice('class', ['Poisson', 'UoI_Poisson'])
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    n, d, k = t.dim('n', lo=2), t.dim('d'), t.dim('m')
    X = t.array('X', (n, d))
    Z = t.array('Z', (k, d))
    est = getattr(m, cls)(fit_intercept=icpt, standardize=std)
    est.fit(X, t.np.zeros(n))
    want = 0 if icpt else 1
    t.ensure_array('coefficients', est.coef_, (d,), lambda j: 0)
    t.ensure_array('mean', est.predict_mean(Z), (k,), lambda i: want)
    t.ensure_array('mode', est.predict(Z), (k,), lambda i: want)


@contract('P21', funcs=[PO + '.UoI_Poisson._fit_intercept', PO + '.UoI_Poisson._post_fit', PO + '.UoI_Poisson._pre_fit'], n=100)
def aggregated_fit(t):
    """prediction after the last stage of the fit, for any aggregated coefficients"""
    m = t.mod(PO)
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    n, d = t.dim('n', lo=2), t.dim('d')
    X = t.array('X', (n, d))
    y = t.array('y', (n,), kind='i', lo=0, hi=4)
    tot = t.sum(n, lambda i: t.at(y, i))
    t.requires(t.any(n, lambda i: t.not_(t.at(y, i) == 0)))
    t.requires(tot > 0)
    c = t.array('c', (1, d), lo=-1, hi=1)
    est = m.UoI_Poisson(fit_intercept=icpt, standardize=std)
    Xs, ys = est._pre_fit(X, y)
    est.coef_ = c.copy()
    est._fit_intercept(Xs, ys)
    b = t.at(est.intercept_, 0) if icpt else 0
    est._post_fit(Xs, ys)

    def mean(i):
        return t.exp(t.sum(d, lambda j: t.at(Xs, i, j) * t.at(c, 0, j)) + b)
    t.ensure_array('mean', est.predict_mean(X), (n,), mean)
    t.ensure_array('mode', est.predict(X), (n,), lambda i: t.floor(mean(i)), tol=0.999)
    if icpt:
        t.ensure_eq('total mean is the total count', t.sum(n, mean), tot, tol=1e-6)


@contract('P21', funcs=[PO + '.PoissonInterceptFitterNoFeatures.predict', PO + '.PoissonInterceptFitterNoFeatures.predict_mean'], n=60)
def no_feature(t):
    m = t.mod(PO)
    n, k, d = t.dim('n'), t.dim('m'), t.dim('d', lo=0)
    y = t.array('y', (n,), kind='i', lo=0, hi=t.choice('top', [0, 4]))
    Z = t.np.zeros((k, d))
    f = m.PoissonInterceptFitterNoFeatures(y)
    tot = t.sum(n, lambda i: t.at(y, i))
    if t.any(n, lambda i: t.not_(t.at(y, i) == 0)):
        t.requires(tot > 0)
        t.ensure_array('mean', f.predict_mean(Z), (k,), lambda i: tot / n)
        t.ensure_array('mode', f.predict(Z), (k,), lambda i: t.floor(tot / n), tol=0.999)
    else:
        t.ensure_array('mean', f.predict_mean(Z), (k,), lambda i: 0)
        t.ensure_array('mode', f.predict(Z), (k,), lambda i: 0)


@contract('P21', funcs=[PO + '.Poisson.fit', PO + '.UoI_Poisson.predict'], n=16, proof=False,
          bounded='complete fits, n <= 24, d <= 3, 2 bootstraps')
def whole_fits(t):
    m = t.mod(PO)
    np = t.np
    cls = t.choice('class', ['Poisson', 'UoI_Poisson'])
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    solver = t.choice('solver', ['lbfgs', 'cd'])
    n, d = t.integer('n', lo=12, hi=24), t.integer('d', lo=1, hi=3)
    X = t.array('X', (n, d), lo=-1, hi=1) + t.choice('shift', [0., 0.5])
    y = t.array('y', (n,), kind='i', lo=0, hi=t.choice('top', [0, 1, 3]))
    kw = dict(fit_intercept=icpt, standardize=std, solver=solver)
    if cls == 'UoI_Poisson':
        kw.update(n_boots_sel=2, n_boots_est=2, n_lambdas=4, random_state=t.integer('seed', lo=0, hi=9))
    else:
        kw.update(alpha=t.choice('alpha', [0., 0.1, 100.]), l1_ratio=1.)
    est = getattr(m, cls)(**kw)
    est.fit(X, y)
    t.ensure_shape('coefficients', est.coef_, (d,))
    mu = np.exp(X @ est.coef_ + est.intercept_)
    t.ensure_array('mean', est.predict_mean(X), (n,), lambda i: mu[i])
    t.ensure_array('mode', est.predict(X), (n,), lambda i: np.floor(mu[i]))
    if icpt and cls == 'UoI_Poisson':
        t.ensure_eq('total', float(mu.sum()), float(y.sum()), tol=1e-5)
    if not icpt:
        t.ensure('zero intercept', not np.any(est.intercept_))
