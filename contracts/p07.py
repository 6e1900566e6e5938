"""P07: standardised fits report the model in the user's units."""
from pydv.api import contract

B = 'pyuoi.linear_model.base'
LG = 'pyuoi.linear_model.logistic'
PO = 'pyuoi.linear_model.poisson'


def predictor(t, X, coef, icpt, d):
    return lambda i, c: t.sum(d, lambda j: t.at(X, i, j) * t.at(coef, c, j)) + t.at(icpt, c)


def affine(t, n, f, centre):
    """location and scale by which a column is standardised"""
    mean = t.sum(n, f) / n
    var = t.sum(n, lambda i: (f(i) - mean) * (f(i) - mean)) / n
    return (mean if centre else 0), t.sqrt(t.ite(var == 0, 1, var))


LINEAR = {'lasso': ('pyuoi.linear_model.lasso', 'UoI_Lasso'),
          'elasticnet': ('pyuoi.linear_model.elasticnet', 'UoI_ElasticNet')}


@contract('P07', funcs=[B + '.AbstractUoILinearModel._pre_fit', B + '.AbstractUoILinearModel._post_fit',
                        B + '.AbstractUoILinearRegressor._pre_fit', B + '.AbstractUoILinearRegressor._post_fit'], n=150)
def linear(t):
    md, cl = LINEAR[t.choice('class', ['lasso', 'elasticnet'])]
    n, d = t.dim('n', lo=2), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X, y = t.array('X', (n, d)), t.array('y', (n,))
    c = t.array('c', (1, d))
    b = t.array('b', (1,)) if icpt else t.np.zeros(1)
    est = getattr(t.mod(md), cl)(standardize=std, fit_intercept=icpt)
    col = t.boolean('column')
    Xs, ys = est._pre_fit(X.copy(), y[:, None].copy() if col else y.copy())
    est.coef_, est.intercept_ = c.copy(), b.copy()
    if std:
        my, sy = affine(t, n, lambda i: t.at(y, i), icpt)
    else:
        my, sy = 0, 1
    t.ensure_array('internal response', ys, (n,), lambda i: (t.at(y, i) - my) / sy)
    internal = predictor(t, Xs, c, b, d)
    if not std:
        t.ensure_array('inputs unchanged', Xs, (n, d), lambda i, j: t.at(X, i, j))
    else:
        def xs(i, j):
            m, s = affine(t, n, lambda e: t.at(X, e, j), icpt)
            return (t.at(X, i, j) - m) / s
        t.ensure_array('internal inputs', Xs, (n, d), xs)
    est._post_fit(Xs, ys)
    if not t.ensure_shape('one coefficient per feature', est.coef_, (d,)):
        return
    ic = est.intercept_
    t.ensure_shape('one intercept', ic, (1,))
    t.each(n, lambda i: t.ensure_eq('linear predictor in the units of y',
                                    t.sum(d, lambda j: t.at(X, i, j) * t.at(est.coef_, j)) + t.at(ic, 0),
                                    internal(i, 0) * sy + my))
    if not icpt:
        t.ensure_eq('no intercept', t.at(ic, 0), 0)
    t.each(d, lambda j: t.ensure('zero exactly where it was zero',
                                 t.and_(t.implies(t.at(c, 0, j) == 0, t.at(est.coef_, j) == 0),
                                        t.implies(t.at(est.coef_, j) == 0, t.at(c, 0, j) == 0))))


@contract('P07', funcs=[B + '.AbstractUoIGeneralizedLinearRegressor._post_fit', LG + '.UoI_L1Logistic._pre_fit'], n=150)
def logistic_uoi(t):
    k = t.choice('outputs', [1, 3])
    n, d = t.dim('n', lo=3), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    y, _, _ = t.labels('y', n, max(k, 2), user=True)
    c = t.array('c', (k, d))
    b = t.array('b', (k,)) if icpt else t.np.zeros(k)
    est = t.mod(LG).UoI_L1Logistic(standardize=std, fit_intercept=icpt)
    Xs, ys = est._pre_fit(X.copy(), y.copy())
    est.coef_, est.intercept_ = c.copy(), b.copy()
    internal = predictor(t, Xs, c, b, d)
    est._post_fit(Xs, ys)
    t.ensure_shape('coefficients', est.coef_, (k, d))
    t.ensure_shape('intercepts', est.intercept_, (k,))
    new = predictor(t, X, est.coef_, est.intercept_, d)
    for o in range(k):
        t.each(n, lambda i: t.ensure_eq('linear predictor', new(i, o), internal(i, o)))
        t.each(d, lambda j: t.ensure('zero exactly where it was zero',
                                     t.and_(t.implies(t.at(c, o, j) == 0, t.at(est.coef_, o, j) == 0),
                                            t.implies(t.at(est.coef_, o, j) == 0, t.at(c, o, j) == 0))))


@contract('P07', funcs=[LG + '.MaskedCoefLogisticRegression._pre_fit', LG + '.MaskedCoefLogisticRegression._post_fit'], n=150)
def logistic_masked(t):
    k = t.choice('outputs', [1, 3])
    n, d = t.dim('n', lo=3), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    y, _, _ = t.labels('y', n, max(k, 2), user=True)
    c = t.array('c', (k, d))
    b = t.array('b', (k,)) if icpt else t.np.zeros(k)
    est = t.mod(LG).MaskedCoefLogisticRegression(standardize=std, fit_intercept=icpt)
    Xs, ys = est._pre_fit(X.copy(), y.copy())
    est.coef_, est.intercept_ = c.copy(), b.copy()
    internal = predictor(t, Xs, c, b, d)
    est._post_fit(Xs, ys)
    t.ensure_shape('coefficients', est.coef_, (k, d))
    new = predictor(t, X, est.coef_, est.intercept_, d)
    for o in range(k):
        t.each(n, lambda i: t.ensure_eq('linear predictor', new(i, o), internal(i, o)))
        t.each(d, lambda j: t.ensure('zero exactly where it was zero',
                                     t.and_(t.implies(t.at(c, o, j) == 0, t.at(est.coef_, o, j) == 0),
                                            t.implies(t.at(est.coef_, o, j) == 0, t.at(c, o, j) == 0))))


@contract('P07', funcs=[PO + '.UoI_Poisson._pre_fit', PO + '.UoI_Poisson._post_fit', PO + '.UoI_Poisson.__init__'], n=150)
def poisson_uoi(t):
    n, d = t.dim('n', lo=2), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    y = t.array('y', (n,), kind='i', lo=0, hi=4)
    c = t.array('c', (1, d))
    b = t.array('b', (1,)) if icpt else t.np.zeros(1)
    est = t.mod(PO).UoI_Poisson(standardize=std, fit_intercept=icpt)
    Xs, ys = est._pre_fit(X.copy(), y.copy())
    est.coef_, est.intercept_ = c.copy(), b.copy()
    internal = predictor(t, Xs, c, b, d)
    est._post_fit(Xs, ys)
    if not t.ensure_shape('one coefficient per feature', est.coef_, (d,)):
        return
    t.each(n, lambda i: t.ensure_eq('linear predictor',
                                    t.sum(d, lambda j: t.at(X, i, j) * t.at(est.coef_, j)) + t.at(est.intercept_, 0),
                                    internal(i, 0)))
    t.each(d, lambda j: t.ensure('zero exactly where it was zero',
                                 t.and_(t.implies(t.at(c, 0, j) == 0, t.at(est.coef_, j) == 0),
                                        t.implies(t.at(est.coef_, j) == 0, t.at(c, 0, j) == 0))))


@contract('P07', funcs=[PO + '.Poisson.fit', PO + '.Poisson._pre_fit', PO + '.Poisson._post_fit'], n=100)
def poisson_fit(t):
    """the solver's solution on its own inputs against the reported model on the raw ones"""
    m = t.mod(PO)
    n, d = t.dim('n', lo=2), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    y = t.array('y', (n,), kind='i', lo=0, hi=4)
    t.requires(t.any(n, lambda i: t.not_(t.at(y, i) == t.at(y, 0))))
    sol = t.array('sol', (d + 1 if icpt else d,))
    seen = []

    def solver(f, x0, *a, args=(), **kw):
        seen.append(args)
        return sol.copy()
    t.stub('pyuoi.lbfgs', 'fmin_lbfgs', solver, users=[PO])
    est = m.Poisson(standardize=std, fit_intercept=icpt, alpha=0.1)
    est.fit(X.copy(), y.copy())
    t.ensure('one optimisation', len(seen) == 1)
    Xs = seen[0][0]
    t.ensure_shape('one coefficient per feature', est.coef_, (d,))
    t.each(n, lambda i: t.ensure_eq(
        'linear predictor',
        t.sum(d, lambda j: t.at(X, i, j) * t.at(est.coef_, j)) + est.intercept_,
        t.sum(d, lambda j: t.at(Xs, i, j) * t.at(sol, j)) + (t.at(sol, d) if icpt else 0)))


@contract('P07', funcs=[B + '.AbstractUoILinearModel.fit'], n=24, proof=False,
          bounded='complete fits, n <= 30, d <= 4, 3 bootstraps')
def end_to_end(t):
    """fitting standardised data without standardising gives the same predictions"""
    kind = t.choice('class', ['lasso', 'elasticnet', 'logistic', 'multinomial'])
    n, d = t.integer('n', lo=20, hi=30), t.integer('d', lo=1, hi=4)
    icpt = t.boolean('fit_intercept')
    np = t.np
    X = t.array('X', (n, d))
    X = X * t.array('scale', (d,), lo=0.5, hi=4) + t.array('shift', (d,), lo=-3, hi=3)
    w = t.array('w', (d,))
    seed = t.integer('seed', lo=0, hi=50)
    noise = t.array('noise', (n,), lo=-0.3, hi=0.3)
    mean, sd = X.mean(axis=0) if icpt else 0., X.std(axis=0)
    sd = np.where(sd == 0, 1., sd)
    Xs = (X - mean) / sd
    eta = Xs @ w + noise
    kw = dict(n_boots_sel=3, n_boots_est=3, fit_intercept=icpt, random_state=seed)
    if kind in LINEAR:
        md, cl = LINEAR[kind]
        C = getattr(t.mod(md), cl)
        y = 3 * eta + (2 if icpt else 0)
        t.requires(y.std() > 0.1)
        my, sy = (y.mean() if icpt else 0.), y.std()
        a = C(standardize=True, **kw).fit(X, y)
        b = C(standardize=False, **kw).fit(Xs, (y - my) / sy)
        t.ensure_array('predictions', a.predict(X), (n,), lambda i: b.predict(Xs)[i] * sy + my, tol=1e-4)
    else:
        C = t.mod(LG).UoI_L1Logistic
        y = (eta > 0).astype(int) if kind == 'logistic' else np.digitize(eta, [-0.5, 0.5])
        t.requires(np.min(np.bincount(y, minlength=2 if kind == 'logistic' else 3)) >= 5)
        a = C(standardize=True, **kw).fit(X, y, stratify=y)
        b = C(standardize=False, **kw).fit(Xs, y, stratify=y)
        pa, pb = a.predict_proba(X), b.predict_proba(Xs)
        t.ensure_array('probabilities', pa, pb.shape, lambda i, c: pb[i, c], tol=2e-3)
