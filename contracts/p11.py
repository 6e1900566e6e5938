"""P11: intercepts are the maximum-likelihood ones."""
from pydv.api import contract

B = 'pyuoi.linear_model.base'
LG = 'pyuoi.linear_model.logistic'
PO = 'pyuoi.linear_model.poisson'
LINEAR = {'lasso': ('pyuoi.linear_model.lasso', 'UoI_Lasso'),
          'elasticnet': ('pyuoi.linear_model.elasticnet', 'UoI_ElasticNet')}
EPS = 1e-10


@contract('P11', funcs=[B + '.LinearInterceptFitterNoFeatures.__init__', B + '.LinearInterceptFitterNoFeatures.predict',
                        B + '.AbstractUoILinearRegressor._fit_intercept_no_features'], n=100)
def linear_constant(t):
    md, cl = LINEAR[t.choice('class', ['lasso', 'elasticnet'])]
    n, m, d = t.dim('n'), t.dim('m'), t.dim('d')
    y = t.array('y', (n,))
    Z = t.array('Z', (m, d))
    f = getattr(t.mod(md), cl)()._fit_intercept_no_features(y)
    mean = t.sum(n, lambda i: t.at(y, i)) / n
    t.ensure_eq('the mean', f.intercept_, mean)
    t.ensure_array('predicted for every input', f.predict(Z), (m,), lambda i: mean)


@contract('P11', funcs=[B + '.AbstractUoILinearRegressor._fit_intercept'], n=150)
def linear_refit(t):
    """the derivative of the squared error by the intercept vanishes"""
    md, cl = LINEAR[t.choice('class', ['lasso', 'elasticnet'])]
    n, d = t.dim('n'), t.dim('d')
    icpt = t.boolean('fit_intercept')
    X, y, c = t.array('X', (n, d)), t.array('y', (n,)), t.array('c', (1, d))
    est = getattr(t.mod(md), cl)(fit_intercept=icpt)
    est.coef_ = c.copy()
    est._fit_intercept(X, y)
    if not icpt:
        t.ensure_array('zero without intercept', est.intercept_, (1,), lambda i: 0)
        return
    if not t.ensure_shape('one intercept', est.intercept_, (1,)):
        return
    b = t.at(est.intercept_, 0)
    t.ensure_eq('stationary', t.sum(n, lambda i: t.at(y, i) - t.sum(d, lambda j: t.at(X, i, j) * t.at(c, 0, j)) - b), 0)
    t.ensure_array('coefficients kept', est.coef_, (1, d), lambda o, j: t.at(c, 0, j))


@contract('P11', funcs=[LG + '.LogisticInterceptFitterNoFeatures.__init__', LG + '.LogisticInterceptFitterNoFeatures.predict_proba',
                        LG + '.LogisticInterceptFitterNoFeatures.predict', LG + '.UoI_L1Logistic._fit_intercept_no_features'], n=150)
def binary_constant(t):
    m = t.mod(LG)
    n, k, d = t.dim('n'), t.dim('m'), t.dim('d')
    yb = t.array('yb', (n,), kind='b')
    y = t.table((n,), lambda i: t.ite(t.at(yb, i), 1, 0), kind='i')
    Z = t.array('Z', (k, d))
    est = m.UoI_L1Logistic()
    est.output_dim = 1
    f = est._fit_intercept_no_features(y)
    p = t.sum(n, lambda i: t.at(y, i)) / n
    q = t.minimum(t.maximum(p, EPS), 1 - EPS)
    b = f.intercept_
    t.ensure_eq('log-odds of the frequency', 1 / (1 + t.exp(-b)), q)
    t.ensure_array('probability for every input', f.predict_proba(Z), (k,), lambda i: q)
    g = f.predict(Z)
    # the log-odds q/(1-q) are at least 1 exactly when q is at least 1/2
    t.ensure_array('more frequent class', g, (k,), lambda i: t.ite(b >= 0, 1, 0))


@contract('P11', funcs=[LG + '.LogisticInterceptFitterNoFeatures.__init__', LG + '.LogisticInterceptFitterNoFeatures.predict_proba',
                        LG + '.LogisticInterceptFitterNoFeatures.predict', LG + '.UoI_L1Logistic._fit_intercept_no_features'], n=200)
def multinomial_constant(t):
    m = t.mod(LG)
    K = t.choice('K', [2, 3] if t.symbolic else [2, 3, 4])
    n, q, d = t.dim('n'), t.dim('m'), t.dim('d')
    y = t.array('y', (n,), kind='i', lo=0, hi=K - 1)
    Z = t.array('Z', (q, d))
    est = m.UoI_L1Logistic()
    est.output_dim = K
    f = est._fit_intercept_no_features(y)
    b = f.intercept_
    if not t.ensure_shape('one intercept per class', b, (K,)):
        return
    pr = f.predict_proba(Z)
    t.ensure_shape('probabilities', pr, (q, K))
    freq = [t.sum(n, lambda i: t.ite(t.at(y, i) == c, 1, 0)) / n for c in range(K)]
    tot = sum(t.exp(t.at(b, c)) for c in range(K))
    unseen = 0
    for c in range(K):
        unseen = unseen + t.ite(freq[c] == 0, 1, 0)
    # unseen classes get mass EPS each, the others share the rest in proportion
    for c in range(K):
        want = t.ite(freq[c] == 0, EPS, freq[c] * (1 - EPS * unseen))
        t.ensure_eq('class frequency', t.at(b, c) - t.at(b, 0),
                    t.log(want) - t.log(t.ite(freq[0] == 0, EPS, freq[0] * (1 - EPS * unseen))), tol=1e-6)
        t.each(q, lambda i: t.ensure_eq('probability for every input', t.at(pr, i, c), t.exp(t.at(b, c)) / tot))


@contract('P11', funcs=[PO + '.PoissonInterceptFitterNoFeatures.__init__', PO + '.UoI_Poisson._fit_intercept_no_features',
                        PO + '.PoissonInterceptFitterNoFeatures.predict_mean'], n=150)
def poisson_constant(t):
    m = t.mod(PO)
    n, k, d = t.dim('n'), t.dim('m'), t.dim('d')
    y = t.array('y', (n,), kind='i', lo=0, hi=t.choice('top', [0, 4]))
    Z = t.array('Z', (k, d))
    f = m.UoI_Poisson()._fit_intercept_no_features(y)
    tot = t.sum(n, lambda i: t.at(y, i))
    if t.any(n, lambda i: t.not_(t.at(y, i) == 0)):
        t.requires(tot > 0)
        t.ensure_eq('log of the mean rate', f.intercept_, t.log(tot / n))
        t.ensure_array('mean rate for every input', f.predict_mean(Z), (k,), lambda i: tot / n)
    else:
        t.ensure('minus infinity for all-zero counts', f.intercept_ == -float('inf'))


@contract('P11', funcs=[PO + '.UoI_Poisson._fit_intercept'], n=150)
def poisson_refit(t):
    """the derivative of the likelihood by the intercept vanishes"""
    m = t.mod(PO)
    n, d = t.dim('n'), t.dim('d')
    icpt = t.boolean('fit_intercept')
    X, c = t.array('X', (n, d), lo=-2, hi=2), t.array('c', (1, d), lo=-1, hi=1)
    y = t.array('y', (n,), kind='i', lo=0, hi=t.choice('top', [0, 4]))
    est = m.UoI_Poisson(fit_intercept=icpt)
    est.coef_ = c.copy()
    est._fit_intercept(X, y)
    b = est.intercept_
    if not icpt:
        t.ensure_array('zero without intercept', b, (1,), lambda i: 0)
        return
    tot = t.sum(n, lambda i: t.at(y, i))
    if t.any(n, lambda i: t.not_(t.at(y, i) == 0)):
        t.requires(tot > 0)
        t.ensure_shape('one intercept', b, (1,))
        t.ensure_eq('stationary', tot, t.sum(n, lambda i: t.exp(
            t.sum(d, lambda j: t.at(X, i, j) * t.at(c, 0, j)) + t.at(b, 0))), tol=1e-6)
    else:
        t.ensure('minus infinity for all-zero counts', b == -float('inf'))


class Opt:
    def __init__(self, x):
        self.x, self.fun, self.success, self.nit = x, 0., True, 1


MIN = 'scipy.optimize.minimize returns a point where the gradient it is given vanishes'


@contract('P11', funcs=[LG + '.fit_intercept_fixed_coef', LG + '.UoI_L1Logistic._fit_intercept'], n=100, assumes=[MIN])
def binary_refit(t):
    """whatever stationary point the optimiser returns is one of the likelihood"""
    m = t.mod(LG)
    icpt = t.boolean('fit_intercept')
    n, d = t.dim('n', lo=2), t.dim('d')
    X = t.array('X', (n, d), lo=-2, hi=2)
    y = t.labels('y', n, 2)
    coef = t.array('coef', (1, d), lo=-1, hi=1)
    est = m.UoI_L1Logistic(fit_intercept=icpt)
    est.output_dim, est.classes_ = 1, t.np.arange(2)
    est.coef_ = coef.copy()
    if t.symbolic:
        b = t.array('b', (1,))

        def minimize(fun, x0, args=(), method=None, jac=None, **kw):
            val, g = fun(b.copy(), *args)
            t.assume_fact(t.at(g, 0) == 0, MIN)
            return Opt(b.copy())
        t.stub('scipy.optimize', 'minimize', minimize, users=[LG])
    est._fit_intercept(X, y)
    r = est.intercept_
    if not icpt:
        t.ensure_array('zero without intercept', r, (1,), lambda c: 0)
        return
    if t.ensure_shape('one intercept', r, (1,)):
        t.ensure_eq('stationary', t.sum(n, lambda i: 1 / (1 + t.exp(-t.sum(d, lambda j: t.at(X, i, j) * t.at(coef, 0, j)) - t.at(r, 0)))),
                    t.sum(n, lambda i: t.at(y, i)), tol=2e-3)


@contract('P11', funcs=[LG + '.fit_intercept_fixed_coef', LG + '.UoI_L1Logistic._fit_intercept'], n=120, assumes=[MIN])
def multinomial_refit(t):
    m = t.mod(LG)
    K = t.dim('K', lo=2, hi=4)
    icpt = t.boolean('fit_intercept')
    n, d = t.dim('n', lo=4), t.dim('d')
    X = t.array('X', (n, d), lo=-2, hi=2)
    y = t.array('y', (n,), kind='i', lo=0, hi=K - 1)
    coef = t.array('coef', (K, d), lo=-1, hi=1)
    e0 = t.integer('c', lo=0, hi=K - 2)
    est = m.UoI_L1Logistic(fit_intercept=icpt)
    est.output_dim, est.classes_ = K, t.np.arange(K)
    est.coef_ = coef.copy()
    if t.symbolic:
        b = t.array('b', (K - 1,))

        def minimize(fun, x0, args=(), method=None, jac=None, **kw):
            val, g = fun(b.copy(), *args)
            t.assume_fact(t.at(g, e0) == 0, MIN)
            return Opt(b.copy())
        t.stub('scipy.optimize', 'minimize', minimize, users=[LG])
    else:
        t.requires(all((y == c).any() for c in range(K)))
    est._fit_intercept(X, y)
    r = est.intercept_
    if not icpt:
        t.ensure_array('zero without intercept', r, (K,), lambda c: 0)
        return
    if not t.ensure_shape('one intercept per class', r, (K,)):
        return

    def p(i, c):
        return t.exp(t.sum(d, lambda j: t.at(X, i, j) * t.at(coef, c, j)) + t.at(r, c))
    # for every class but the first; the first follows, as probabilities sum to one
    t.ensure_eq('stationary', t.sum(n, lambda i: p(i, e0 + 1) / t.sum(K, lambda e: p(i, e))),
                t.sum(n, lambda i: t.ite(t.at(y, i) == e0 + 1, 1, 0)), tol=2e-3)


@contract('P11', funcs=[B + '.AbstractUoILinearModel.fit', B + '.AbstractUoILinearRegressor._post_fit'], n=60)
def constant_linear_fit(t):
    """a constant response is fitted by its value"""
    md, cl = LINEAR[t.choice('class', ['lasso', 'elasticnet'])]
    n, d = t.dim('n', lo=2), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    v = t.real('v', lo=-3, hi=3)
    y = t.table((n,), lambda i: v)
    est = getattr(t.mod(md), cl)(fit_intercept=icpt, standardize=std)
    est.fit(X, y)
    t.ensure_array('no feature', est.coef_, (d,), lambda j: 0)
    t.ensure_array('intercept', est.intercept_, (1,), lambda j: v if icpt else 0)


@contract('P11', funcs=[B + '.AbstractUoILinearModel.fit', PO + '.UoI_Poisson._post_fit', PO + '.UoI_Poisson._fit_intercept'], n=60)
def constant_poisson_fit(t):
    n, d = t.dim('n', lo=2), t.dim('d')
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    v = t.integer('v', lo=1, hi=5)
    y = t.table((n,), lambda i: v, kind='i')
    est = t.mod(PO).UoI_Poisson(fit_intercept=icpt, standardize=std)
    est.fit(X, y)
    t.ensure_array('no feature', est.coef_, (d,), lambda j: 0)
    t.ensure_array('intercept', est.intercept_, (1,), lambda j: t.log(v) if icpt else 0)


@contract('P11', funcs=[B + '.AbstractUoILinearModel.fit', LG + '.UoI_L1Logistic._fit_intercept'], n=30, proof=False,
          bounded='constant responses, n <= 8, d <= 3, real optimiser')
def constant_classifier_fit(t):
    n, d = t.integer('n', lo=3, hi=8), t.integer('d', lo=1, hi=3)
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    X = t.array('X', (n, d))
    lab = t.choice('label', [0, 1, 7, -2])
    est = t.mod(LG).UoI_L1Logistic(fit_intercept=icpt, standardize=std, estimation_score=t.choice('score', ['acc', 'log', 'BIC']))
    est.fit(X, t.np.full(n, lab))
    t.ensure('no feature', not t.np.any(est.coef_))
    if icpt:
        p = 1 / (1 + t.np.exp(-est.intercept_))
        t.ensure('the only class gets almost all the mass', bool(t.np.all(p < 1e-2)))
    else:
        t.ensure('zero without intercept', not t.np.any(est.intercept_))
    t.ensure('the only label is predicted', bool(t.np.all(est.predict(X) == lab)))


@contract('P11', funcs=[B + '.AbstractUoILinearModel.fit'], n=40, proof=False, bounded='complete fits, n <= 30, d <= 4, 3 bootstraps')
def whole_fits(t):
    """the reported intercept is stationary at the reported coefficients; zero without intercept"""
    np = t.np
    kind = t.choice('class', ['lasso', 'elasticnet', 'logistic', 'multinomial', 'poisson'])
    icpt, std = t.boolean('fit_intercept'), t.boolean('standardize')
    n, d = t.integer('n', lo=20, hi=30), t.integer('d', lo=1, hi=4)
    X = t.array('X', (n, d), lo=-1, hi=1)
    w = t.array('w', (d,), lo=-1, hi=1)
    noise = t.array('noise', (n,), lo=-0.3, hi=0.3)
    eta = X @ w + noise + 0.2
    kw = dict(n_boots_sel=3, n_boots_est=3, fit_intercept=icpt, standardize=std, random_state=t.integer('seed', lo=0, hi=99))
    if kind in LINEAR:
        md, cl = LINEAR[kind]
        est = getattr(t.mod(md), cl)(**kw).fit(X, eta)
        g = np.mean(eta - X @ est.coef_ - est.intercept_)
    elif kind == 'poisson':
        y = np.floor(np.exp(eta))
        t.requires(y.any())
        est = t.mod(PO).UoI_Poisson(n_lambdas=6, **kw).fit(X, y)
        g = np.mean(y - np.exp(X @ est.coef_ + est.intercept_))
    else:
        k = 2 if kind == 'logistic' else 3
        y = (eta > 0).astype(int) if k == 2 else np.digitize(eta, [-0.3, 0.3])
        t.requires(np.min(np.bincount(y, minlength=k)) >= 4)
        est = t.mod(LG).UoI_L1Logistic(n_C=6, **kw).fit(X, y, stratify=y)
        # (nearly separable data: the iteration stops where the clipped likelihood is flat)
        t.requires(np.abs(est.coef_).max() < 8)
        P = est.predict_proba(X)
        g = np.max(np.abs(P.mean(axis=0) - np.eye(k)[y].mean(axis=0)))
    if icpt:
        t.ensure_eq('stationary', float(g), 0, tol=2e-3)
    else:
        t.ensure('zero without intercept', not np.any(est.intercept_))
