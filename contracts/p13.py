"""P13: the regularisation path."""
from pydv.api import contract
from contracts import p04
from contracts.fitlib import B, LA, LG, Stop, Splits, data

EN = 'pyuoi.linear_model.elasticnet'
PO = 'pyuoi.linear_model.poisson'


def grid(t, top, eps, k, num):
    """k-th of num strengths, logarithmic from top to eps * top"""
    return top * t.exp(t.log(eps) * k / (num - 1))


def flat(t, params, key, shape, f, label, tol=1e-7):
    """params[i * m + k][key] is f(i, k)"""
    a, m = shape
    t.ensure_eq('%s: number of parameter sets' % label, t.len(params), a * m)
    for i in range(a):
        t.each(m, lambda k: t.ensure_eq(label, params[i * m + k][key], f(i, k), tol=tol))


@contract('P13', funcs=[LA + '.UoI_Lasso.get_reg_params', EN + '.UoI_ElasticNet.get_reg_params'], n=100,
          assumes=['sklearn _alpha_grid(X, y, l1_ratio, fit_intercept, eps, n_alphas): the decreasing geometric grid of n_alphas '
                   'values from the smallest all-zero elastic net strength to eps times it (evaluated concretely in whole_paths)'])
def linear_path(t):
    """one sklearn grid per l1 ratio, on the data, options and size of this fit; every value becomes a parameter set"""
    n, d, num = t.dim('n'), t.dim('d'), t.dim('n_lambdas')
    X, y = t.array('X', (n, d)), t.array('y', (n,))
    eps = t.real('eps', lo=0.001, hi=0.5)
    icpt = t.boolean('fit_intercept')
    kind = t.choice('estimator', ['lasso', 'enet'])
    na = 1 if kind == 'lasso' else t.choice('n_alphas', [1, 2, 3])
    m = t.mod(LA if kind == 'lasso' else EN)
    G = t.array('grid', (na, num), lo=0)
    seen = []

    def alpha_grid(X=None, y=None, Xy=None, l1_ratio=1.0, fit_intercept=True, eps=1e-3, n_alphas=100, copy_X=True):
        seen.append((X, y, l1_ratio, fit_intercept, eps, n_alphas, Xy))
        return G[len(seen) - 1].copy()
    t.stub('sklearn.linear_model._coordinate_descent', '_alpha_grid', alpha_grid, users=[LA if kind == 'lasso' else EN])
    if kind == 'lasso':
        est = m.UoI_Lasso(n_lambdas=num, eps=eps, fit_intercept=icpt)
        ratios = [1.]
    else:
        ratios = [t.real('ratio%d' % i, lo=0.1, hi=1.) for i in range(na)]
        est = m.UoI_ElasticNet(n_lambdas=num, alphas=t.np.array(ratios), eps=eps, fit_intercept=icpt)
        if t.boolean('fitted before'):
            est.lambdas = t.array('old lambdas', (na, num), lo=0)
    ps = est.get_reg_params(X, y)
    t.ensure('one grid per ratio', len(seen) == na)
    for i, (a, b, r, fi, e, k, xy) in enumerate(seen):
        t.ensure_array('grid of the data', a, (n, d), lambda p, q: t.at(X, p, q))
        t.ensure_array('grid of the responses', b, (n,), lambda p: t.at(y, p))
        t.ensure_eq('grid of the ratio', r, ratios[i])
        t.ensure('grid of the model', fi is icpt and xy is None)
        t.ensure_eq('span of the grid', e, eps)
        t.ensure_eq('size of the grid', k, num)
    flat(t, ps, 'alpha', (na, num), lambda i, k: t.at(G, i, k), 'strength')
    if kind == 'enet':
        flat(t, ps, 'l1_ratio', (na, num), lambda i, k: t.select(ratios, i), 'l1 ratio')


@contract('P13', funcs=[PO + '.UoI_Poisson.get_reg_params'], n=100)
def poisson_path(t):
    """strongest = largest coefficient gradient of the unpenalised loss at the intercept-only model over the l1 ratio"""
    n, d, num = t.dim('n'), t.dim('d'), t.dim('n_lambdas', lo=2)
    X, y = t.array('X', (n, d)), t.array('y', (n,), lo=0, hi=5)
    eps = t.real('eps', lo=0.001, hi=0.5)
    icpt = t.boolean('fit_intercept')
    na = t.choice('n_alphas', [1, 2])
    ratios = [t.real('ratio%d' % i, lo=0.1, hi=1.) for i in range(na)]
    m = t.mod(PO)
    tot = t.sum(n, lambda i: t.at(y, i))
    t.requires(tot > 0)
    est = m.UoI_Poisson(n_lambdas=num, alphas=t.np.array(ratios), eps=eps, fit_intercept=icpt)
    if t.boolean('fitted before'):
        est.lambdas = t.array('old lambdas', (na, num), lo=0)
    rate = tot / n if icpt else 1
    top = t.max_over(d, lambda j: t.abs(t.sum(n, lambda i: t.at(X, i, j) * (t.at(y, i) - rate)))) / n
    t.requires(top > 0)
    ps = est.get_reg_params(X, y)
    flat(t, ps, 'alpha', (na, num), lambda i, k: grid(t, top / t.select(ratios, i), eps, k, num), 'strength')
    flat(t, ps, 'l1_ratio', (na, num), lambda i, k: t.select(ratios, i), 'l1 ratio')
    # the same numbers from the loss the solver minimises, at the intercept-only model
    w = t.table((d + 1 if icpt else d,), lambda j: t.ite(j == d, t.log(tot / n), 0))
    loss, g = m._poisson_loss_and_grad(w, X, y, 0.)
    t.each(d, lambda j: t.ensure_eq('gradient of the loss of the solver', n * t.abs(t.at(g, j)),
                                    t.abs(t.sum(n, lambda i: t.at(X, i, j) * (t.at(y, i) - rate)))))


def logistic_path(t, k):
    """strongest: 1/C is the largest coefficient gradient of the loss of the solver at the intercept-only model"""
    n, d, num = t.dim('n', lo=2), t.dim('d'), t.dim('n_C', lo=2)
    X = t.array('X', (n, d))
    if k == 1:
        y = t.array('y', (n,), 'b') * 1
        t.requires(t.any(n, lambda i: t.at(y, i) == 1))
        t.requires(t.any(n, lambda i: t.at(y, i) == 0))
    else:
        y = t.labels('y', n, k)
    eps = t.real('eps', lo=0.001, hi=0.5)
    icpt = t.boolean('fit_intercept')
    est = t.mod(LG).UoI_L1Logistic(n_C=num, eps=eps, fit_intercept=icpt)
    est.output_dim = k
    if t.boolean('fitted before'):
        est.Cs = t.array('old Cs', (num,), lo=0)

    def is_(i, c):
        return t.at(y, i) if k == 1 else t.ite(t.at(y, i) == c, 1, 0)

    def count(c):
        return t.sum(n, lambda i: is_(i, c))

    odds = t.generalise('odds', count(1) / (n - count(1))) if k == 1 else None

    def freq(c):
        return count(c) / sum(count(q) for q in range(k)) if icpt and k > 1 else odds / (1 + odds) if icpt else (n - n + 1) / max(k, 2)

    class Empty(object):
        """contract of LogisticInterceptFitterNoFeatures (P11): the model with the class frequencies"""

        def __init__(self, b, output_dim):
            t.ensure_array('intercept of these labels', b, (n,), lambda i: t.at(y, i))
            t.ensure_eq('number of outputs', output_dim, k)
            self.intercept_ = t.table((1,), lambda c: t.log(odds)) if k == 1 else \
                t.np.array([t.log(count(c) / n) for c in range(k)])
    t.stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)
    # gradient of the mean log loss by coefficient j of class c
    cl = [1] if k == 1 else list(range(k))
    tops = [t.max_over(d, lambda j: t.abs(t.sum(n, lambda i: t.at(X, i, j) * (freq(c) - is_(i, c))))) / n for c in cl]
    top = tops[0]
    for x in tops[1:]:
        top = t.maximum(top, x)
    ps = est.get_reg_params(X, y)
    t.requires(top > 0)
    t.ensure_eq('number of parameter sets', t.len(ps), num)
    t.each(num, lambda q: t.ensure_eq('strength', 1 / ps[q]['C'], grid(t, top, eps, q, num)))


for _k in (1, 2, 3):
    contract('P13', funcs=[LG + '.UoI_L1Logistic.get_reg_params'], n=100, name='logistic_path_%d' % _k)(
        lambda t, k=_k: logistic_path(t, k))


@contract('P13', funcs=[B + '.AbstractUoILinearModel.fit'], n=60)
def fit_uses_path(t):
    """the path is computed on the standardised data of this fit and every one of its values is swept in every bootstrap"""
    nb = t.choice('n_boots_sel', [1, 2])
    n, d, n_tr, n_te, idx, X, y = data(t, nb)
    R = t.dim('R')
    X2, y2 = t.array('X2', (n, d)), t.array('y2', (n,))
    lam = t.array('lam', (R,), lo=0, hi=3)
    params = t.seqof(R, lambda k: {'alpha': t.at(lam, k)})
    est = t.mod(LA).UoI_Lasso(n_boots_sel=nb, standardize=False)
    if t.boolean('fitted before'):
        est.reg_params_ = [{'alpha': 1.}]
        est.n_reg_params_ = 1
    est.random_state = t.opaque('rng')
    t.stub('sklearn.model_selection', 'train_test_split', Splits(t, n, idx), users=[B])
    t.requires(t.any(n, lambda i: t.not_(t.at(y2, i) == t.at(y2, 0))))

    def pre(A, b):
        est.output_dim = 1
        return X2, y2
    est._pre_fit = pre
    asked, swept = [], []

    def regs(A, b):
        asked.append(1)
        t.ensure_array('path of the prepared data', A, (n, d), lambda i, j: t.at(X2, i, j))
        t.ensure_array('path of the prepared responses', b, (n,), lambda i: t.at(y2, i))
        return params
    est.get_reg_params = regs

    def sweep(A, b, ps):
        swept.append(1)
        t.ensure_eq('every value', t.len(ps), R)
        t.each(R, lambda k: t.ensure_eq('in the order of the path', ps[k]['alpha'], t.at(lam, k)))
        return t.np.zeros((R, d))
    est.uoi_selection_sweep = sweep

    def inter(coefs, thresholds):
        raise Stop()
    est.intersect = inter
    try:
        est.fit(X, y)
        t.fail('supports are intersected')
    except Stop:
        pass
    t.ensure('one path per fit', len(asked) == 1)
    t.ensure('every bootstrap', len(swept) == nb)
    t.ensure_eq('number of parameters recorded', est.n_reg_params_, R)
    t.ensure_eq('parameters recorded', t.len(est.reg_params_), R)


contract('P13', funcs=[B + '.AbstractUoILinearModel.uoi_selection_sweep'], n=100, name='sweep')(p04.sweep)


@contract('P13', funcs=[LA + '.UoI_Lasso.uoi_selection_sweep'], n=60)
def pathwise_sweep(t):
    """the path-wise solver gets all strengths of the sweep, in order, and the resample"""
    n, d, R = t.dim('n'), t.dim('d'), t.dim('R')
    X, y = t.array('X', (n, d)), t.array('y', (n,))
    lam, out = t.array('lam', (R,), lo=0, hi=3), t.array('coefs', (R, d))
    est = t.mod(LA).UoI_Lasso()
    est.solver = 'pyc'
    est.output_dim = 1

    class Path(object):
        def set_params(self, **kw):
            t.ensure('only the strengths change', list(kw) == ['alphas'])
            t.ensure_array('strengths', kw['alphas'], (R,), lambda k: t.at(lam, k))

        def fit(self, A, b):
            t.ensure_array('rows', A, (n, d), lambda i, j: t.at(X, i, j))
            t.ensure_array('responses', b, (n,), lambda i: t.at(y, i))
            self.coef_ = out.copy()
            return self
    est._selection_lm = Path()
    c = est.uoi_selection_sweep(X, y, t.seqof(R, lambda k: {'alpha': t.at(lam, k)}))
    t.ensure_array('one row per strength', c, (R, d), lambda k, j: t.at(out, k, j))


@contract('P13', funcs=[LA + '.UoI_Lasso.fit', EN + '.UoI_ElasticNet.fit', LG + '.UoI_L1Logistic.fit', PO + '.UoI_Poisson.fit'],
          n=20, proof=False,
          bounded='real solvers of dependencies: random datasets, n <= 40, d <= 5: all-zero just above the strongest value, '
                  'not below it')
def whole_paths(t):
    """with the real solvers: all coefficients are zero at the strongest value and not at 0.8 of it"""
    import numpy as np
    kind = t.choice('estimator', ['lasso', 'enet', 'logistic2', 'logistic3', 'poisson'])
    icpt = t.boolean('fit_intercept')
    rng = np.random.RandomState(t.integer('seed', 0, 10 ** 6))
    n, d = int(rng.randint(20, 41)), int(rng.randint(1, 6))
    X = rng.normal(size=(n, d)) * rng.uniform(0.3, 3, size=d)
    z = X.dot(rng.normal(size=d))
    kw = dict(fit_intercept=icpt, standardize=False, tol=1e-10, max_iter=20000)
    num = int(rng.randint(3, 8))
    eps = float(rng.choice([0.1, 0.01]))
    if icpt:
        X = X + rng.normal(size=d)
    if kind == 'lasso':
        est = t.mod(LA).UoI_Lasso(n_lambdas=num, eps=eps, **kw)
        y = z + rng.normal(size=n)
    elif kind == 'enet':
        kw.pop('max_iter')
        est = t.mod(EN).UoI_ElasticNet(n_lambdas=num, eps=eps, alphas=np.array([0.4, 1.]), **kw)
        y = z + rng.normal(size=n)
    elif kind == 'poisson':
        kw.pop('max_iter')
        est = t.mod(PO).UoI_Poisson(n_lambdas=num, eps=eps, alphas=np.array([0.4, 1.]), solver='cd', max_iter=5000, **kw)
        y = rng.poisson(np.exp(0.4 * z / (1 + np.abs(z).max() / 3))).astype(float) + (np.arange(n) == 0)
    else:
        k = int(kind[-1])
        est = t.mod(LG).UoI_L1Logistic(n_C=num, eps=eps, **kw)
        y = np.argmax(z[:, np.newaxis] * np.linspace(-1, 1, k) + rng.gumbel(size=(n, k)), axis=1)
        y[:k] = np.arange(k)
        est.output_dim = 1 if k == 2 else k
    ps = est.get_reg_params(X, y)
    t.ensure('size', len(ps) == num * (2 if kind in ('enet', 'poisson') else 1))
    lm = est._selection_lm
    for b in range(0, len(ps), num):
        p = ps[b]
        key = 'C' if 'C' in p else 'alpha'
        s = [1 / q[key] if key == 'C' else q[key] for q in ps[b:b + num]]
        t.ensure('decreasing geometric', np.allclose(s, s[0] * eps ** (np.arange(num) / (num - 1))))
        for f, zero in ((1.02, True), (0.8, False)):
            q = dict(p)
            q[key] = p[key] / f if key == 'C' else p[key] * f
            if hasattr(lm, 'coef_'):
                del lm.coef_
            if hasattr(lm, 'intercept_'):
                del lm.intercept_
            lm.set_params(**q)
            lm.fit(X, y)
            c = np.asarray(lm.coef_)
            if zero:
                t.ensure('empty at the strongest value', np.abs(c).max() < 1e-6)
            else:
                t.ensure('not empty below it', np.abs(c).max() > 1e-7)
