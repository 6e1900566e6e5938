"""P17: a refit forgets everything learned from earlier data."""
from pydv.api import contract
from contracts.fitlib import B, LA, LG
from contracts.p16 import Quiet

EN, PO = 'pyuoi.linear_model.elasticnet', 'pyuoi.linear_model.poisson'
CU, NM = 'pyuoi.decomposition.CUR', 'pyuoi.decomposition.NMF'
RESULTS = ('coef_', 'intercept_', 'supports_', 'scores_', 'estimates_', 'rp_max_idx_', 'n_supports_', 'reg_params_')


def same(t, what, a, b):
    """both values are equal, wherever they are numbers"""
    if isinstance(b, (list, tuple)):
        t.ensure(what, isinstance(a, (list, tuple)) and len(a) == len(b))
        for x, y in zip(a, b):
            same(t, what, x, y)
    elif isinstance(b, dict):
        t.ensure(what, isinstance(a, dict) and sorted(a) == sorted(b))
        for k in b:
            same(t, what, a[k], b[k])
    elif b is None or isinstance(b, str):
        t.ensure(what, (a is None and b is None) or (isinstance(a, str) and a == b))
    elif t.ndim(b) == 0:
        t.ensure(what, a is not None and t.ndim(a) == 0)
        t.ensure_eq(what, a, b, tol=1e-9)
    else:
        t.ensure_array(what, a, t.shape(b), lambda *i: t.at(b, *i), tol=1e-9)


def same_results(t, a, b):
    for r in RESULTS:
        t.ensure('%s exists after both or after none' % r, hasattr(a, r) == hasattr(b, r))
        if hasattr(b, r):
            same(t, r, getattr(a, r), getattr(b, r))


class Warm(object):
    """base model stand-in whose solution depends on where it starts: on its previous solution, if it has one"""

    def __init__(self, t, u, v, k, warm):
        self.t, self.u, self.v, self.k, self.par, self.warm = t, u, v, k, {}, warm

    def set_params(self, **o):
        self.par.update(o)
        return self

    def fit(self, A, b, coef_mask=None):
        t = self.t
        m, d = t.shape(A)
        wb = t.sum(m, lambda i: t.at(self.u, i) * t.at(b, i))
        p = 0
        for x in sorted(self.par):
            p = p + self.par[x]
        old = getattr(self, 'coef_', None) if self.warm else None
        if old is not None:
            t.ensure_shape('start of the size of the data', old, (self.k, d))
            old = old.copy()
        oldi = getattr(self, 'intercept_', None)
        oldi = 0 if oldi is None else t.at(oldi, 0)

        def c(o, j):
            r = t.at(self.v, o) * (wb + p) + (1 + t.at(self.v, o)) * t.sum(m, lambda i: t.at(self.u, i) * t.at(A, i, j))
            if old is not None:
                r = r + 3 * t.at(old, o, j) + oldi
            return r * t.at(coef_mask, o * d + j) if coef_mask is not None else r
        self.coef_ = t.table((self.k, d), c)
        self.intercept_ = t.table((1,), lambda i: wb)
        return self


def estimator(t, kind, par, warm):
    o = dict(n_boots_sel=2, n_boots_est=1, random_state=5, logger=Quiet(), standardize=par['standardize'],
             fit_intercept=par['fit_intercept'])
    if kind == 'lasso':
        return t.mod(LA).UoI_Lasso(n_lambdas=2, warm_start=warm, **o)
    if kind == 'elastic':
        return t.mod(EN).UoI_ElasticNet(n_lambdas=2, warm_start=warm, **o)
    if kind == 'poisson':
        return t.mod(PO).UoI_Poisson(n_lambdas=2, warm_start=warm, **o)
    return t.mod(LG).UoI_L1Logistic(n_C=2, warm_start=warm, shared_support=(kind == 'shared'), **o)


def run(t, est, splits, X, y, v, k, sup, lms=None):
    """one fit with stand-ins for the resampling and the solvers (kept by the object from fit to fit)"""
    t.stub('sklearn.model_selection', 'train_test_split', splits, users=[B])
    u = splits.u
    if lms is None:
        lms = Warm(t, u, v, k, True), Warm(t, u, v, k, False)
    for lm in lms:
        lm.k, lm.u, lm.v = k, u, v
    est._selection_lm, est._estimation_lm = lms

    def grid(X=None, y=None, Xy=None, l1_ratio=1.0, fit_intercept=True, eps=1e-3, n_alphas=100, copy_X=True):
        n = t.shape(y)[0]
        return t.table((n_alphas,), lambda i: (i + 1 + l1_ratio) * t.sum(n, lambda r: t.at(y, r) * t.at(X, r, 0)) + eps)
    for m in (LA, EN):
        t.stub('sklearn.linear_model._coordinate_descent', '_alpha_grid', grid, users=[m])
    est.intersect = lambda c, thr: sup(c)

    class Empty(object):
        def __init__(self, b):
            pass
    est._fit_intercept_no_features = Empty
    est._score_predictions = lambda metric=None, fitter=None, X=None, y=None, support=None, boot_idxs=None: t.at(y, t.at(boot_idxs[1], 0))
    est.fit(X, y)
    t.unstub()
    return lms


class Splits2(object):
    def __init__(self, t, n, plan, u):
        self.t, self.n, self.plan, self.u, self.count = t, n, plan, u, 0

    def __call__(self, *arrays, **kw):
        k = self.count
        self.count += 1
        return [self.plan[k][0].copy(), self.plan[k][1].copy()]


def dataset(t, tag, n, d, kind):
    n_tr = t.dim('n_tr ' + tag)
    plan = [(t.array('train%d %s' % (k, tag), (n_tr,), kind='i', lo=0, hi=n - 1),
             t.array('test%d %s' % (k, tag), (1,), kind='i', lo=0, hi=n - 1)) for k in range(3)]
    X, u = t.array('X ' + tag, (n, d)), t.array('u ' + tag, (n_tr,))
    if kind == 'poisson':
        y = t.array('y ' + tag, (n,), kind='i', lo=0, hi=5)
    else:
        y = t.array('y ' + tag, (n,))
    return n, d, X, y, plan, u


OPTIONS = [(True, True, True), (False, True, True), (True, False, True), (False, True, False)]


CONFIGS = [(OPTIONS[0], 'shared', (2, 3), True), (OPTIONS[0], 'masked', (3, 2), False), (OPTIONS[1], 'masked', (2, 3), True),
           (OPTIONS[1], 'shared', (2, 2), False), (OPTIONS[2], 'masked', (2, 2), True), (OPTIONS[3], 'shared', (3, 2), False)]


def twofits(t, make, ks, one, two, shared=True):
    """fits the first data and then the second; and the second data with a fresh object"""
    v = t.array('v', (3,))
    first = lambda c: t.np.ones((1, one[1] * (1 if shared else ks[0])), dtype=bool)
    sup = lambda c: t.table((1, two[1] * (1 if shared else ks[1])), lambda s, j: t.at(c, 0, 0, j) + t.at(c, 1, 1, j) > 0, kind='b')
    est = make()
    lms = run(t, est, Splits2(t, one[0], one[4], one[5]), one[2], one[3], v, ks[0], first)
    est.random_state = t.random_state(9)
    run(t, est, Splits2(t, two[0], two[4], two[5]), two[2], two[3], v, ks[1], sup, lms)
    ref = make()
    ref.random_state = t.random_state(9)
    run(t, ref, Splits2(t, two[0], two[4], two[5]), two[2], two[3], v, ks[1], sup)
    same_results(t, est, ref)
    return est, ref


@contract('P17', funcs=[B + '.AbstractUoILinearModel.fit', B + '.AbstractUoILinearModel.uoi_selection_sweep',
                        B + '.AbstractUoILinearModel._pre_fit', B + '.AbstractUoILinearModel._post_fit',
                        B + '.AbstractUoILinearRegressor._pre_fit', B + '.AbstractUoILinearRegressor._post_fit',
                        B + '.AbstractUoILinearRegressor._fit_intercept', LA + '.UoI_Lasso.get_reg_params',
                        EN + '.UoI_ElasticNet.get_reg_params'], n=100, budget=240)
def linear(t):
    """a second fit gives what a fresh object gives, whatever the first data were"""
    kind = t.choice('kind', ['lasso', 'elastic'])
    std, icpt, warm = t.choice('options', OPTIONS)
    par = dict(standardize=std, fit_intercept=icpt)
    n1, d1 = t.dim('n1', lo=2), t.dim('d1')
    n2, d2 = t.dim('n2', lo=2), t.dim('d2') if t.boolean('other features') else d1
    one, two = dataset(t, 'first', n1, d1, kind), dataset(t, 'second', n2, d2, kind)
    t.requires(t.any(n1, lambda i: t.not_(t.at(one[3], i) == t.at(one[3], 0))))
    twofits(t, lambda: estimator(t, kind, par, warm), (1, 1), one, two)


@contract('P17', funcs=[B + '.AbstractUoILinearModel.fit', B + '.AbstractUoILinearModel.uoi_selection_sweep',
                        PO + '.UoI_Poisson.get_reg_params', PO + '.UoI_Poisson._pre_fit', PO + '.UoI_Poisson._post_fit',
                        PO + '.UoI_Poisson._fit_intercept'], n=100, budget=240)
def poisson(t):
    """a second fit gives what a fresh object gives, whatever the first data were"""
    std, icpt, warm = t.choice('options', OPTIONS)
    par = dict(standardize=std, fit_intercept=icpt)
    n1, d1 = t.dim('n1', lo=2), t.dim('d1')
    n2, d2 = t.dim('n2', lo=2), t.dim('d2') if t.boolean('other features') else d1
    one, two = dataset(t, 'first', n1, d1, 'poisson'), dataset(t, 'second', n2, d2, 'poisson')
    t.requires(t.any(n1, lambda i: t.not_(t.at(one[3], i) == t.at(one[3], 0))))
    t.requires(t.any(n2, lambda i: t.at(two[3], i) > 0))
    twofits(t, lambda: estimator(t, 'poisson', par, warm), (1, 1), one, two)


@contract('P17', funcs=[B + '.AbstractUoILinearModel.fit', B + '.AbstractUoILinearModel.uoi_selection_sweep',
                        LG + '.UoI_L1Logistic.get_reg_params', LG + '.UoI_L1Logistic._pre_fit',
                        B + '.AbstractUoIGeneralizedLinearRegressor._post_fit', LG + '.UoI_L1Logistic._fit_intercept'],
          n=100, budget=240)
def logistic(t):
    """a second fit gives what a fresh object gives, whatever the first data and classes were"""
    # any combination; the proof takes six in which each pair of values occurs
    (std, icpt, warm), kind, (c1, c2), other = t.choice('configuration', CONFIGS if t.symbolic else [
        (o, k, c, f) for o in OPTIONS for k in ('shared', 'masked') for c in ((2, 3), (3, 2), (2, 2)) for f in (False, True)])
    par = dict(standardize=std, fit_intercept=icpt)
    n1, d1 = t.dim('n1', lo=3), t.dim('d1')
    n2, d2 = t.dim('n2', lo=3), t.dim('d2') if other else d1
    one, two = list(dataset(t, 'first', n1, d1, kind)), list(dataset(t, 'second', n2, d2, kind))
    one[3], _, L1 = t.labels('labels first', n1, c1, user=True)
    two[3], _, L2 = t.labels('labels second', n2, c2, user=True)
    if t.symbolic:
        class Empty(object):
            def __init__(self, b, output_dim):
                n = t.shape(b)[0]
                w = t.sum(n, lambda i: t.at(b, i)) / n
                self.intercept_ = t.table((output_dim,), lambda c: w * (c + 1))

        def fixed(A, coef, b, output_dim):
            n = t.shape(b)[0]
            w = t.sum(n, lambda i: t.at(b, i) * t.at(A, i, 0)) * t.at(coef, 0, 0)
            return t.table((output_dim,), lambda c: w * (c + 1))
        t.keep_stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)
        t.keep_stub(LG, 'fit_intercept_fixed_coef', fixed)
    ks = tuple(1 if c == 2 else c for c in (c1, c2))
    est, ref = twofits(t, lambda: estimator(t, kind, par, warm), ks, one, two, kind == 'shared')
    if t.symbolic:
        t.ensure_array('classes of the second data', est.classes_, (c2,), lambda i: t.at(L2, i))
    else:
        t.ensure('classes of the second data', t.np.array_equal(est.classes_, L2))
    t.ensure('outputs of the second data', est.output_dim == ref.output_dim == ks[1])


def same_numbers(t, what, a, b):
    np = t.np
    for r in what:
        t.ensure('%s exists after both or after none' % r, hasattr(a, r) == hasattr(b, r))
        if hasattr(b, r):
            p, q = getattr(a, r), getattr(b, r)
            ok = (p is None) == (q is None)
            t.ensure(r, ok and (p is None or (np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=1e-7, atol=1e-9,
                                                                                         equal_nan=True))))


@contract('P17', funcs=[B + '.AbstractUoILinearModel.fit', CU + '.UoI_CUR.fit', CU + '.CUR.fit', NM + '.UoI_NMF_Base.fit',
                        PO + '.Poisson.fit', LG + '.MaskedCoefLogisticRegression.fit'], proof=False, n=60,
          bounded='60 random pairs of small data sets with the real solvers')
def whole_refits(t):
    """with the real solvers, fitting other data first makes no difference"""
    np = t.np
    import warnings
    m, c = t.choice('class', [(LA, 'UoI_Lasso'), (EN, 'UoI_ElasticNet'), (LG, 'UoI_L1Logistic'), (PO, 'UoI_Poisson'),
                              (PO, 'Poisson'), (LG, 'MaskedCoefLogisticRegression'), (CU, 'UoI_CUR'), (CU, 'CUR'), (NM, 'UoI_NMF')])
    std, icpt, warm = t.boolean('standardize'), t.boolean('fit intercept'), t.boolean('warm start')
    ds = []
    for tag in ('first', 'second'):
        n, d = t.integer('rows ' + tag, lo=16, hi=24), t.integer('columns ' + tag, lo=3, hi=5)
        X = np.array(t.array('X ' + tag, (n, d), lo=-2, hi=2)) * t.choice('scale ' + tag, [1., 3.])
        classes = t.choice('classes ' + tag, [2, 3])
        if c in ('UoI_Lasso', 'UoI_ElasticNet'):
            y = X[:, 0] * 2 - X[:, 1] + np.array(t.array('noise ' + tag, (n,))) * 0.1
        elif m == LG:
            y = (np.arange(n) * 7 % 5 % classes) + (3 if tag == 'first' else 1)
        else:
            y = np.floor(np.exp(X[:, 0] / 2) + np.abs(X[:, 1])) + (np.arange(n) % 2)
        if m == NM:
            X = np.abs(X) + 0.01
        ds.append((X, y))
    o = {}
    if c.startswith('UoI') and m not in (CU, NM):
        o = dict(n_boots_sel=2, n_boots_est=2, standardize=std, fit_intercept=icpt, warm_start=warm,
                 **{'n_C' if m == LG else 'n_lambdas': 3})
    elif c == 'UoI_CUR':
        o = dict(n_boots=2, max_k=2, boots_frac=0.8)
    elif c == 'CUR':
        o = dict(max_k=2)
    elif c == 'UoI_NMF':
        o = dict(n_boots=2, ranks=[2])
    elif c == 'Poisson':
        o = dict(alpha=0.1, standardize=std, fit_intercept=icpt, solver=t.choice('solver', ['lbfgs', 'cd']))
    else:
        o = dict(standardize=std, fit_intercept=icpt, C=1., penalty=t.choice('penalty', ['l1', 'l2']))

    def fit(est, X, y, rng):
        if c == 'UoI_NMF':
            est._rand = rng
            est.nmf.set_params(random_state=rng)
        elif c not in ('Poisson', 'MaskedCoefLogisticRegression'):
            est.random_state = rng
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            est.fit(X, y) if m not in (CU, NM) else est.fit(X)
    make = lambda: getattr(t.mod(m), c)(**o)
    est, ref = make(), make()
    fit(est, ds[0][0], ds[0][1], t.random_state(4))
    fit(est, ds[1][0], ds[1][1], t.random_state(8))
    fit(ref, ds[1][0], ds[1][1], t.random_state(8))
    same_numbers(t, ['coef_', 'intercept_', 'supports_', 'scores_', 'classes_', 'column_indices_', 'components_',
                     'dissimilarity_', 'n_supports_', 'output_dim'], est, ref)
    if m not in (CU, NM):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t.ensure('same predictions', np.allclose(est.predict(ds[1][0]), ref.predict(ds[1][0]), rtol=1e-7, atol=1e-9))
