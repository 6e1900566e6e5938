"""P23: relabelling the classes changes the labels and nothing else."""
from pydv.api import contract
from contracts.fitlib import B, LG
from contracts.p16 import Quiet
from contracts.p17 import Splits2, dataset, run, same_results, same_numbers, OPTIONS
from contracts import p10

M = LG + '.MaskedCoefLogisticRegression'
FUNCS = [M + '.fit', M + '._pre_fit', M + '._post_fit', LG + '._logistic_regression_path', LG + '._logistic_loss_and_grad',
         LG + '._intercept_dot', LG + '._multinomial_loss_grad', LG + '._multinomial_loss']


class Recorder(object):
    """minimisers that evaluate the objective once at any point and hand back any other; the problem is kept"""

    def __init__(self, t):
        self.t, self.problems, self.points = t, [], None

    def run(self, f, x0, extra):
        t = self.t
        if self.points is None:
            self.points = t.array('visited', t.shape(x0)), t.array('minimum', t.shape(x0))
        start = x0.copy()
        value, grad = f(self.points[0].copy())
        self.problems.append((start, value, grad.copy(), extra))
        return self.points[1].copy()

    def lbfgs(self, f, x0, progress=None, args=(), orthantwise_c=0, orthantwise_start=0, orthantwise_end=-1, **o):
        def both(v):
            g = self.t.np.zeros(self.t.shape(x0))
            return f(v, g, *args), g
        return self.run(both, x0, (orthantwise_c, orthantwise_start, orthantwise_end))

    def lbfgsb(self, f, x0, fprime=None, args=(), **o):
        return self.run(lambda v: f(v, *args), x0, ()), 0., {'warnflag': 0, 'nit': 1, 'task': b''}


def solver(t, k, penalty):
    """both fits pose the same problem, and predictions differ by the relabelling alone"""
    multi = t.choice('mode', ['auto', 'multinomial']) if k == 2 else 'auto'
    rows = 1 if k == 2 and multi == 'auto' else k
    weights = t.choice('class weights', [None, 'balanced'] if t.symbolic else [None, 'balanced', 'dict'])
    icpt, masked = t.choice('intercept and mask', [(True, False), (False, True)])
    n, d, n2 = t.dim('n', lo=3), t.dim('d'), t.dim('n2')
    X, Z = t.array('X', (n, d), lo=-2, hi=2), t.array('Z', (n2, d), lo=-2, hi=2)
    y, codes, L = t.labels('y', n, k, user=True)
    sw = t.array('weights', (n,), lo=1, hi=3) if t.boolean('sample weights') else None
    mask = t.array('mask', (rows, d), kind='b') if masked else None
    if masked:
        t.requires(t.any((rows, d), lambda c, j: t.at(mask, c, j)))
    r = Recorder(t)
    t.stub(LG, 'fmin_lbfgs', r.lbfgs)
    t.stub('scipy.optimize', 'fmin_l_bfgs_b', r.lbfgsb)
    if t.symbolic:
        class Empty(object):
            def __init__(self, b, output_dim):
                m = t.shape(b)[0]
                w = t.sum(m, lambda i: t.at(b, i)) / m
                self.intercept_ = t.table((output_dim,), lambda c: w * (c + 1))
        t.stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)

    def fit(lab, names):
        w = {c: 1. + i for i, c in enumerate(names)} if weights == 'dict' else weights
        est = t.mod(LG).MaskedCoefLogisticRegression(penalty=penalty, C=2., fit_intercept=icpt, multi_class=multi, class_weight=w)
        est.fit(X, lab, sample_weight=sw, coef_mask=mask)
        return est
    est, ref = fit(y, L if not t.symbolic else ()), fit(codes, range(k))
    (x0, f0, g0, e0), (x1, f1, g1, e1) = r.problems
    size = t.shape(x1)
    t.ensure_array('the same start', x0, size, lambda i: t.at(x1, i))
    t.ensure_eq('the same objective', f0, f1)
    t.ensure_array('the same gradient', g0, size, lambda i: t.at(g1, i))
    t.ensure('the same penalty', len(e0) == len(e1))
    for a, b in zip(e0, e1):
        t.ensure_eq('the same penalty', a, b)
    t.ensure_array('coef_', est.coef_, (rows, d), lambda c, j: t.at(ref.coef_, c, j))
    t.ensure_array('intercept_', est.intercept_, (rows,), lambda c: t.at(ref.intercept_, c))
    labels(t, est, ref, L, k, Z)


def labels(t, est, ref, L, k, Z):
    """classes_ are the sorted labels; row c of coef_ argues for the c-th of them"""
    if not t.symbolic:
        t.ensure('classes_ are the sorted labels', t.np.array_equal(est.classes_, L))
        t.ensure('predictions are the labels', t.np.array_equal(est.predict(Z), t.np.array(L)[ref.predict(Z)]))
        if ref.coef_.shape[0] == 1:
            t.ensure('two classes: the larger label for a positive score', t.np.array_equal(
                est.predict(Z), t.np.where(Z @ ref.coef_[0] + ref.intercept_[0] > 0, L[1], L[0])))
        return
    n2, d = t.shape(Z)
    t.ensure_array('classes_ are the sorted labels', est.classes_, (k,), lambda c: t.at(L, c))
    rows = t.shape(ref.coef_)[0]
    # the coefficients of both are equal: predictions for any of them
    for e in (est, ref):
        if e is est:
            W, w = t.array('any coef', (rows, d)), t.array('any intercept', (rows,))
        e.coef_, e.intercept_ = W.copy(), w.copy()
    a, b = est.predict(Z), ref.predict(Z)
    t.ensure_array('predictions are the labels', a, (n2,), lambda i: t.at(L, t.at(b, i)))

    def score(i, c):
        return t.sum(d, lambda j: t.at(Z, i, j) * t.at(ref.coef_, c, j)) + t.at(ref.intercept_, c)
    if rows == 1:
        t.ensure_array('two classes: the larger label for a positive score', a, (n2,),
                       lambda i: t.ite(score(i, 0) > 0, t.at(L, 1), t.at(L, 0)))


for _p in ('l1', 'l2'):
    for _k in (2, 3):
        contract('P23', funcs=FUNCS, n=60, budget=150, name='solver_%s_%d' % (_p, _k))(lambda t, k=_k, p=_p: solver(t, k, p))


def ensemble(t, std, icpt, kind, k, multi):
    """a UoI fit to the labels and one to their ranks"""
    rows = 1 if k == 2 and multi == 'auto' else k
    n, d = t.dim('n', lo=3), t.dim('d')
    data = list(dataset(t, 'data', n, d, kind))
    y, codes, L = t.labels('labels', n, k, user=True)
    if t.symbolic:
        class Empty(object):
            def __init__(self, b, output_dim):
                m = t.shape(b)[0]
                w = t.sum(m, lambda i: t.at(b, i)) / m
                self.intercept_ = t.table((output_dim,), lambda c: w * (c + 1))

        def fixed(A, coef, b, output_dim):
            m = t.shape(b)[0]
            w = t.sum(m, lambda i: t.at(b, i) * t.at(A, i, 0)) * t.at(coef, 0, 0)
            return t.table((output_dim,), lambda c: w * (c + 1))
        t.keep_stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)
        t.keep_stub(LG, 'fit_intercept_fixed_coef', fixed)
    v = t.array('v', (3,))
    sup = lambda c: t.table((1, d * (1 if kind == 'shared' else rows)), lambda s, j: t.at(c, 0, 0, j) + t.at(c, 1, 1, j) > 0, kind='b')
    fits = []
    for lab in (y, codes):
        est = t.mod(LG).UoI_L1Logistic(n_boots_sel=2, n_boots_est=1, n_C=2, random_state=t.random_state(9), logger=Quiet(), standardize=std,
                                       fit_intercept=icpt, shared_support=(kind == 'shared'), multi_class=multi)
        run(t, est, Splits2(t, n, data[4], data[5]), data[2], lab, v, rows, sup)
        fits.append(est)
    same_results(t, *fits)
    n2 = t.dim('n2')
    labels(t, fits[0], fits[1], L, k, t.array('Z', (n2, d), lo=-2, hi=2))


for _i, (_o, _c) in enumerate([(OPTIONS[1], ('shared', 3, 'auto')), (OPTIONS[1], ('masked', 2, 'auto')), (OPTIONS[2], ('shared', 2, 'auto')),
                               (OPTIONS[0], ('masked', 2, 'multinomial')), (OPTIONS[0], ('masked', 3, 'auto'))]):
    contract('P23', funcs=[B + '.AbstractUoILinearModel.fit', B + '.AbstractUoILinearModel.uoi_selection_sweep',
                           LG + '.UoI_L1Logistic.get_reg_params', LG + '.UoI_L1Logistic._pre_fit',
                           B + '.AbstractUoIGeneralizedLinearRegressor._post_fit', LG + '.UoI_L1Logistic._fit_intercept'],
             n=60, budget=150, name='ensemble_%d' % (_i + 1))(lambda t, o=_o, c=_c: ensemble(t, o[0], o[1], *c))


contract('P23', funcs=[B + '.AbstractUoIGeneralizedLinearRegressor._score_predictions'], n=100,
         name='scores')(p10.classifier_scores)


@contract('P23', funcs=[B + '.AbstractUoILinearModel.fit', M + '.fit', B + '.AbstractUoIGeneralizedLinearRegressor._score_predictions'],
          proof=False, n=40, bounded='random small data sets with the real solvers, labels of several kinds')
def whole_fits(t):
    np = t.np
    n, d, k = t.integer('rows', lo=20, hi=40), t.integer('columns', lo=2, hi=4), t.choice('classes', [2, 3, 4])
    X = np.array(t.array('X', (n, d), lo=-2, hi=2))
    codes = np.argsort(np.argsort(X[:, 0] + np.array(t.array('noise', (n,), lo=-2, hi=2)))) * k // n
    L = {'shifted': np.arange(k) + 5, 'gaps': np.array([-7, 0, 3, 100])[:k], 'floats': np.array([-2.5, 0., 0.5, 1.5])[:k],
         'words': np.array(['ant', 'bee', 'cat', 'dog'])[:k], 'signs': np.array([-1, 1, 2, 3])[:k]}[
             t.choice('labels', ['shifted', 'gaps', 'floats', 'words', 'signs'])]
    multi = t.choice('mode', ['auto', 'multinomial'])
    which = t.choice('class', ['uoi', 'masked'])
    metric = t.choice('metric', ['acc', 'log', 'AIC', 'AICc', 'BIC'])
    weights = t.choice('class weights', [None, 'balanced', 'dict'])
    penalty, shared = t.choice('penalty', ['l1', 'l2']), t.boolean('shared support')
    fits = []
    for lab, names in ((L[codes], L), (codes, np.arange(k))):
        if which == 'uoi':
            est = t.mod(LG).UoI_L1Logistic(n_boots_sel=3, n_boots_est=2, n_C=3, random_state=3, estimation_score=metric,
                                           multi_class=multi, shared_support=shared, logger=Quiet())
        else:
            w = {c: 1. + i for i, c in enumerate(names.tolist())} if weights == 'dict' else weights
            est = t.mod(LG).MaskedCoefLogisticRegression(penalty=penalty, multi_class=multi, class_weight=w, C=3.)
        try:
            fits.append(est.fit(X, lab))
        except t.mod('pyuoi.lbfgs._lowlevel').LBFGSError:
            return          # a line search gave up: no result to judge
    same_numbers(t, ('coef_', 'intercept_', 'scores_', 'supports_', 'rp_max_idx_'), *fits)
    t.ensure('classes_ are the sorted labels', np.array_equal(fits[0].classes_, L))
    t.ensure('predictions are the labels', np.array_equal(fits[0].predict(X), L[fits[1].predict(X)]))
    t.ensure('probabilities', np.allclose(fits[0].predict_proba(X), fits[1].predict_proba(X)))
