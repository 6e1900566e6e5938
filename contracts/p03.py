"""P03: estimates, scores, choice and median."""
from pydv.api import contract
from contracts.fitlib import B, LA, LG, Stop, Splits, Fitter, data


def estimation(t, kind, nb, S):
    n, d, n_tr, n_te, idx, X, y = data(t, nb + 1)
    k = 1 if kind == 'linear' else 2
    if kind == 'linear':
        est = t.mod(LA).UoI_Lasso(n_boots_sel=1, n_boots_est=nb, standardize=False)
    else:
        est = t.mod(LG).UoI_L1Logistic(n_boots_sel=1, n_boots_est=nb, standardize=False, shared_support=(kind == 'shared'))
    p = d if kind != 'masked' else k * d
    sup = t.array('sup', (S, p), kind='b')
    u, v = t.array('u', (n_tr,)), t.array('v', (k,))
    ut, q = t.array('ut', (n_te,)), t.array('q', (p,))
    log = []
    t.stub('sklearn.model_selection', 'train_test_split', Splits(t, n, idx), users=[B])
    est.output_dim = k

    def pre(A, b):
        return A, b
    est._pre_fit = pre
    est.get_reg_params = lambda A, b: [{}]
    est.uoi_selection_sweep = lambda A, b, ps: t.np.zeros((1, k * d))
    est.intersect = lambda c, thr: sup.copy()
    lm = Fitter(t, u, v, k, d)
    est._estimation_lm = lm

    class Empty(object):
        def __init__(self, b):
            self.wb = 7 * lm.wsum(t.shape(b)[0], lambda i: t.at(b, i))
    est._fit_intercept_no_features = Empty

    def score(metric=None, fitter=None, X=None, y=None, support=None, boot_idxs=None):
        t.ensure('metric', metric == est.estimation_score)
        return fitter.wb + t.sum(n_tr, lambda i: t.at(u, i) * t.at(boot_idxs[0], i)) \
            + t.sum(n_te, lambda i: t.at(ut, i) * t.at(boot_idxs[1], i)) \
            + t.sum(t.shape(support)[0], lambda j: t.at(q, j) * t.at(support, j))
    est._score_predictions = score

    def icpt(A, b):
        log.append(('intercept', est.coef_.copy()))
        est.intercept_ = t.np.zeros(k)
    est._fit_intercept = icpt

    def post(A, b):
        log.append(('units', est.coef_.copy()))
    est._post_fit = post

    def want_est(b, s):
        tr = idx[1 + b][0]
        return lambda o, j: lm.spec(X, y, tr, n_tr, o, j) * (t.at(sup, s, o * d + j) if kind == 'masked' else t.at(sup, s, j))

    def want_score(b, s):
        tr, te = idx[1 + b]
        some = t.any(p, lambda j: t.at(sup, s, j))
        return t.ite(some, 1, 7) * lm.wsum(n_tr, lambda i: t.at(y, t.at(tr, i))) \
            + t.sum(n_tr, lambda i: t.at(u, i) * t.at(tr, i)) + t.sum(n_te, lambda i: t.at(ut, i) * t.at(te, i)) \
            + t.sum(p, lambda j: t.at(q, j) * t.at(sup, s, j))
    return n, d, k, X, y, est, log, want_est, want_score


@contract('P03', funcs=[B + '.AbstractUoILinearModel.fit'], n=120)
def estimates(t):
    """estimate and score of every (bootstrap, support)"""
    kind = t.choice('kind', ['linear', 'shared', 'masked'])
    nb, S = t.choice('n_boots_est', [1, 2]), t.choice('supports', [1, 2])
    n, d, k, X, y, est, log, want_est, want_score = estimation(t, kind, nb, S)
    est.fit(X, y)
    t.ensure_shape('estimates', est.estimates_, (nb, S, k * d))
    t.ensure_shape('scores', est.scores_, (nb, S))
    for b in range(nb):
        for s in range(S):
            w = want_est(b, s)
            for o in range(k):
                t.each(d, lambda j: t.ensure_eq('estimate', t.at(est.estimates_, b, s, o * d + j), w(o, j)))
            t.ensure_eq('score', t.at(est.scores_, b, s), want_score(b, s))


@contract('P03', funcs=[B + '.AbstractUoILinearModel.fit'], n=120)
def choice(t):
    """a best support per bootstrap, and the median of the chosen estimates"""
    kind = t.choice('kind', ['linear', 'shared', 'masked'])
    nb, S = t.choice('n_boots_est, supports', [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)])
    n, d, k, X, y, est, log, want_est, want_score = estimation(t, kind, nb, S)
    val = t.array('val', (nb * S, k, d))
    sco = t.array('sco', (nb * S,))
    fits, scored = [], []

    def fit(A, b, coef_mask=None):
        e = len(fits)
        fits.append(e)
        est._estimation_lm.wb = 0
        est._estimation_lm.coef_ = t.table((k, t.shape(A)[1]), lambda o, j: t.at(val, e, o, j))
    est._estimation_lm.fit = fit

    def score(metric=None, fitter=None, X=None, y=None, support=None, boot_idxs=None):
        e = len(scored)
        scored.append(e)
        return t.at(sco, e)
    est._score_predictions = score
    est.fit(X, y)
    t.ensure_shape('one choice per bootstrap', est.rp_max_idx_, (nb,))
    pick = []
    for b in range(nb):
        c = t.at(est.rp_max_idx_, b)
        t.ensure('an existing support', t.and_(c >= 0, c < S))
        for s in range(S):
            t.ensure('maximal score', t.at(est.scores_, b, c) >= t.at(est.scores_, b, s))
        pick.append(c)
    t.ensure('intercept, then units, once each', [x[0] for x in log] == ['intercept', 'units'])
    for what, co in log:
        t.ensure_array('median of the chosen estimates', co, (k, d),
                       lambda o, j: t.median(nb, lambda b: t.select([t.at(est.estimates_, e, pick[e], o * d + j)
                                                                     for e in range(nb)], b)))


@contract('P03', funcs=[], n=200)
def majority(t):
    """lemma: a feature is nonzero in the median only if it is nonzero in at least half of the estimates"""
    nb = t.choice('n_boots_est', [1, 2, 3, 4, 5])
    x = t.array('x', (nb,))
    some = t.array('zero', (nb,), kind='b')
    e = t.np.where(some, 0., x)
    nz = t.sum(nb, lambda b: t.ite(t.not_(t.at(e, b) == 0), 1, 0))
    med = t.np.median(e)
    t.ensure('majority', t.or_(med == 0, 2 * nz >= nb))
