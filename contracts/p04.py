"""P04: resamples feed selection and estimation and nothing else does."""
from pydv.api import contract

from contracts.fitlib import B, LA, LG, Stop, Splits, splits_args, data, Fitter
from contracts import p10
from contracts.p05 import Rank
from contracts.mpilib import World


@contract('P04', funcs=[B + '.AbstractUoILinearModel.uoi_selection_sweep'], n=100)
def sweep(t):
    """row r of a sweep is the base model fitted on the given rows with parameter set r"""
    m = t.mod(LA)
    n, d, R = t.dim('n'), t.dim('d'), t.dim('R')
    X, y = t.array('X', (n, d)), t.array('y', (n,))
    u, v = t.array('u', (n,)), t.array('v', (d,))
    lam = t.array('lam', (R,), lo=0, hi=3)
    params = t.seqof(R, lambda k: {'alpha': t.at(lam, k)})

    class LM(object):
        alpha = None

        def set_params(self, **kw):
            for k, a in kw.items():
                setattr(self, k, a)

        def fit(self, A, b):
            wb = t.sum(t.shape(b)[0], lambda i: t.at(u, i) * t.at(b, i))
            self.coef_ = t.table((1, t.shape(A)[1]), lambda c, j: self.alpha * t.at(v, j) * wb
                                 + t.sum(t.shape(A)[0], lambda i: t.at(u, i) * t.at(A, i, j)))
    est = m.UoI_Lasso()
    est.output_dim = 1
    est._selection_lm = LM()
    out = est.uoi_selection_sweep(X, y, params)

    def want(r, j):
        return t.at(lam, r) * t.at(v, j) * t.sum(n, lambda i: t.at(u, i) * t.at(y, i)) \
            + t.sum(n, lambda i: t.at(u, i) * t.at(X, i, j))
    t.ensure_array('one model per parameter set', out, (R, d), want)


@contract('P04', funcs=[B + '.AbstractUoILinearModel.fit'], n=80)
def selection(t):
    """each selection bootstrap is a sweep over all parameter sets on its own training rows,
    started from scratch"""
    m = t.mod(LA)
    nb = t.choice('n_boots_sel', [1, 2, 3])
    n, d, n_tr, n_te, idx, X, y = data(t, nb)
    R = t.dim('R')
    u, v = t.array('u', (n_tr,)), t.array('v', (d,))
    lam = t.array('lam', (R,), lo=0, hi=3)
    params = t.seqof(R, lambda k: {'alpha': t.at(lam, k)})
    rng, strat = t.opaque('rng'), t.opaque('stratify')
    frac = t.choice('selection_frac', [0.9, 0.5])
    est = m.UoI_Lasso(n_boots_sel=nb, standardize=False, selection_frac=frac, estimation_frac=0.75)
    est.random_state = rng
    splits = Splits(t, n, idx)
    t.stub('sklearn.model_selection', 'train_test_split', splits, users=[B])
    est.get_reg_params = lambda A, b: params
    if t.boolean('fitted before'):
        est._selection_lm.coef_ = t.array('old', (d,))
        est._selection_lm.intercept_ = 1.5

    def sweep_stub(A, b, ps):
        t.ensure('does not start from another bootstrap',
                 not hasattr(est._selection_lm, 'coef_') and not hasattr(est._selection_lm, 'intercept_'))
        t.ensure('every parameter set', ps is params)
        est._selection_lm.coef_ = t.at(A, 0)
        est._selection_lm.intercept_ = 0.5
        wb = t.sum(t.shape(b)[0], lambda i: t.at(u, i) * t.at(b, i))
        return t.table((R, t.shape(A)[1]), lambda r, j: t.at(lam, r) * t.at(v, j) * wb
                       + t.sum(t.shape(A)[0], lambda i: t.at(u, i) * t.at(A, i, j)))
    est.uoi_selection_sweep = sweep_stub
    seen = []

    def inter(coefs, thresholds):
        seen.append(coefs)
        raise Stop()
    est.intersect = inter
    try:
        est.fit(X, y, stratify=strat)
        t.fail('supports are intersected')
    except Stop:
        pass
    t.ensure('one draw per bootstrap', len(splits.calls) == nb)
    splits_args(t, splits, 0, nb, frac, strat, rng)
    co = seen[0]

    def want(b):
        tr = idx[b][0]
        return lambda r, j: t.at(lam, r) * t.at(v, j) * t.sum(n_tr, lambda i: t.at(u, i) * t.at(y, t.at(tr, i))) \
            + t.sum(n_tr, lambda i: t.at(u, i) * t.at(X, t.at(tr, i), j))
    t.ensure_shape('coefficients of every bootstrap', co, (nb, R, d))
    for b in range(nb):
        t.ensure_array('bootstrap', co[b], (R, d), want(b))


@contract('P04', funcs=[B + '.AbstractUoILinearModel.fit'], n=80)
def estimation(t):
    """each estimation bootstrap is fitted on its own training rows and scored with its own rows"""
    kind = t.choice('kind', ['linear', 'classifier'])
    nb = t.choice('n_boots_est', [1, 2])
    n, d, n_tr, n_te, idx, X, y = data(t, nb + 1)
    frac = t.choice('estimation_frac', [0.9, 0.5])
    kw = dict(n_boots_sel=1, n_boots_est=nb, standardize=False, selection_frac=0.75, estimation_frac=frac)
    k = 1 if kind == 'linear' else 2
    est = t.mod(LA).UoI_Lasso(**kw) if kind == 'linear' else t.mod(LG).UoI_L1Logistic(**kw)
    sup = t.array('sup', (1, d), kind='b')
    u, v = t.array('u', (n_tr,)), t.array('v', (k,))
    splits = Splits(t, n, idx)
    t.stub('sklearn.model_selection', 'train_test_split', splits, users=[B])
    rng, strat = t.opaque('rng'), t.opaque('stratify')
    est.random_state = rng
    est.output_dim = k

    def pre(A, b):
        return A, b
    est._pre_fit = pre
    est.get_reg_params = lambda A, b: [{}]
    est.uoi_selection_sweep = lambda A, b, ps: t.np.zeros((1, k * d))
    est.intersect = lambda c, thr: sup.copy()
    lm = Fitter(t, u, v, k, d)
    est._estimation_lm = lm
    est._fit_intercept_no_features = lambda b: lm
    est._fit_intercept = lambda A, b: None
    est._post_fit = lambda A, b: None
    count = []

    def score(metric=None, fitter=None, X=None, y=None, support=None, boot_idxs=None):
        b = len(count)
        count.append(b)
        t.ensure_array('training rows of the resample', boot_idxs[0], (n_tr,), lambda i: t.at(idx[1 + b][0], i))
        t.ensure_array('held-out rows of the resample', boot_idxs[1], (n_te,), lambda i: t.at(idx[1 + b][1], i))
        t.ensure_array('all responses', y, (n,), lambda i: t.at(Y, i))
        return 0.
    Y = y
    est._score_predictions = score
    est.fit(X, y, stratify=strat)
    t.ensure('one draw per bootstrap', len(splits.calls) == nb + 1)
    splits_args(t, splits, 0, 1, 0.75, strat, rng)
    splits_args(t, splits, 1, nb + 1, frac, strat, rng)
    for b in range(nb):
        tr = idx[1 + b][0]
        for o in range(k):
            t.each(d, lambda j: t.ensure_eq('fitted on the training rows', t.at(est.estimates_, b, 0, o * d + j),
                                            t.ite(t.at(sup, 0, j), lm.spec(X, y, tr, n_tr, o, j), 0)))


@contract('P04', funcs=[B + '.AbstractUoILinearModel.fit'], n=80, budget=120)
def distributed_draws(t):
    """over several ranks the first one draws every resample, as asked; the others receive it"""
    kind = t.choice('kind', ['linear', 'masked'])
    size = t.choice('ranks', [2, 3])
    shape = t.choice('n_boots_sel, reg_params, n_boots_est, supports', [(1, 1, 2, 1), (2, 1, 1, 1), (3, 1, 1, 2)])
    nb, R, nbe, S = shape
    n, d, n_tr, n_te, idx, X, y = data(t, nb + nbe)
    k = 1 if kind == 'linear' else 2
    p = k * d
    gen = (t.array('lam', (R,)), t.array('u', (n_tr,)), t.array('v', (k,)), t.array('ut', (n_te,)), t.array('q', (p,)),
           t.array('w', (S, nb, R)), t.array('c0', (k,)))
    fs, fe = t.choice('fractions', [(0.9, 0.5), (0.5, 0.75)])

    def make(comm):
        return Rank(t, kind, shape, X, y, idx, n, d, n_tr, n_te, gen, comm, selection_frac=fs, estimation_frac=fe).fit()
    out = World(t, size).run(make)
    if out is None:
        return
    for o in out:
        t.ensure('drawn once, by the first rank', len(o.calls) == (nb + nbe if o.rank == 0 else 0))
    splits_args(t, out[0], 0, nb, fs, out[0].strat, out[0].rng)
    splits_args(t, out[0], nb, nb + nbe, fe, out[0].strat, out[0].rng)
    # every fit and score of every rank saw its own resample
    for o in out:
        t.ensure_array('final support choice', o.e.rp_max_idx_, (nbe,), lambda b: t.at(out[0].e.rp_max_idx_, b))


# a score is the formula of its criterion over exactly the rows of the estimation target
contract('P04', funcs=[B + '.AbstractUoILinearRegressor._score_predictions'], n=150)(p10.linear_scores)
contract('P04', funcs=['pyuoi.linear_model.poisson.UoI_Poisson._score_predictions'], n=150)(p10.poisson_scores)
contract('P04', funcs=[B + '.AbstractUoIGeneralizedLinearRegressor._score_predictions'], n=150)(p10.classifier_scores)
