"""P05: a distributed fit computes the same result as a serial fit."""
from pydv.api import contract
from contracts.fitlib import B, LA, LG, data, splits_args
from contracts.mpilib import World


class Log(object):
    def setLevel(self, *a):
        pass
    info = debug = warning = setLevel


class Rank(object):
    """one process: an estimator whose base models, scores and resamples are
    generic functions of what they are given"""

    def __init__(self, t, kind, shape, X, y, idx, n, d, n_tr, n_te, gen, comm, **more):
        self.t, self.comm = t, comm
        nb, R, nbe, S = shape
        lam, u, v, ut, q, w, c0 = gen
        k = 1 if kind == 'linear' else 2
        p = k * d if kind == 'masked' else d
        self.rank = 0 if comm is None else comm.rank
        self.drawn, self.sel, self.est_tasks, self.calls = 0, [], [], []
        self.strat, self.rng = t.opaque('stratify'), t.opaque('rng')
        kw = dict(n_boots_sel=nb, n_boots_est=nbe, standardize=False, comm=comm, logger=Log(), **more)
        if kind == 'linear':
            e = t.mod(LA).UoI_Lasso(**kw)
        else:
            e = t.mod(LG).UoI_L1Logistic(shared_support=(kind == 'shared'), **kw)
        self.e = e
        e.random_state = self.rng
        e.output_dim = k
        e._pre_fit = lambda A, b: (A, b)
        e.get_reg_params = lambda A, b: [{'alpha': t.at(lam, r)} for r in range(R)]

        def wsum(m, f):
            return t.sum(m, lambda i: t.at(u, i) * f(i))
        me = self

        class Sel(object):
            alpha = None

            def set_params(self, alpha=None):
                self.alpha = alpha

            def fit(self, A, b):
                m = t.shape(b)[0]
                wb = wsum(m, lambda i: t.at(b, i))
                me.sel.append((self.alpha, wb))
                self.coef_ = t.table((k, t.shape(A)[1]), lambda o, j: self.alpha * t.at(v, o) * wb
                                     + wsum(m, lambda i: t.at(A, i, j)))

        class Est(object):
            def fit(self, A, b, coef_mask=None):
                m = t.shape(b)[0]
                wb = wsum(m, lambda i: t.at(b, i))
                self.wb = wb

                def c(o, j):
                    r = t.at(v, o) * wb + (1 + t.at(v, o)) * wsum(m, lambda i: t.at(A, i, j))
                    return r * t.at(coef_mask, o * d + j) if coef_mask is not None else r
                self.coef_ = t.table((k, t.shape(A)[1]), c)

        class Empty(object):
            def __init__(self, b):
                self.wb = 7 * wsum(t.shape(b)[0], lambda i: t.at(b, i))
        e._selection_lm, e._estimation_lm, e._fit_intercept_no_features = Sel(), Est(), Empty

        def inter(coefs, thr):
            t.ensure('thresholds', thr is e.selection_thresholds_)
            t.ensure_shape('coefficients of every bootstrap', coefs, (nb, R, k * d))
            return t.table((S, p), lambda s, j: sum(t.at(w, s, b, r) * t.at(coefs, b, r, j)
                                                    for b in range(nb) for r in range(R)) > 0, kind='b')
        e.intersect = inter

        def score(metric=None, fitter=None, X=None, y=None, support=None, boot_idxs=None):
            tr, te = boot_idxs
            r = fitter.wb + t.sum(n_tr, lambda i: t.at(u, i) * t.at(tr, i)) \
                + t.sum(n_te, lambda i: t.at(ut, i) * t.at(te, i)) \
                + t.sum(t.shape(support)[0], lambda j: t.at(q, j) * t.at(support, j))
            me.est_tasks.append(r)
            return r
        e._score_predictions = score

        def icpt(A, b):
            e.intercept_ = t.table((k,), lambda o: t.at(c0, o) + t.sum(d, lambda j: t.at(e.coef_, o, j)))
        e._fit_intercept = icpt
        e._post_fit = lambda A, b: None

        def split(*arrays, **kw):
            if me.rank != 0:
                t.fail('only rank 0 draws')
            j = me.drawn
            me.drawn += 1
            me.calls.append(kw)
            t.ensure('one array is split', len(arrays) == 1)
            t.ensure_array('rows are split', arrays[0], (n,), lambda i: i)
            t.ensure('one draw per bootstrap', j < nb + nbe)
            return [idx[j][0].copy(), idx[j][1].copy()]
        t.stub('sklearn.model_selection', 'train_test_split', split, users=[B])
        self.X, self.y = X, y

    def fit(self):
        self.e.fit(self.X, self.y, stratify=self.strat)
        return self


SHAPES = [(1, 1, 1, 1), (1, 2, 2, 1), (2, 1, 1, 2), (2, 2, 2, 2), (3, 1, 3, 1)]


def ranks(t, kind, size):
    """every rank ends with the serial result; each task is carried out once"""
    shape = t.choice('n_boots_sel, reg_params, n_boots_est, supports', SHAPES)
    nb, R, nbe, S = shape
    n, d, n_tr, n_te, idx, X, y = data(t, nb + nbe)
    k = 1 if kind == 'linear' else 2
    p = k * d if kind == 'masked' else d
    gen = (t.array('lam', (R,)), t.array('u', (n_tr,)), t.array('v', (k,)), t.array('ut', (n_te,)), t.array('q', (p,)),
           t.array('w', (S, nb, R)), t.array('c0', (k,)))

    def make(comm):
        return Rank(t, kind, shape, X, y, idx, n, d, n_tr, n_te, gen, comm).fit()
    serial = make(None)
    out = World(t, size).run(make)
    if out is None:
        return
    splits_args(t, out[0], 0, nb, 0.9, out[0].strat, out[0].rng)
    splits_args(t, out[0], nb, nb + nbe, 0.9, out[0].strat, out[0].rng)
    t.ensure('each (bootstrap, regularisation) once', sum(len(o.sel) for o in out) == nb * R)
    t.ensure('each (bootstrap, support) once', sum(len(o.est_tasks) for o in out) == nbe * S)
    a = serial.e
    for o in out:
        e = o.e
        t.ensure('draws', o.drawn == (nb + nbe if o.rank == 0 else 0))
        t.ensure_array('supports', e.supports_, (S, p), lambda s, j: t.at(a.supports_, s, j))
        t.ensure('boolean supports', e.supports_.dtype == a.supports_.dtype)
        t.ensure_shape('scores', e.scores_, (nbe, S))
        t.ensure_shape('estimates', e.estimates_, (nbe, S, k * d))
        t.ensure_shape('chosen supports', e.rp_max_idx_, (nbe,))
        for b in range(nbe):
            t.ensure_eq('chosen support', t.at(e.rp_max_idx_, b), t.at(a.rp_max_idx_, b))
            for s in range(S):
                t.ensure_eq('score', t.at(e.scores_, b, s), t.at(a.scores_, b, s))
                t.ensure_array('estimates', e.estimates_[b, s], (k * d,), lambda j: t.at(a.estimates_, b, s, j))
        t.ensure_array('coefficients', e.coef_, (k, d), lambda c, j: t.at(a.coef_, c, j))
        t.ensure_array('intercept', e.intercept_, (k,), lambda c: t.at(a.intercept_, c))


for _kind in ('linear', 'masked'):
    for _size in (1, 2, 3, 4):
        contract('P05', funcs=[B + '.AbstractUoILinearModel.fit'], n=40, budget=120,
                 name='%s_%d_ranks' % (_kind, _size))(lambda t, kind=_kind, size=_size: ranks(t, kind, size))


@contract('P05', funcs=[B + '.AbstractUoILinearModel.fit'], proof=False, n=40, budget=100,
          bounded='complete fits of every estimator over 1-5 simulated ranks against the serial fit, n<=30, d<=4')
def whole_fits(t):
    name = t.choice('estimator', ['UoI_Lasso', 'UoI_ElasticNet', 'UoI_L1Logistic', 'UoI_Poisson'])
    lm = t.mod('pyuoi.linear_model')
    np = t.np
    n, d = t.integer('n', 20, 30), t.integer('d', 1, 4)
    seed = t.integer('seed', 0, 10 ** 6)
    size = t.integer('ranks', 1, 5)
    rs = np.random.RandomState(seed)
    X = rs.randn(n, d)
    eta = X[:, 0] - (X[:, -1] if d > 1 else 0)
    kw = dict(n_boots_sel=t.integer('n_boots_sel', 1, 4), n_boots_est=t.integer('n_boots_est', 1, 3),
              fit_intercept=t.boolean('fit_intercept'), standardize=t.boolean('standardize'))
    strat = None
    if name == 'UoI_L1Logistic':
        y = np.digitize(eta + rs.randn(n), t.choice('cuts', [[0.], [-.7, .7]]))
        t.requires(min(np.unique(y, return_counts=True)[1]) >= 4)
        kw['shared_support'] = t.boolean('shared_support')
        kw['n_C'] = 4
        strat = y
        t.requires(size <= kw['n_boots_sel'])
    elif name == 'UoI_Poisson':
        y = rs.poisson(np.exp(.5 * eta))
        kw['n_lambdas'] = 4
        t.requires(size <= kw['n_boots_sel'])
    else:
        y = eta + .3 * rs.randn(n)
        kw['n_lambdas'] = 4

    def make(comm):
        return getattr(lm, name)(random_state=seed, comm=comm, **kw).fit(X, y, stratify=strat)
    a = make(None)
    out = World(t, size).run(make)
    if out is None:
        return
    for e in out:
        t.ensure('supports', e.supports_.shape == a.supports_.shape and (e.supports_ == a.supports_).all())
        for what in ('scores_', 'estimates_', 'rp_max_idx_', 'coef_', 'intercept_'):
            x, z = getattr(e, what), getattr(a, what)
            t.ensure(what + ' as in the serial fit', np.shape(x) == np.shape(z) and np.allclose(x, z, 1e-4, 1e-6, True))
