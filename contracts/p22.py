"""P22: the caller's data are never modified, and no fitted attribute is the caller's array."""
from pydv.api import contract
from contracts.fitlib import B, LA, LG
from contracts.p16 import Quiet
from contracts import p17, mpilib

EN, PO = 'pyuoi.linear_model.elasticnet', 'pyuoi.linear_model.poisson'
CU, NM, DU = 'pyuoi.decomposition.CUR', 'pyuoi.decomposition.NMF', 'pyuoi.decomposition.utils'
U, LU, MP, D = 'pyuoi.utils', 'pyuoi.linear_model.utils', 'pyuoi.mpi_utils', 'pyuoi.datasets'


class Guard(object):
    """the caller's arrays, in any memory layout, with a copy of what they held"""

    def __init__(self, t):
        self.t, self.held = t, []

    def __call__(self, name, shape, kind='f', **o):
        t = self.t
        a = t.layout(name, t.array(name, shape, kind=kind, **o))
        self.held.append((name, a, a.copy()))
        return a

    def add(self, name, a):
        self.held.append((name, a, a.copy()))
        return a

    def unchanged(self, *owners):
        t = self.t
        for name, a, b in self.held:
            t.ensure_array('%s unchanged' % name.split()[0], a, t.shape(b), lambda *i: t.at(b, *i), tol=0)
            for o in owners:
                t.ensure_no_alias('no attribute is the array of the caller', o, a)


OPTS = [(True, True, True), (False, True, True), (True, False, False), (False, False, True)]


def base_fit(t, kind, k):
    """a whole fit of an UoI linear model, with solvers that overwrite what they are handed"""
    g = Guard(t)
    std, icpt, warm = t.choice('options', OPTS)
    n, d, n_tr = t.dim('n', lo=3), t.dim('d'), t.dim('n_tr')
    X = g('X', (n, d))
    if kind in ('shared', 'masked'):
        y, _, _ = t.labels('y', n, max(k, 2), user=True)
        if t.symbolic:
            g.add('y', y)
    else:
        y = g('y', (n,), kind='i' if kind == 'poisson' else 'f', **({'lo': 0, 'hi': 4} if kind == 'poisson' else {}))
        t.requires(t.any(n, lambda i: t.not_(t.at(y, i) == t.at(y, 0))))
    plan = [(t.array('train%d' % b, (n_tr,), kind='i', lo=0, hi=n - 1),
             t.array('test%d' % b, (1,), kind='i', lo=0, hi=n - 1)) for b in range(3)]
    u, v = t.array('u', (n_tr,)), t.array('v', (k,))
    est = p17.estimator(t, kind, dict(standardize=std, fit_intercept=icpt), warm)

    class Hostile(p17.Warm):
        def fit(self, A, b, coef_mask=None):
            p17.Warm.fit(self, A, b, coef_mask)
            A[:, :] = 9
            if coef_mask is None:
                b[:] = t.at(b, 0)
            return self
    # the sweep hands one resample to every fit of a bootstrap: only the estimation solver may overwrite it
    lms = p17.Warm(t, u, v, k, True), Hostile(t, u, v, k, False)
    if t.symbolic:
        class Empty(object):
            def __init__(self, b, output_dim):
                w = t.sum(t.shape(b)[0], lambda i: t.at(b, i)) / t.shape(b)[0]
                self.intercept_ = t.table((output_dim,), lambda c: w * (c + 1))

        def fixed(A, coef, b, output_dim):
            w = t.sum(t.shape(b)[0], lambda i: t.at(b, i) * t.at(A, i, 0)) * t.at(coef, 0, 0)
            return t.table((output_dim,), lambda c: w * (c + 1))
        t.keep_stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)
        t.keep_stub(LG, 'fit_intercept_fixed_coef', fixed)
    sup = t.array('support', (1, d * (k if kind == 'masked' else 1)), kind='b')
    p17.run(t, est, p17.Splits2(t, n, plan, u), X, y, v, k, lambda c: sup.copy(), lms)
    g.unchanged(est)


for _kind, _k in (('lasso', 1), ('elastic', 1), ('poisson', 1), ('shared', 1), ('shared', 3), ('masked', 3)):
    contract('P22', funcs=[B + '.AbstractUoILinearModel.fit', B + '.AbstractUoILinearModel._pre_fit',
                           B + '.AbstractUoILinearRegressor._pre_fit', B + '.AbstractUoILinearRegressor._post_fit',
                           B + '.AbstractUoIGeneralizedLinearRegressor._post_fit', LG + '.UoI_L1Logistic._pre_fit',
                           PO + '.UoI_Poisson._pre_fit', PO + '.UoI_Poisson._post_fit', PO + '.UoI_Poisson._fit_intercept'],
             n=40, budget=120, name='fit_%s_%d' % (_kind, _k))(lambda t, kind=_kind, k=_k: base_fit(t, kind, k))


class Minimisers(object):
    """stand-ins of the two minimisers: one evaluation at a point of their own, any result; the start is left alone"""

    def __init__(self, t):
        self.t, self.count = t, 0

    def fresh(self, x):
        self.count += 1
        return self.t.array('minimum %d' % self.count, self.t.shape(x))

    def lbfgs(self, f, x0, progress=None, args=(), **o):
        t = self.t
        f(x0.copy(), t.np.zeros(t.shape(x0)), *args)
        return self.fresh(x0)

    def lbfgsb(self, f, x0, fprime=None, args=(), **o):
        f(x0.copy(), *args)
        return self.fresh(x0), 0., {'warnflag': 0, 'nit': 1, 'task': b''}


@contract('P22', funcs=[PO + '.Poisson.fit', PO + '.Poisson._cd', PO + '.Poisson._pre_fit', PO + '.Poisson._post_fit',
                        PO + '.Poisson.predict', PO + '.Poisson.predict_mean', PO + '._poisson_loss_and_grad',
                        PO + '.Poisson.adjusted_response'], n=80, budget=120)
def poisson_solver(t):
    """fits and predictions of the Poisson solver, with weights, cold and warm"""
    g = Guard(t)
    std, icpt, warm = t.choice('options', OPTS)
    solver = t.choice('solver', ['lbfgs', 'cd'])
    n, d = t.dim('n', lo=2), t.dim('d')
    X = g('X', (n, d))
    y = g('y', (n,), kind='i', lo=0, hi=4)
    sw = g('weights', (n,), positive=True) if t.boolean('weights') else None
    t.requires(t.any(n, lambda i: t.at(y, i) > 0))
    m = Minimisers(t)
    t.stub(PO, 'fmin_lbfgs', m.lbfgs)
    est = t.mod(PO).Poisson(alpha=0.5, l1_ratio=0.5, fit_intercept=icpt, standardize=std, warm_start=warm, solver=solver, max_iter=1)
    if solver == 'cd':
        est._cd_sweep = lambda coef, X, w, z, active_idx, intercept=0: (m.fresh(coef), t.real('b'))
    est.fit(X, y, sample_weight=sw)
    g.unchanged(est)
    if warm and solver == 'lbfgs':
        est.fit(X, y, sample_weight=sw)
        g.unchanged(est)
    n2 = t.dim('n2')
    Z = g('Z', (n2, d))
    est.predict(Z), est.predict_mean(Z)
    g.unchanged(est)


def logistic_solver(t, k, penalty):
    g = Guard(t)
    std, icpt, warm = t.choice('options', OPTS)
    masked, weights = t.choice('mask and weights', [(False, True), (True, False), (True, True)])
    n, d = t.dim('n', lo=3), t.dim('d')
    X = g('X', (n, d))
    y, _, _ = t.labels('y', n, max(k, 2), user=True)
    if t.symbolic:
        g.add('y', y)
    sw = g('weights', (n,), positive=True) if weights else None
    mask = g('mask', (k, d) if k > 1 else (d,), kind='b') if masked else None
    m = Minimisers(t)
    t.stub(LG, 'fmin_lbfgs', m.lbfgs)
    t.stub('scipy.optimize', 'fmin_l_bfgs_b', m.lbfgsb)
    if t.symbolic:
        class Empty(object):
            def __init__(self, b, output_dim):
                self.intercept_ = t.array('start', (output_dim,))
        t.stub(LG, 'LogisticInterceptFitterNoFeatures', Empty)
    est = t.mod(LG).MaskedCoefLogisticRegression(penalty=penalty, C=2., fit_intercept=icpt, standardize=std, warm_start=warm)
    if warm:
        est.coef_, est.intercept_ = t.array('old', (k, d)), t.array('old intercept', (k,))
    est.fit(X, y, sample_weight=sw, coef_mask=mask)
    g.unchanged(est)


for _k, _p in ((1, 'l1'), (1, 'l2'), (3, 'l1'), (3, 'l2')):
    contract('P22', funcs=[LG + '.MaskedCoefLogisticRegression.fit', LG + '._logistic_regression_path',
                           LG + '.MaskedCoefLogisticRegression._pre_fit', LG + '.MaskedCoefLogisticRegression._post_fit',
                           LG + '._logistic_loss_and_grad', LG + '._multinomial_loss_grad', LG + '._multinomial_loss'],
             n=60, budget=150, name='logistic_%s_%d' % (_p, _k))(lambda t, k=_k, p=_p: logistic_solver(t, k, p))


@contract('P22', funcs=[LG + '._multinomial_loss_grad', LG + '._multinomial_loss', LG + '._logistic_loss_and_grad',
                        LG + '._intercept_dot', PO + '._poisson_loss_and_grad', U + '.softmax', U + '.sigmoid',
                        U + '.log_likelihood_glm', LU + '.intersection'], n=80)
def functions(t):
    """objective functions, links, scores and the intersection leave their arguments alone"""
    g = Guard(t)
    n, d, k = t.dim('n'), t.dim('d'), 2
    X, y = g('X', (n, d)), g('y', (n,), positive=True)
    what = t.choice('function', ['multinomial', 'logistic', 'poisson', 'links', 'intersection'])
    masked = t.boolean('mask')
    icpt = 1 if t.boolean('intercept') else 0
    if what == 'multinomial':
        # the point of an evaluation is scratch space of the minimisation: with a mask it is projected in place
        w = t.array('w', (k * (d + icpt),)) if masked else g('w', (k * (d + icpt),))
        Y, sw = g('Y', (n, k)), g('weights', (n,))
        mask = g('mask', (k, d), kind='b') if masked else None
        t.mod(LG)._multinomial_loss_grad(w, X, Y, 0.5, mask, sw)
    elif what == 'logistic':
        w = t.array('w', (d + icpt,)) if masked else g('w', (d + icpt,))
        sw = g('weights', (n,))
        mask = g('mask', (d,), kind='b') if masked else None
        t.mod(LG)._logistic_loss_and_grad(w, X, y, 0.5, mask, sw)
    elif what == 'poisson':
        w, sw = g('w', (d + icpt,)), g('weights', (n,)) if masked else None
        t.mod(PO)._poisson_loss_and_grad(w, X, y, 0.5, sw)
    elif what == 'links':
        t.mod(U).softmax(X), t.mod(U).sigmoid(y)
        p = g('p', (n,), positive=True)
        t.mod(U).log_likelihood_glm('poisson', y, p)
    else:
        C = g('coefs', (2, 1, d))
        t.mod(LU).intersection(C, [1])
    g.unchanged()


@contract('P22', funcs=[CU + '.UoI_CUR.fit', CU + '.CUR.fit', CU + '.UoI_CUR.transform', CU + '.CUR.transform',
                        DU + '.column_select'], n=60)
def columns(t):
    """column subsets are copies"""
    g = Guard(t)
    which = t.choice('class', ['uoi', 'cur'])
    frac = t.choice('fraction', [1, 0.8]) if which == 'uoi' else 1
    n, d = t.dim('n', lo=2), t.dim('d')
    X, V = g('X', (n, d)), t.array('V', (d, 2), lo=-1, hi=1)

    class SVD(object):
        def __init__(self, **o):
            pass

        def fit(self, A):
            self.components_ = V.T
            return self
    t.stub('sklearn.model_selection', 'train_test_split', lambda A, **o: (A[t.np.arange(1)], A[:1]), users=[CU])
    t.stub('sklearn.decomposition', 'TruncatedSVD', SVD, users=[CU])
    if which == 'uoi':
        est = t.mod(CU).UoI_CUR(n_boots=2, max_k=2, boots_frac=frac, random_state=3)
        ks, cs = g('ks', (2,), kind='i', lo=1, hi=2), g('cs', (2,), lo=1, hi=3)
        est.fit(X, ks=ks, cs=cs)
    else:
        est = t.mod(CU).CUR(max_k=2, random_state=3)
        est.fit(X, c=1.5)
    g.unchanged(est)
    Z = g('Z', (n, d))
    est.transform(Z)
    g.unchanged(est)
    W = g('W', (d, 2), lo=-1, hi=1)
    t.mod(DU).column_select(W, 2., leverage_sort=t.boolean('sort'), random_state=1)
    g.unchanged()


@contract('P22', funcs=[NM + '.UoI_NMF_Base.fit', NM + '.UoI_NMF_Base.transform', NM + '.UoI_NMF_Base.inverse_transform',
                        DU + '.dissimilarity'], n=60, budget=120)
def bases(t):
    """non-negative factorisations with a factorisation that overwrites its data"""
    g = Guard(t)
    n, d = t.dim('n'), t.dim('d')
    X, H = g('X', (n, d), lo=0, hi=4), t.array('H', (1, d), lo=0.1, hi=3)
    t.requires(t.sum(d, lambda j: t.at(H, 0, j)) > 0)
    use = t.boolean('dissimilarity')

    class Factoriser(object):
        def set_params(self, **o):
            return self

        def fit(self, A, y=None):
            A[:, :] = 7
            self.components_ = H.copy()
            return self

    class Cluster(object):
        def fit_predict(self, A, y=None):
            return t.np.zeros(A.shape[0], dtype=int)
    est = t.mod(NM).UoI_NMF_Base(n_boots=2, ranks=[1], nmf=Factoriser(), cluster=Cluster(), random_state=3, use_dissimilarity=use,
                                 nnreg=lambda A, b: t.np.ones(A.shape[1]))
    est.fit(X)
    g.unchanged(est)
    Z, W = g('Z', (n, d), lo=0, hi=4), g('W', (n, 1), lo=0, hi=4)
    est.transform(Z, reconstruction_err=not t.symbolic), est.inverse_transform(W)
    g.unchanged(est)
    A, C = g('A', (2, d), lo=0, hi=4), g('C', (2, d), lo=0, hi=4)
    t.mod(DU).dissimilarity(A, C)
    g.unchanged(est)


@contract('P22', funcs=[MP + '.Bcast_from_root', MP + '.Gatherv_rows'], n=80)
def collectives(t):
    """what a rank sends is still its own"""
    size, root = t.choice('ranks and root', [(s, r) for s in (2, 3) for r in range(s)])
    d = t.dim('d')
    g = Guard(t)
    nd = t.choice('dimensions', [1, 2])
    send = [g('rows %d' % r, (t.dim('m%d' % r),) + (d,) * (nd - 1)) for r in range(size)]
    w = mpilib.World(t, size)
    m = t.mod(MP)
    w.run(lambda comm: m.Gatherv_rows(send[comm.rank], comm, root=root))
    g.unchanged()
    w = mpilib.World(t, size)
    w.run(lambda comm: m.Bcast_from_root(send[root] if comm.rank == root else None, comm, root=root))
    g.unchanged()


@contract('P22', funcs=[D + '.make_linear_regression', D + '.make_poisson_regression'], n=60)
def given_coefficients(t):
    """coefficients handed to a generator stay as they are"""
    g = Guard(t)
    n, d, k = t.dim('n'), t.dim('d'), t.integer('n_informative', lo=0, hi=6)
    beta = g('beta', (d,), lo=-1, hi=1)
    b = t.boolean('intercept')
    t.mod(D).make_linear_regression(n_samples=n, n_features=d, n_informative=k, beta=beta, include_intercept=b, random_state=3)
    t.mod(D).make_poisson_regression(n_samples=n, n_features=d, n_informative=k, beta=beta, include_intercept=b, random_state=3)
    g.unchanged()


@contract('P22', funcs=[B + '.AbstractUoILinearModel.fit', CU + '.UoI_CUR.fit', CU + '.CUR.fit', NM + '.UoI_NMF_Base.fit',
                        PO + '.Poisson.fit', LG + '.MaskedCoefLogisticRegression.fit', 'pyuoi.lbfgs.fmin_lbfgs',
                        LA + '.UoI_Lasso.uoi_selection_sweep'], proof=False, n=80,
          bounded='80 random small data sets in random memory layouts and dtypes, with the real solvers')
def whole_calls(t):
    """with the real solvers: fits, predictions, transforms and minimisations of data of any layout and dtype"""
    np = t.np
    import warnings
    m, c = t.choice('class', [(LA, 'UoI_Lasso'), (EN, 'UoI_ElasticNet'), (LG, 'UoI_L1Logistic'), (PO, 'UoI_Poisson'),
                              (PO, 'Poisson'), (LG, 'MaskedCoefLogisticRegression'), (CU, 'UoI_CUR'), (CU, 'CUR'), (NM, 'UoI_NMF'),
                              ('pyuoi.lbfgs', 'fmin_lbfgs')])
    std, icpt, warm = t.boolean('standardize'), t.boolean('fit intercept'), t.boolean('warm start')
    n, d = t.integer('rows', lo=16, hi=24), t.integer('columns', lo=3, hi=5)
    dt = t.choice('dtype', [np.float64, np.float32, np.int64])
    g = Guard(t)
    X = np.array(t.array('X', (n, d), lo=-3, hi=3))
    if dt is np.int64:
        X = np.round(X)
    if m == NM:
        X = np.abs(X) + 1
    if c in ('UoI_Lasso', 'UoI_ElasticNet'):
        y = X[:, 0] * 2 - X[:, 1] + np.array(t.array('noise', (n,))) * 0.1
    elif m == LG:
        y = np.arange(n) * 7 % 5 % t.choice('classes', [2, 3])
    else:
        y = np.floor(np.exp(X[:, 0] / 2) + np.abs(X[:, 1])) + (np.arange(n) % 2)
    Xc, yc = g.add('X', t.layout('X', X.astype(dt))), g.add('y', t.layout('y', y))
    o, kw = {}, {}
    if c.startswith('UoI') and m not in (CU, NM):
        o = dict(n_boots_sel=2, n_boots_est=2, standardize=std, fit_intercept=icpt, warm_start=warm, random_state=3,
                 **{'n_C' if m == LG else 'n_lambdas': 3})
        if c in ('UoI_Lasso', 'UoI_ElasticNet'):
            o['copy_X'] = t.boolean('copy_X')
        if m == LG and t.boolean('stratify'):
            kw['stratify'] = g.add('stratify', yc.copy())
    elif c == 'UoI_CUR':
        o = dict(n_boots=2, max_k=2, boots_frac=t.choice('fraction', [1, 0.8]), random_state=3)
    elif c == 'CUR':
        o = dict(max_k=2, random_state=3)
    elif c == 'UoI_NMF':
        o = dict(n_boots=2, ranks=[2], random_state=3)
    elif c == 'Poisson':
        o = dict(alpha=0.1, standardize=std, fit_intercept=icpt, warm_start=warm, solver=t.choice('solver', ['lbfgs', 'cd']))
    elif c == 'MaskedCoefLogisticRegression':
        o = dict(standardize=std, fit_intercept=icpt, C=1., penalty=t.choice('penalty', ['l1', 'l2']), warm_start=warm)
        k = len(set(y))
        if t.boolean('masked'):
            shape = (k, d) if k > 2 else (d,)
            kw['coef_mask'] = g.add('mask', t.layout('mask', np.array(t.array('mask', shape, kind='b'))))
    if c in ('Poisson', 'MaskedCoefLogisticRegression') and t.boolean('weights'):
        kw['sample_weight'] = g.add('weights', t.layout('weights', np.array(t.array('weights', (n,), lo=0.5, hi=2))))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c == 'fmin_lbfgs':
            x0 = g.add('x0', t.layout('x0', np.array(t.array('x0', (d,)))))
            A = Xc.astype(float)
            A = g.add('A', A.T @ A + np.eye(d))

            def f(x, grad, A, b):
                grad[:] = A @ x - b
                return x @ A @ x / 2 - b @ x
            b = g.add('b', np.array(t.array('b', (d,))))
            try:
                t.mod(m).fmin_lbfgs(f, x0, args=(A, b), orthantwise_c=t.choice('c', [0, 0.5]))
            except t.mod(m).LBFGSError:
                pass
            g.unchanged()
            return
        est = getattr(t.mod(m), c)(**o)
        for rep in range(2 if warm else 1):
            est.fit(Xc, **kw) if m in (CU, NM) else est.fit(Xc, yc, **kw)
            g.unchanged(est)
        est.transform(Xc) if m in (CU, NM) else est.predict(Xc)
        if m == LG:
            est.predict_proba(Xc)
        g.unchanged(est)
