"""P16: a seed determines every random number."""
from pydv.api import contract
from contracts.fitlib import B, LA, LG, Splits, Fitter, data

EN, PO = 'pyuoi.linear_model.elasticnet', 'pyuoi.linear_model.poisson'
CU, NM, UT = 'pyuoi.decomposition.CUR', 'pyuoi.decomposition.NMF', 'pyuoi.decomposition.utils'
D = 'pyuoi.datasets'


class Quiet(object):
    def setLevel(self, *a):
        pass
    info = debug = warning = error = setLevel


class Rank(object):
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


CLASSES = [(LA, 'UoI_Lasso', {}), (EN, 'UoI_ElasticNet', {}), (LG, 'UoI_L1Logistic', {}), (PO, 'UoI_Poisson', {}),
           (LA, 'UoI_Lasso', {'solver': 'pyc'})]


@contract('P16', funcs=[B + '.AbstractUoILinearModel.__init__', LA + '.UoI_Lasso.__init__', EN + '.UoI_ElasticNet.__init__',
                        LG + '.UoI_L1Logistic.__init__', PO + '.UoI_Poisson.__init__'], n=150)
def seeding(t):
    """the stream of an estimator is that of its seed (plus its rank), or the generator it was given"""
    m, c, o = t.choice('class', CLASSES[:4])
    s = t.integer('seed', lo=0, hi=1000, py=t.boolean('Python integer'))
    comm, given = t.choice('comm', [False, True]), t.choice('generator', [False, True])
    rank = t.integer('rank', lo=0, hi=6) if comm else 0
    seen = t.watch_global()
    gen = t.random_state(s)
    est = getattr(t.mod(m), c)(random_state=gen if given else s, comm=Rank(rank, 7) if comm else None, logger=Quiet(), **o)
    if given:
        t.ensure('the generator of the caller', est.random_state is gen)
    ref = t.random_state(s if given else s + rank)
    for k in range(2):
        t.ensure_eq('draws of the seed', est.random_state.uniform(), ref.uniform())
    seen('global generator untouched')


def drawn(t, state):
    """what a consumer that takes one number of the stream it is handed gets"""
    if state is None:
        return t.np.random.uniform()
    if t.is_integer(state):
        return t.random_state(state).uniform()
    return state.uniform()


class DrawnSplits(Splits):
    def __init__(self, *a):
        Splits.__init__(self, *a)
        self.draws = []

    def __call__(self, *arrays, **kw):
        self.draws.append(drawn(self.t, kw.get('random_state')))
        return Splits.__call__(self, *arrays, **kw)


def linear_fit(t, kind, nb, inp, state):
    n, d, n_tr, n_te, idx, X, y, sup, u, v, uc = inp
    k = 1 if kind == 'linear' else 2
    o = dict(n_boots_sel=nb[0], n_boots_est=nb[1], standardize=False, random_state=state)
    est = t.mod(LA).UoI_Lasso(**o) if kind == 'linear' else t.mod(LG).UoI_L1Logistic(**o)
    est.output_dim = k
    sp = DrawnSplits(t, n, idx)
    t.stub('sklearn.model_selection', 'train_test_split', sp, users=[B])
    est._pre_fit = lambda A, b: (A, b)
    est.get_reg_params = lambda A, b: [{}]
    est.uoi_selection_sweep = lambda A, b, ps: t.np.zeros((1, k * d))
    est.intersect = lambda c, thr: sup.copy()
    est._estimation_lm = Fitter(t, u, v, k, d)

    class Empty(object):
        def __init__(self, b):
            pass
    est._fit_intercept_no_features = Empty
    est._score_predictions = lambda **kw: t.sum(n_te, lambda i: t.at(uc, i) * t.at(kw['boot_idxs'][1], i))

    def icpt(A, b):
        est.intercept_ = t.np.zeros(k)
    est._fit_intercept = icpt
    est._post_fit = lambda A, b: None
    est.fit(X, y, stratify=None)
    return sp.draws


@contract('P16', funcs=[B + '.AbstractUoILinearModel.fit'], n=60)
def resamples(t):
    """all resamples of a fit come from the stream of the estimator, which advances from one to the next"""
    kind, nb = t.choice('kind', ['linear', 'shared']), t.choice('bootstraps', [(1, 1), (2, 1), (1, 2), (3, 2)])
    n, d, n_tr, n_te, idx, X, y = data(t, sum(nb))
    k = 1 if kind == 'linear' else 2
    inp = (n, d, n_tr, n_te, idx, X, y, t.array('sup', (1, d * (k if kind == 'linear' else 1)), kind='b'), t.array('u', (n_tr,)),
           t.array('v', (k,)), t.array('uc', (n_te,)))
    s = t.integer('seed', lo=0, hi=1000, py=t.boolean('Python integer'))
    seen = t.watch_global()
    a = linear_fit(t, kind, nb, inp, s)
    t.ensure('one resample per bootstrap', len(a) == sum(nb))
    t.ensure_advanced('the stream advances', a)
    seen('global generator untouched')
    seen = t.watch_global()
    b = linear_fit(t, kind, nb, inp, t.random_state(s))
    t.ensure('as many draws', len(a) == len(b))
    for p, q in zip(a, b):
        t.ensure_eq('same numbers in the second run', p, q)
    seen('global generator untouched')


def cur_fit(t, which, nb, frac, X, n, d, V, state):
    draws = {'split': [], 'svd': [], 'columns': []}
    ks = [1, 2]

    def split(A, test_size=None, train_size=None, stratify=None, random_state=None):
        draws['split'].append(drawn(t, random_state))
        return A, A[:1]

    class SVD(object):
        def __init__(self, n_components=2, algorithm='randomized', n_iter=5, random_state=None, tol=0.):
            self.state, self.components_ = random_state, None

        def fit(self, A):
            draws['svd'].append(drawn(t, self.state))
            self.components_ = V.T
            return self
    sel = t.mod(UT).column_select

    def select(V, c, leverage_sort=False, random_state=None):
        draws['columns'].append(drawn(t, random_state))
        return sel(V, c, leverage_sort=leverage_sort, random_state=random_state)
    t.stub('sklearn.model_selection', 'train_test_split', split, users=[CU])
    t.stub('sklearn.decomposition', 'TruncatedSVD', SVD, users=[CU])
    t.stub(UT, 'column_select', select, users=[CU])
    if which == 'uoi':
        est = t.mod(CU).UoI_CUR(n_boots=nb, max_k=2, boots_frac=frac, random_state=state)
        est.fit(X, ks=ks, cs=1.5)
    else:
        est = t.mod(CU).CUR(max_k=2, random_state=state)
        est.fit(X, c=1.5)
    t.unstub()
    return draws


@contract('P16', funcs=[CU + '.UoI_CUR.fit', CU + '.CUR.fit'], n=80)
def column_draws(t):
    """resamples, singular vectors and column draws come from streams of the seed that advance"""
    which = t.choice('class', ['uoi', 'cur'])
    nb, frac = t.choice('bootstraps', [(1, 0.8), (2, 0.8), (2, 1)]) if which == 'uoi' else (1, 1)
    n, d = t.dim('n', lo=2), t.dim('d')
    X, V = t.array('X', (n, d)), t.array('V', (d, 2), lo=-1, hi=1)
    s = t.integer('seed', lo=0, hi=1000, py=t.boolean('Python integer'))
    seen = t.watch_global()
    a = cur_fit(t, which, nb, frac, X, n, d, V, s)
    b = cur_fit(t, which, nb, frac, X, n, d, V, s)
    g1 = cur_fit(t, which, nb, frac, X, n, d, V, t.random_state(s))
    g2 = cur_fit(t, which, nb, frac, X, n, d, V, t.random_state(s))
    for what in a:
        for p, q in ((a, b), (g1, g2)):
            t.ensure('as many draws', len(p[what]) == len(q[what]))
            for x, y in zip(p[what], q[what]):
                t.ensure_eq('same numbers in the second run', x, y)
            t.ensure_advanced('the stream advances', p[what])
    seen('global generator untouched')


def nmf_fit(t, nb, ranks, use, X, H, n, d, state, own):
    draws = []

    class Factoriser(object):
        state = None

        def __init__(self, **o):
            self.set_params(**o)

        def set_params(self, **o):
            for k in o:
                setattr(self, k, o[k])
            return self

        def fit(self, S, y=None):
            if 'random_state' in vars(self):
                self.state = self.random_state
            draws.append(drawn(t, self.state))
            self.components_ = H[self.n_components]
            rows.append(S)
            return self
    rows = []

    class Cluster(object):
        def __init__(self, **o):
            pass

        def fit_predict(self, A, y=None):
            return t.np.zeros(A.shape[0], dtype=int)
    t.stub('sklearn.decomposition', 'NMF', Factoriser, users=[NM])
    t.stub('sklearn.cluster', 'DBSCAN', Cluster, users=[NM])
    if use:
        t.stub(UT, 'dissimilarity', lambda A, C: 0.5, users=[NM])
    if own:
        est = t.mod(NM).UoI_NMF_Base(n_boots=nb, ranks=ranks, nmf=Factoriser(), cluster=Cluster(), random_state=state,
                                     use_dissimilarity=use)
    else:
        est = t.mod(NM).UoI_NMF(n_boots=nb, ranks=ranks, random_state=state, use_dissimilarity=use)
    est.fit(X)
    t.unstub()
    return draws, rows


@contract('P16', funcs=[NM + '.UoI_NMF_Base.fit', NM + '.UoI_NMF_Base.__initialize', NM + '.UoI_NMF.__init__'], n=60, budget=120)
def factorisations(t):
    """resamples and factorisations draw from one stream that advances over bootstraps and ranks"""
    nb, ranks, use = t.choice('fit', [(2, [1], True), (2, [2, 1], False), (3, [1], True)])
    own = t.boolean('factorisation of the caller')
    n, d = t.dim('n'), t.dim('d')
    X = t.array('X', (n, d), lo=0, hi=4)
    H = {k: t.array('H%d' % k, (k, d), lo=0.1, hi=3) for k in set(ranks)}
    for k in H:
        for i in range(k):
            t.requires(t.sum(d, lambda j: t.at(H[k], i, j)) > 0)
    s = t.integer('seed', lo=0, hi=1000, py=t.boolean('Python integer'))
    seen = t.watch_global()
    a, ra = nmf_fit(t, nb, ranks, use, X, H, n, d, s, own)
    b, rb = nmf_fit(t, nb, ranks, use, X, H, n, d, t.random_state(s), own)
    t.ensure('one factorisation per bootstrap and rank', len(a) == len(b) == nb * len(ranks))
    for x, y in zip(a, b):
        t.ensure_eq('same numbers in the second run', x, y)
    for x, y in zip(ra, rb):
        t.ensure_shape('resample', x, (n, d))
        t.ensure_array('same rows in the second run', y, (n, d), lambda i, j: t.at(x, i, j))
    t.ensure_advanced('the stream advances', a)
    seen('global generator untouched')


@contract('P16', funcs=[UT + '.column_select'], n=100)
def selected_columns(t):
    """equal seeds, equal columns"""
    d = t.dim('d')
    V, c = t.array('V', (d, 2), lo=-1, hi=1), t.real('c', lo=0.1, hi=20)
    s = t.integer('seed', lo=0, hi=1000, py=t.boolean('Python integer'))
    srt = t.boolean('sort')
    seen = t.watch_global()
    f = t.mod(UT).column_select
    a, b = f(V, c, leverage_sort=srt, random_state=s), f(V, c, leverage_sort=srt, random_state=t.random_state(s))
    t.ensure_array('same columns in the second run', b, t.shape(a), lambda i: t.at(a, i))
    seen('global generator untouched')


def twice(t, make):
    s = t.integer('seed', lo=0, hi=1000, py=t.boolean('Python integer'))
    seen = t.watch_global()
    a = make(s)
    seen('global generator untouched')
    seen = t.watch_global()
    b = make(t.random_state(s))
    seen('global generator untouched')
    for x, y in zip(a, b):
        if t.ndim(x) == 0:
            t.ensure_eq('same number in the second run', x, y, tol=0)
        else:
            t.ensure_array('same numbers in the second run', y, t.shape(x), lambda *i: t.at(x, *i), tol=0)


@contract('P16', funcs=[D + '.make_linear_regression'], n=80)
def linear_dataset(t):
    """equal seeds, equal data"""
    n, d, k = t.dim('n'), t.dim('d'), t.integer('n_informative', lo=0, hi=6)
    b = t.boolean('intercept')
    twice(t, lambda s: t.mod(D).make_linear_regression(n_samples=n, n_features=d, n_informative=k, include_intercept=b,
                                                       random_state=s))


@contract('P16', funcs=[D + '.make_poisson_regression'], n=80)
def poisson_dataset(t):
    """equal seeds, equal data"""
    n, d, k = t.dim('n'), t.dim('d'), t.integer('n_informative', lo=0, hi=6)
    b = t.boolean('intercept')
    twice(t, lambda s: t.mod(D).make_poisson_regression(n_samples=n, n_features=d, n_informative=k, include_intercept=b,
                                                        beta_scale=0.1, random_state=s))


@contract('P16', funcs=[D + '.make_classification'], n=80)
def classification_dataset(t):
    """equal seeds, equal data"""
    n, d, k = t.dim('n'), t.dim('d', lo=2), t.choice('classes', [2, 3])
    ni = t.integer('n_informative', lo=0, hi=6)
    b, sh = t.boolean('intercept'), t.boolean('shared')
    twice(t, lambda s: t.mod(D).make_classification(n_samples=n, n_features=d, n_informative=ni, n_classes=k, shared_support=sh,
                                                    include_intercept=b, random_state=s))


@contract('P16', funcs=[B + '.AbstractUoILinearModel.fit', CU + '.UoI_CUR.fit', CU + '.CUR.fit', NM + '.UoI_NMF_Base.fit',
                        NM + '.UoI_NMF_Base.transform'], proof=False, n=30,
          bounded='whole fits on 30 random small data sets, each run twice with and without a generator, the state of the global '
                  'generator perturbed in between')
def whole_runs(t):
    """two equally seeded runs with the real solvers give identical results and leave the global generator alone"""
    np = t.np
    m, c, o = t.choice('class', CLASSES[:4] + [(CU, 'UoI_CUR', {}), (CU, 'CUR', {}), (NM, 'UoI_NMF', {})])
    n, d = t.integer('rows', lo=16, hi=24), t.integer('columns', lo=3, hi=5)
    s = t.integer('seed', lo=0, hi=10 ** 6, py=t.boolean('Python integer'))
    X = np.array(t.array('X', (n, d), lo=-2, hi=2))
    kind = t.boolean('generator')
    if c in ('UoI_Lasso', 'UoI_ElasticNet'):
        y = X[:, 0] * 2 - X[:, 1] + np.array(t.array('noise', (n,))) * 0.1
        o = dict(n_boots_sel=2, n_boots_est=2, n_lambdas=3)
    elif c == 'UoI_L1Logistic':
        y = (np.arange(n) * 7 % 5 < 2).astype(int)
        o = dict(n_boots_sel=2, n_boots_est=2, n_C=3)
    elif c == 'UoI_Poisson':
        y = np.floor(np.exp(X[:, 0] / 2) + np.abs(X[:, 1])) + (np.arange(n) % 2)
        o = dict(n_boots_sel=2, n_boots_est=2, n_lambdas=3)
    elif c == 'UoI_CUR':
        o = dict(n_boots=2, max_k=2, boots_frac=0.8)
    elif c == 'CUR':
        o = dict(max_k=2)
    else:
        o = dict(n_boots=2, ranks=[2])
        X = np.abs(X) + 0.01

    def run():
        import warnings
        seen = t.watch_global()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            est = getattr(t.mod(m), c)(random_state=t.random_state(s) if kind else s, **o)
            if m in (CU, NM):
                est.fit(X)
                r = [est.components_] + ([est.column_indices_] if m == CU else [])
                r.append(est.transform(X))
            else:
                est.fit(X, y)
                r = [est.coef_, est.intercept_, est.supports_, est.scores_]
        seen('global generator untouched')
        return r
    a, b = run(), run()
    for p, q in zip(a, b):
        t.ensure('identical results', np.array_equal(np.asarray(p), np.asarray(q), equal_nan=True))
