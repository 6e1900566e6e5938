"""P15: NMF bases are consensus clusters; transforms are row-wise regressions."""
from pydv.api import contract

UT = 'pyuoi.decomposition.utils'
NM = 'pyuoi.decomposition.NMF'
BASE = NM + '.UoI_NMF_Base'


def norm(t, d, row):
    return t.sqrt(t.sum(d, lambda j: row(j) * row(j)))


def unit(t, d, row):
    """the row over its length; a zero row stays zero"""
    s = norm(t, d, row)
    return lambda j: row(j) / t.ite(s == 0, 1, s)


def diss(t, A, B, k, d):
    a, b = [unit(t, d, lambda j, i=i: A(i, j)) for i in range(k)], [unit(t, d, lambda j, i=i: B(i, j)) for i in range(k)]
    C = [[t.sum(d, lambda j: a[i](j) * b[e](j)) for e in range(k)] for i in range(k)]
    tot = 0
    for i in range(k):
        tot = tot + most(t, C[i]) + most(t, [C[e][i] for e in range(k)])
    return 1 - tot / (2 * k)


def most(t, xs):
    m = xs[0]
    for x in xs[1:]:
        m = t.maximum(m, x)
    return m


@contract('P15', funcs=[UT + '.dissimilarity'], n=150)
def best_matches(t):
    """one minus the average best cosine match, in both directions"""
    k, d = t.choice('k', [1, 2, 3]), t.dim('d')
    A, B = t.array('A', (k, d), lo=0, hi=2), t.array('B', (k, d), lo=0, hi=2)
    z = t.choice('zero row', [False, True])
    if z:
        A0 = A
        A = t.table((k, d), lambda i, j: t.ite(i == 0, 0, t.at(A0, i, j)))
    r = t.mod(UT).dissimilarity(A, B)
    t.ensure_eq('dissimilarity', r, diss(t, lambda i, j: t.at(A, i, j), lambda i, j: t.at(B, i, j), k, d))


def fresh(t, k, d, **o):
    est = t.mod(NM).UoI_NMF_Base(n_boots=3, ranks=[2], random_state=5, nmf=Factoriser(t), cluster=object(), **o)
    H = t.array('H', (k, d), lo=0, hi=2)
    est.components_, est.n_components, est.reconstruction_err_ = H, k, None
    return est, H


class Factoriser(object):
    """recording stand-in of the factorisation: arbitrary bases for each call"""

    def __init__(self, t, fit=None):
        self.t, self.k, self.on_fit, self.params = t, None, fit, {}

    def set_params(self, **o):
        if 'n_components' in o:
            self.k = o.pop('n_components')
        self.params.update(o)
        return self

    def fit(self, X, y=None):
        self.components_ = self.on_fit(X, self.k)
        return self

    def fit_transform(self, X, y=None):
        self.fit(X)
        return None


class Regression(object):
    """stand-in of the non-negative regression of row 0, 1, ... in order"""

    def __init__(self, t, H, X, W, k, d):
        self.t, self.H, self.X, self.W, self.k, self.d, self.count = t, H, X, W, k, d, 0

    def __call__(self, A, b):
        t, c = self.t, self.count
        t.ensure_array('bases as columns', A, (self.d, self.k), lambda j, q: t.at(self.H, q, j))
        t.ensure_array('the row', b, (self.d,), lambda j: t.at(self.X, c, j))
        self.count = c + 1
        return t.table((self.k,), lambda q: t.at(self.W, c, q))


@contract('P15', funcs=[BASE + '.transform', BASE + '.inverse_transform'], n=150)
def rowwise(t):
    """transform regresses every row on the bases, in floating point, and reports the distance of the reconstruction"""
    n, d, k = t.dim('n'), t.dim('d'), t.dim('k')
    kind = t.choice('kind', ['f', 'i'])
    X, W = t.array('X_' + kind, (n, d), kind, 0, 4), t.array('W', (n, k), lo=0, hi=3)
    how = t.choice('regression', ['default', 'function'])
    box = []
    if how == 'default':
        t.stub('scipy.optimize', 'nnls', lambda A, b, maxiter=None: (box[0](A, b), 0.), users=[NM])
        est, H = fresh(t, k, d)
    else:
        est, H = fresh(t, k, d, nnreg=lambda A, b: box[0](A, b))
    box.append(Regression(t, H, X, W, k, d))
    err = t.choice('error', [True, False])
    R = est.transform(X, reconstruction_err=err)
    t.ensure_eq('every row', box[0].count, n)
    t.ensure_array('coefficients', R, (n, k), lambda i, q: t.at(W, i, q))
    model = lambda i, j: t.sum(k, lambda q: t.at(W, i, q) * t.at(H, q, j))
    if err:
        t.ensure_eq('reconstruction error', est.reconstruction_err_, t.sqrt(t.sum(n, lambda i: t.sum(d, lambda j: (
            t.at(X, i, j) - model(i, j)) * (t.at(X, i, j) - model(i, j))))))
    else:
        t.ensure('no reconstruction error', est.reconstruction_err_ is None)
    t.ensure_array('inverse transform', est.inverse_transform(W), (n, d), model)


@contract('P15', funcs=[BASE + '.transform', BASE + '.inverse_transform'])
def wrong_shapes(t):
    d, k, n = t.dim('d'), t.dim('k'), t.dim('n')
    est, H = fresh(t, k, d, nnreg=lambda A, b: t.fail('no regression'))
    d2, k2 = t.dim('d2'), t.dim('k2')
    t.requires(t.not_(d2 == d))
    t.requires(t.not_(k2 == k))
    bad, r = t.raises(ValueError, lambda: est.transform(t.array('X', (n, d2), lo=0, hi=1)))
    t.ensure('other number of features is rejected', bad)
    bad, r = t.raises(ValueError, lambda: est.inverse_transform(t.array('W', (n, k2), lo=0, hi=1)))
    t.ensure('other number of components is rejected', bad)


class Draws(object):
    def __init__(self, t, idx, nb, n):
        self.t, self.idx, self.nb, self.n, self.used = t, idx, nb, n, 0

    def randint(self, low, high=None, size=None, dtype=int):
        t = self.t
        if high is None:
            low, high = 0, low
        t.ensure('rows drawn from all rows', t.and_(low == 0, high == self.n))
        self.used += 1
        t.ensure_eq('resamples', size[0], self.nb)
        t.ensure_eq('size of a resample', size[1], self.n)
        return self.idx


@contract('P15', funcs=[BASE + '.fit'], n=200, budget=240)
def consensus(t):
    """resamples, chosen rank, clustered bases, consensus of each cluster"""
    nb, ranks, use = t.choice('fit', [(2, [1], True), (2, [1, 2], True), (3, (2, 1), True), (1, [2, 1], False), (2, [2, 1], False),
                                      (2, [2], True)])
    n, d = t.dim('n'), t.dim('d')
    X = t.array('X', (n, d), lo=0, hi=4)
    idx = t.array('rows', (nb, n), kind='i', lo=0, hi=n - 1)
    H = {(b, e): t.array('H %d %d' % (b, e), (k, d), lo=0.1, hi=3) for b in range(nb) for e, k in enumerate(ranks)}
    zero = t.choice('zero basis', [None, 0, -1])
    if zero is not None:
        b, e = sorted(H)[zero]
        H0 = H[b, e]
        H[b, e] = t.table((ranks[e], d), lambda i, j: t.ite(i == ranks[e] - 1, 0, t.at(H0, i, j)))
        zero = (b, e, ranks[e] - 1)
    for (b, e), A in H.items():
        for i in range(ranks[e]):
            if (b, e, i) != zero:
                t.requires(t.sum(d, lambda j: t.at(A, i, j)) > 0)
    asked = []

    def factorise(S, k):
        b, e = len(asked) // len(ranks), len(asked) % len(ranks)
        asked.append(k)
        t.ensure('a factorisation of each rank in each bootstrap', b < nb and k == ranks[e])
        t.ensure_array('rows of the resample', S, (n, d), lambda i, j: t.at(X, t.at(idx, b, i), j))
        return H[b, e]
    got = []
    D, pair = [], {}
    if use:
        for e, k in enumerate(ranks):
            s = 0
            for a in range(nb):
                for b in range(a + 1, nb):
                    pair[e, a, b] = t.real('diss %d %d %d' % (e, a, b), lo=0, hi=1)
                    s = s + pair[e, a, b]
            D.append(s)

        def dis(A, B):
            q = len(got)
            pairs = [(e, a, b) for e in range(len(ranks)) for a in range(nb) for b in range(a + 1, nb)]
            t.ensure('every pair of bootstraps once', q < len(pairs))
            e, a, b = pairs[q]
            got.append(q)
            for M, c in ((A, a), (B, b)):
                t.ensure_array('bases of the pair', M, (ranks[e], d), lambda i, j: t.at(H[c, e], i, j))
            return pair[e, a, b]
        t.stub(UT, 'dissimilarity', dis, users=[NM])
        best = 0
        for e in range(1, len(ranks)):
            best = e if t.and_(*[D[e] < D[g] for g in range(e)]) else best
        use_e = [best]
    else:
        use_e = list(range(len(ranks)))
    rows = [(b, e, i) for e in use_e for b in range(nb) for i in range(ranks[e]) if (b, e, i) != zero]
    m = len(rows)
    t.requires(m > 0)
    C = t.choice('clusters', [1, 2])
    L = t.array('labels', (m,), kind='i', lo=-1, hi=max(C - 1, 0))
    for c in range(C):
        t.requires(t.or_(*[t.at(L, i) == c for i in range(m)]))
    bases = [unit(t, d, lambda j, r=r: t.at(H[r[0], r[1]], r[2], j)) for r in rows]

    clustered = []

    class Cluster(object):
        def fit_predict(self, B, y=None):
            clustered.append(B)
            t.ensure_shape('unit bases of the chosen ranks', B, (m, d))
            for q in range(m):
                t.each(d, lambda j: t.ensure_eq('unit bases of the chosen ranks', t.at(B, q, j), bases[q](j)))
            return L
    est = t.mod(NM).UoI_NMF_Base(n_boots=nb, ranks=ranks, nmf=Factoriser(t, factorise), cluster=Cluster(), random_state=3,
                                 use_dissimilarity=use)
    draws = est._rand = Draws(t, idx, nb, n)
    r = est.fit(X)
    t.ensure('returns the estimator', r is est)
    t.ensure('all factorisations', len(asked) == nb * len(ranks) and draws.used == 1 and len(clustered) == 1)
    t.ensure('all pairs', len(got) == (len(ranks) * nb * (nb - 1) // 2 if use else 0))

    def mean(c):
        size = sum(t.ite(t.at(L, i) == c, 1, 0) for i in range(m))
        return lambda j: sum(t.ite(t.at(L, i) == c, bases[i](j), 0) for i in range(m)) / size
    cons = [unit(t, d, mean(c)) for c in range(C)]
    t.ensure_shape('components', est.components_, (C, d))
    for c in range(C):
        t.each(d, lambda j: t.ensure_eq('unit mean of the bases of the cluster', t.at(est.components_, c, j), cons[c](j)))
    t.ensure_eq('number of components', est.n_components, C)
    if use:
        for e in range(len(ranks)):
            t.ensure_eq('mean dissimilarity', t.at(est.dissimilarity_, e), 2 * D[e] / (nb * (nb - 1)))


@contract('P15', funcs=[NM + '.UoI_NMF.__init__', BASE + '.__init__', BASE + '.__initialize'], n=60)
def options(t):
    """options reach the factorisation and the clustering under their own names; an integer r means the ranks 2..r"""
    nb = t.integer('n_boots', lo=2, hi=30)
    made = {}

    class Record(object):
        def __init__(self, **o):
            made[type(self).__name__] = o
            self.options = o

        def set_params(self, **o):
            self.options = dict(self.options, **o)
            return self

    class NMF(Record):
        pass

    class DBSCAN(Record):
        pass
    t.stub('sklearn.decomposition', 'NMF', NMF, users=[NM])
    t.stub('sklearn.cluster', 'DBSCAN', DBSCAN, users=[NM])
    kr = t.choice('ranks', ['int', 'list', 'tuple'])
    ranks = {'int': 4, 'list': [3, 2], 'tuple': (5,)}[kr]
    dbm = t.choice('min_samples', [None, 7])
    tol, eps = t.real('tol', lo=0, hi=1), t.real('eps', lo=0, hi=2)
    est = t.mod(NM).UoI_NMF(nb, ranks=ranks, nmf_init='nndsvd', nmf_solver='cd', nmf_beta_loss='frobenius', nmf_tol=tol,
                            nmf_max_iter=17, db_eps=eps, db_min_samples=dbm, db_metric='cosine', db_metric_params={'a': 1},
                            db_algorithm='brute', use_dissimilarity=False, random_state=4)
    t.ensure('ranks', list(est.ranks) == {'int': [2, 3, 4], 'list': [3, 2], 'tuple': [5]}[kr])
    o = est.nmf.options
    t.ensure('factorisation', type(est.nmf).__name__ == 'NMF' and o['init'] == 'nndsvd' and o['solver'] == 'cd' and
             o['beta_loss'] == 'frobenius' and o['max_iter'] == 17)
    t.ensure_eq('tolerance', o['tol'], tol)
    t.ensure('one stream for resamples and factorisations', o['random_state'] is est._rand)
    o = est.cluster.options
    t.ensure('clustering', type(est.cluster).__name__ == 'DBSCAN' and o['metric'] == 'cosine' and
             o['metric_params'] == {'a': 1} and o['algorithm'] == 'brute')
    t.ensure_eq('radius', o['eps'], eps)
    half = t.floor(nb / 2)
    t.ensure_eq('samples of a core point', o['min_samples'], 7 if dbm is not None else t.ite(half < 1, 1, half))
    t.ensure('no dissimilarity', est.use_dissimilarity is False)
    t.ensure_eq('bootstraps', est.n_boots, nb)


@contract('P15', funcs=[BASE + '.fit', BASE + '.transform', UT + '.dissimilarity'], proof=False, n=12,
          bounded='complete fits with the real solvers: n<=12, d<=5, ranks 1-3, 2-5 bootstraps')
def whole_fits(t):
    """the defining relations hold on complete fits"""
    np = t.np
    nb, use = t.choice('n_boots', [2, 3, 5]), t.choice('dissimilarity', [True, False])
    ranks = t.choice('ranks', [[1, 2], [2, 3], [3, 2, 1]])
    n, d, kind = 12, 5, t.choice('kind', ['f', 'i'])
    X = t.array('X_' + kind, (n, d), kind, 0, 6)
    t.requires(bool((X.sum(0) > 0).all() and (X.sum(1) > 0).all()))
    NMF = t.mod(NM)
    fits = []

    class Solver(NMF.skNMF):
        def fit(self, A, y=None):
            super().fit(A)
            fits.append((self.n_components, np.array(A), np.array(self.components_)))
            return self
    est = NMF.UoI_NMF_Base(n_boots=nb, ranks=ranks, use_dissimilarity=use, random_state=int(t.integer('seed', lo=0, hi=99)),
                           nmf=Solver(init='random', max_iter=60), cluster=NMF.DBSCAN(eps=0.6, min_samples=1))
    est.fit(X)
    t.ensure('a factorisation of each rank in each bootstrap', [f[0] for f in fits] == list(ranks) * nb)
    for q, (k, A, _) in enumerate(fits):
        t.ensure('rows of the resample', np.array_equal(A, X[est.bootstraps_[q // len(ranks)]]))
    if use:
        means = []
        for e, k in enumerate(ranks):
            Hs = [fits[b * len(ranks) + e][2] for b in range(nb)]
            tot = [1 - (cos(np, Hs[a], Hs[b]).max(0).sum() + cos(np, Hs[a], Hs[b]).max(1).sum()) / (2 * k)
                   for a in range(nb) for b in range(a + 1, nb)]
            means.append(sum(tot) / len(tot))
        t.ensure('mean dissimilarities', np.allclose(est.dissimilarity_, means))
        keep = [int(np.argmin(est.dissimilarity_))]
    else:
        keep = range(len(ranks))
    B = np.concatenate([fits[b * len(ranks) + e][2] for e in keep for b in range(nb)])
    B = B[B.sum(1) != 0]
    B = B / np.sqrt((B ** 2).sum(1))[:, None]
    t.ensure('clustered bases', np.allclose(est.bases_samples_, B))
    L = est.bases_samples_labels_
    want = np.array([B[L == c].mean(0) for c in range(L.max() + 1)])
    want = want / np.sqrt((want ** 2).sum(1))[:, None]
    t.ensure('consensus', np.allclose(est.components_, want))
    W = est.transform(X)
    t.ensure('floating point', W.dtype.kind == 'f' and bool((W >= 0).all()))
    R = X - W @ want
    t.ensure('optimal rows', bool((R @ want.T <= 1e-6 * (1 + abs(X).max())).all()) and abs((W * (R @ want.T)).sum()) < 1e-4)
    t.ensure('reported error', abs(est.reconstruction_err_ - np.sqrt((R ** 2).sum())) < 1e-6)


def cos(np, A, B):
    a, b = np.sqrt((A ** 2).sum(1)), np.sqrt((B ** 2).sum(1))
    C = A @ B.T
    return np.where(np.outer(a, b) > 0, C / np.where(np.outer(a, b) > 0, np.outer(a, b), 1), 0)
