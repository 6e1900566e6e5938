"""P14: CUR selects columns by leverage and returns actual columns."""
from pydv.api import contract

UT = 'pyuoi.decomposition.utils'
CU = 'pyuoi.decomposition.CUR'


class Stream(object):
    """a random state: uniform draws u[0], u[1], ... in order"""

    def __init__(self, t, u):
        self.t, self.u, self.count = t, u, 0

    def rand(self, *shape):
        t, c = self.t, self.count
        if not shape:
            self.count = c + 1
            return t.at(self.u, c)
        t.ensure('one draw per column', len(shape) == 1)
        self.count = c + shape[0]
        return t.table(shape, lambda i: t.at(self.u, c + i))

    def random_sample(self, size=None):
        return self.rand() if size is None else self.rand(*(size if isinstance(size, tuple) else (size,)))

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random_sample(size)


def leverage(t, V, k, j):
    return t.sum(k, lambda q: t.at(V, j, q) * t.at(V, j, q)) / k


@contract('P14', funcs=[UT + '.column_select'], n=150)
def inclusion(t):
    """column j is kept exactly when its own draw is below min(1, c * leverage)"""
    d, k = t.dim('d'), t.dim('k')
    V, c = t.array('V', (d, k), lo=-1, hi=1), t.real('c', lo=0.1, hi=20)
    u = t.array('u', (d,), lo=0, hi=0.999)
    seed = t.opaque('seed')
    streams = []

    def check(s):
        t.ensure('the random state of the caller', s is seed)
        t.ensure('one stream', not streams)
        streams.append(Stream(t, u))
        return streams[0]
    t.stub('sklearn.utils', 'check_random_state', check, users=[UT])
    out = t.mod(UT).column_select(V, c, random_state=seed)

    def kept(j):
        p = c * leverage(t, V, k, j)
        return t.at(u, j) < t.ite(p < 1, p, 1)
    m = t.shape(out)[0]
    t.ensure_eq('number of columns', m, t.sum(d, lambda j: t.ite(kept(j), 1, 0)))
    t.each(m, lambda i: t.ensure('only kept columns', kept(t.at(out, i))))
    t.each(d, lambda j: t.ensure('every kept column', t.implies(kept(j), t.any(m, lambda i: t.at(out, i) == j))))
    t.each((m, m), lambda a, b: t.ensure('ascending', t.implies(a < b, t.at(out, a) < t.at(out, b))))
    t.ensure_eq('one draw per column', streams[0].count, d)


@contract('P14', funcs=[UT + '.column_select'], n=150)
def sorted_by_leverage(t):
    """the same columns, ordered by increasing leverage, when asked for"""
    d, k = t.dim('d'), t.dim('k')
    V, c = t.array('V', (d, k), lo=-1, hi=1), t.real('c', lo=0.1, hi=20)
    u = t.array('u', (d,), lo=0, hi=0.999)
    t.stub('sklearn.utils', 'check_random_state', lambda s: Stream(t, u), users=[UT])
    out = t.mod(UT).column_select(V, c, leverage_sort=True, random_state=t.opaque('seed'))
    plain = t.mod(UT).column_select(V, c, random_state=t.opaque('seed'))
    m = t.shape(plain)[0]
    t.ensure_eq('number of columns', t.shape(out)[0], m)
    t.each(m, lambda i: t.ensure('only kept columns', t.any(m, lambda q: t.at(plain, q) == t.at(out, i))))
    t.each((m, m), lambda a, b: t.ensure('distinct', t.implies(a < b, t.not_(t.at(out, a) == t.at(out, b)))))
    t.each((m, m), lambda a, b: t.ensure('increasing leverage', t.implies(
        a < b, leverage(t, V, k, t.at(out, a)) <= leverage(t, V, k, t.at(out, b)))))


class World(object):
    """recording stand-ins for the resampling, the decomposition and the column selection of a CUR fit"""

    def __init__(self, t, X, n, d, nb, ranks, max_k, frac, seed, strat=None):
        self.t, self.X, self.n, self.d = t, X, n, d
        self.n_tr = t.dim('n_tr') if frac != 1 else n
        self.idx = [t.array('train%d' % b, (self.n_tr,), kind='i', lo=0, hi=n - 1) for b in range(nb)]
        self.sel = {k: [t.array('kept %d %d' % (k, b), (d,), kind='b') for b in range(nb)] for k in ranks}
        self.u, self.v = t.array('u', (self.n_tr,)), t.array('v', (max_k,))
        self.frac, self.seed, self.strat, self.max_k = frac, seed, strat, max_k
        self.states, self.splits, self.svds, self.asked = [], 0, 0, []
        W = self

        def check(s):
            t.ensure('the random state of the estimator', s is seed)
            self.states.append(['state'])
            return self.states[-1]

        def split(A, test_size=None, train_size=None, stratify=None, random_state=None):
            b = self.splits
            self.splits += 1
            t.ensure_array('resample of the data', A, (n, d), lambda i, j: t.at(X, i, j))
            t.ensure_eq('size of the resample', test_size if train_size is None else 1 - train_size, 1 - frac)
            t.ensure('stratified as asked', stratify is strat)
            t.ensure('drawn from the stream of the estimator', self.own(random_state))
            return A[self.idx[b]], A[:1]

        class SVD(object):
            def __init__(self, n_components=2, algorithm='randomized', n_iter=5, random_state=None, tol=0.):
                t.ensure('number of singular vectors', n_components == max_k)
                t.ensure('solver options', (algorithm, n_iter, tol) == ('arpack', 7, 0.25))
                t.ensure('drawn from the stream of the estimator', W.own(random_state))

            def fit(self, A):
                b = W.svds
                W.svds += 1
                t.ensure_array('rows of this bootstrap', A, (W.n_tr, d), W.row(b))
                self.components_ = t.table((max_k, d), lambda q, j: W.vec(b, q, j))
                return self

        def select(V, c, leverage_sort=False, random_state=None):
            b = self.svds - 1
            k = int(t.shape(V)[1])
            t.ensure('a rank that was asked for', k in self.sel)
            t.ensure_array('leading right singular vectors', V, (d, k), lambda j, q: self.vec(b, q, j))
            t.ensure('drawn from the stream of the estimator', self.own(random_state))
            self.asked.append((b, k, c, leverage_sort))
            return t.np.nonzero(self.sel[k][b])[0]
        m = [CU]
        t.stub('sklearn.utils', 'check_random_state', check, users=m)
        t.stub('sklearn.model_selection', 'train_test_split', split, users=m)
        t.stub('sklearn.decomposition', 'TruncatedSVD', SVD, users=m)
        t.stub(UT, 'column_select', select, users=m)

    def own(self, state):
        return state is self.seed or any(state is s for s in self.states)

    def row(self, b):
        t, X = self.t, self.X
        if self.frac == 1:
            return lambda i, j: t.at(X, i, j)
        return lambda i, j: t.at(X, t.at(self.idx[b], i), j)

    def vec(self, b, q, j):
        t = self.t
        return t.at(self.v, q) * t.sum(self.n_tr, lambda i: t.at(self.u, i) * self.row(b)(i, j))


def chosen_columns(t, est, X, n, d, kept):
    """column_indices_ are the kept columns in ascending order; components_ and transform(X) are these columns"""
    idx = est.column_indices_
    m = t.shape(idx)[0]
    t.ensure_eq('number of columns', m, t.sum(d, lambda j: t.ite(kept(j), 1, 0)))
    t.each(m, lambda i: t.ensure('only kept columns', kept(t.at(idx, i))))
    t.each((m, m), lambda a, b: t.ensure('ascending', t.implies(a < b, t.at(idx, a) < t.at(idx, b))))
    columns(t, est, X, n, d, m)


def columns(t, est, X, n, d, m):
    idx = est.column_indices_
    t.ensure_array('components are the columns', est.components_, (n, m), lambda i, q: t.at(X, i, t.at(idx, q)))
    n2 = t.dim('n2')
    Z = t.array('Z', (n2, d))
    t.ensure_array('transform takes the columns', est.transform(Z), (n2, m), lambda i, q: t.at(Z, i, t.at(idx, q)))


@contract('P14', funcs=[CU + '.UoI_CUR.fit', CU + '.UoI_CUR.transform'], n=80, budget=150)
def uoi_cur(t):
    """a column is kept when, for one rank, it was selected in at least the threshold number of bootstraps"""
    nb, s, frac = t.choice('bootstraps', [(1, 1, 1), (2, 1, 0.8), (2, 2, 1), (3, 2, 0.8)])
    ranks, cs = t.choice('ranks', [([2], None), ([1, 3], [4., 2.5]), ([3, 1], 5), (None, None)])
    n, d = t.dim('n', lo=2), t.dim('d')
    X = t.array('X', (n, d))
    seed, strat = t.opaque('seed'), t.opaque('stratify')
    ks = ranks if ranks is not None else [1, 2]
    max_k = max(ks)
    w = World(t, X, n, d, nb, ks, max_k, frac, seed, strat)
    est = t.mod(CU).UoI_CUR(n_boots=nb, max_k=max_k, boots_frac=frac, stability_selection=s, algorithm='arpack', n_iter=7,
                            tol=0.25, random_state=seed)
    r = est.fit(X, ks=ranks, cs=cs, stratify=strat)
    t.ensure('returns the estimator', r is est)
    t.ensure('one decomposition per bootstrap', w.svds == nb and w.splits == (0 if frac == 1 else nb))
    t.ensure('every rank in every bootstrap', sorted(a[:2] for a in w.asked) == [(b, k) for b in range(nb) for k in sorted(ks)])
    for b, k, c, _ in w.asked:
        want = k + 20 if cs is None else cs if not isinstance(cs, list) else cs[ks.index(k)]
        t.ensure_eq('budget of the rank', c, want)

    def kept(j):
        return t.or_(*[sum(t.ite(t.at(w.sel[k][b], j), 1, 0) for b in range(nb)) >= s for k in ks])
    chosen_columns(t, est, X, n, d, kept)


@contract('P14', funcs=[CU + '.CUR.fit', CU + '.CUR.transform'], n=80)
def cur(t):
    """one selection on the leading singular vectors of all rows; the columns returned are those of X"""
    n, d = t.dim('n', lo=2), t.dim('d')
    X = t.array('X', (n, d))
    seed = t.opaque('seed')
    k = t.choice('max_k', [1, 3])
    c = t.choice('c', [None, 2.5])
    w = World(t, X, n, d, 1, [k], k, 1, seed)
    est = t.mod(CU).CUR(max_k=k, algorithm='arpack', n_iter=7, tol=0.25, random_state=seed)
    r = est.fit(X, c=c)
    t.ensure('returns the estimator', r is est)
    t.ensure('one selection', len(w.asked) == 1 and w.svds == 1 and w.splits == 0)
    t.ensure_eq('budget', w.asked[0][2], k + 20 if c is None else c)
    t.ensure('sorted by leverage', w.asked[0][3] is True)
    chosen_columns(t, est, X, n, d, lambda j: t.at(w.sel[k][0], j))


@contract('P14', funcs=[CU + '.UoI_CUR.check_ks_and_cs'], n=200)
def ranks_and_budgets(t):
    """ranks are the positive integers asked for, none above the maximum; one positive budget per rank"""
    max_k = t.integer('max_k', lo=1, hi=6)
    est = t.mod(CU).UoI_CUR(n_boots=3, max_k=max_k, boots_frac=0.8)
    kk = t.choice('ks', ['none', 'int', 'list', 'array', 'reals'])
    kc = t.choice('cs', ['none', 'int', 'float', 'list', 'array', 'reals'])
    nk = max_k if kk == 'none' else 1 if kk == 'int' else t.dim('nk')
    wide = t.choice('range', ['inside', 'any'])
    a, b = (1, 1) if wide == 'inside' else (-1, 7)
    ks, rank = None, lambda i: i + 1
    if kk == 'int':
        ks = t.integer('k_' + wide, lo=a, hi=b)
        rank = lambda i: ks
    elif kk == 'list':
        ks = t.seq('kl_' + wide, nk, 'i', a, b)
        rank = lambda i: t.at(ks, i)
    elif kk in ('array', 'reals'):
        ks = t.array('ka_%s_%s' % (kk, wide), (nk,), 'f' if kk == 'reals' else 'i', a, b)
        rank = lambda i: t.at(ks, i)
    nc = 1 if kc in ('int', 'float') else nk if t.boolean('same length') else t.dim('nc')
    lo = 1 if wide == 'inside' else -1
    cs, budget = None, lambda i: rank(i) + 20
    if kc in ('int', 'float'):
        cs = t.integer('c_' + wide, lo=lo, hi=9) if kc == 'int' else t.real('c_real_' + wide, lo=lo, hi=9)
        budget = lambda i: cs
    elif kc != 'none':
        name = 'c_%s_%s' % (kc, wide)
        cs = t.seq(name, nc, 'f', lo, 9) if kc == 'list' else t.array(name, (nc,), 'i' if kc == 'array' else 'f', lo, 9)
        budget = lambda i: t.at(cs, i)
    good_k = t.all(nk, lambda i: t.and_(rank(i) >= 1, rank(i) <= max_k)) if kk != 'reals' else False
    good_c = t.all(nk if kc in ('none', 'int', 'float') else nc, lambda i: budget(i) > 0)
    same = (nc == nk) if kc in ('list', 'array', 'reals') else True
    good = t.and_(good_k, good_c, same)
    bad, r = t.raises(ValueError, lambda: est.check_ks_and_cs(ks=ks, cs=cs))
    if bad:
        t.ensure('ValueError only on invalid ranks or budgets', t.not_(good))
        return
    t.ensure('invalid ranks and budgets are rejected', good)
    t.ensure_array('ranks', r[0], (nk,), rank, kind='i')
    t.ensure_array('budgets', r[1], (nk,), budget)


@contract('P14', funcs=[CU + '.UoI_CUR.check_ks_and_cs'])
def other_kinds(t):
    est = t.mod(CU).UoI_CUR(n_boots=3, max_k=4, boots_frac=0.8)
    bad = t.choice('other', ['1', (1, 2), 1.5, {}])
    rejected, r = t.raises(ValueError, lambda: est.check_ks_and_cs(ks=bad))
    t.ensure('other kinds of ranks are rejected', rejected)
    bad = t.choice('other budgets', ['1', (1, 2), {}])
    rejected, r = t.raises(ValueError, lambda: est.check_ks_and_cs(ks=[1, 2], cs=bad))
    t.ensure('other kinds of budgets are rejected', rejected)
