"""P20: synthetic datasets follow the model they report."""
from pydv.api import contract
from . import p10

D = 'pyuoi.datasets'
U = 'pyuoi.utils'


class Gen(object):
    """recording stand-in of a random state: every draw is an arbitrary value of its distribution"""

    def __init__(self, t):
        self.t, self.draws, self.rows = t, [], 0
        self.perms = []

    def fresh(self, law, size):
        t = self.t
        name = '%s %d' % (law, len(self.draws))
        sign = law in ('uniform', 'gamma')
        if size is None or (isinstance(size, tuple) and not size):
            a = t.real(name) if not sign else t.positive(name, gen=lambda r: r.uniform(0.01, 0.99))
        else:
            o = {'positive': True, 'lo': None, 'hi': 1} if sign else {}
            a = t.array(name, size if isinstance(size, tuple) else (size,), **o)
        if law == 'uniform' and t.ndim(a) == 0:
            t.requires(a < 1)
        self.draws.append((law, size, a if t.ndim(a) == 0 else a.copy()))
        return a

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.fresh('normal', size)

    def standard_normal(self, size=None):
        return self.fresh('normal', size)

    def randn(self, *size):
        return self.fresh('normal', size)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.fresh('uniform', size)

    def rand(self, *size):
        return self.fresh('uniform', size)

    def random_sample(self, size=None):
        return self.fresh('uniform', size)

    def gamma(self, shape, scale=1., size=None):
        return scale * self.fresh('gamma', size)

    def permutation(self, n):
        t = self.t
        self.draws.append(('permutation', n, None))
        if t.ndim(n):
            return n[t.permutation('perm %d' % len(self.draws), t.shape(n)[0])]
        return t.permutation('perm %d' % len(self.draws), n)

    def shuffle(self, a):
        t = self.t
        self.draws.append(('shuffle', None, None))
        a[:] = a[t.permutation('perm %d' % len(self.draws), t.shape(a)[0])]

    def poisson(self, lam=1., size=None):
        t = self.t
        y = t.array('counts', t.shape(lam), kind='i', lo=0, hi=9)
        self.draws.append(('poisson', lam, y))
        return y


def stubbed(t):
    g, seed = Gen(t), t.opaque('seed')

    def check(s):
        t.ensure('the random state of the caller', s is seed)
        return g
    t.stub('sklearn.utils', 'check_random_state', check, users=[D])
    return g, seed


def informative(t, d, k, coef, scale):
    """exactly min(k, d) nonzero coefficients"""
    t.ensure_eq('number of informative features', t.sum(d, lambda j: t.ite(coef(j) == 0, 0, 1)), t.ite(k < d, k, d))


@contract('P20', funcs=[D + '.make_linear_regression'], n=150)
def linear(t):
    """y = X beta + intercept + noise, whose variance is that of the signal over snr"""
    g, seed = stubbed(t)
    n, d, k = t.dim('n'), t.dim('d'), t.integer('n_informative', lo=0, hi=6)
    loc, sc = t.real('X_loc'), t.real('X_scale', lo=0, hi=3)
    snr = t.positive('snr')
    lo, width = t.positive('beta_low'), t.positive('width')
    given = t.boolean('given beta')
    beta0 = t.array('beta', (d,)) if given else None
    b = t.boolean('intercept')
    X, y, beta, icpt = t.mod(D).make_linear_regression(
        n_samples=n, n_features=d, n_informative=k, X_loc=loc, X_scale=sc, snr=snr, beta=beta0, beta_low=lo, beta_high=lo + width,
        include_intercept=b, random_state=seed)
    t.ensure_shape('design', X, (n, d))
    t.ensure_shape('response', y, (n,))
    t.ensure_shape('coefficients', beta, (d,))
    zs = [a for law, size, a in g.draws if law == 'normal']
    t.ensure('draws of the design and of the noise', len(zs) == 2)
    t.ensure_array('design', X, (n, d), lambda i, j: loc + sc * t.at(zs[0], i, j))
    eta = lambda i: icpt + t.sum(d, lambda j: t.at(X, i, j) * t.at(beta, j))
    m = t.sum(n, eta) / n
    var = t.sum(n, lambda i: (eta(i) - m) * (eta(i) - m)) / n
    t.ensure_array('response', y, (n,), lambda i: eta(i) + t.sqrt(var / snr) * t.at(zs[1], i))
    if not b:
        t.ensure_eq('no intercept', icpt, 0)
    else:
        t.ensure('intercept within the bounds', t.and_(icpt >= lo, icpt <= lo + width))
    if given:
        t.ensure_array('the given coefficients', beta, (d,), lambda j: t.at(beta0, j))
    else:
        informative(t, d, k, lambda j: t.at(beta, j), None)
        t.each(d, lambda j: t.ensure('coefficients within the bounds', t.or_(
            t.at(beta, j) == 0, t.and_(t.at(beta, j) >= lo, t.at(beta, j) <= lo + width))))


@contract('P20', funcs=[D + '.make_poisson_regression'], n=150)
def poisson(t):
    """counts drawn with mean exp(X beta + intercept)"""
    g, seed = stubbed(t)
    n, d, k = t.dim('n'), t.dim('d'), t.integer('n_informative', lo=0, hi=6)
    loc, sc = t.real('X_loc'), t.real('X_scale', lo=0, hi=1)
    shape, scale = t.positive('beta_shape'), t.positive('beta_scale')
    given = t.boolean('given beta')
    beta0 = t.array('beta', (d,)) if given else None
    b = t.boolean('intercept')
    X, y, beta, icpt = t.mod(D).make_poisson_regression(
        n_samples=n, n_features=d, n_informative=k, X_loc=loc, X_scale=sc, beta=beta0, beta_shape=shape, beta_scale=scale,
        include_intercept=b, random_state=seed)
    zs = [a for law, size, a in g.draws if law == 'normal']
    t.ensure('draws of the design', len(zs) == 1)
    t.ensure_array('design', X, (n, d), lambda i, j: loc + sc * t.at(zs[0], i, j))
    t.ensure_shape('coefficients', beta, (d,))
    eta = lambda i: icpt + t.sum(d, lambda j: t.at(X, i, j) * t.at(beta, j))
    ps = [(lam, a) for law, lam, a in g.draws if law == 'poisson']
    t.ensure('one draw of the counts', len(ps) == 1)
    t.ensure_array('mean', ps[0][0], (n,), lambda i: t.exp(eta(i)))
    t.ensure_array('counts', y, (n,), lambda i: t.at(ps[0][1], i))
    if not b:
        t.ensure_eq('no intercept', icpt, 0)
    if given:
        t.ensure_array('the given coefficients', beta, (d,), lambda j: t.at(beta0, j))
    else:
        informative(t, d, k, lambda j: t.at(beta, j), None)
        gs = [a for law, size, a in g.draws if law == 'gamma']
        t.each(d, lambda j: t.ensure('coefficients of the requested scale', t.or_(
            t.at(beta, j) == 0, t.at(beta, j) == scale * t.at(gs[0], j))))


class Classes(Gen):
    """class draws by inversion of arbitrary uniform numbers, one per row in order"""

    def start(self, n):
        self.us = self.t.array('u', (n,), lo=0, hi=0.999)
        return self

    def multinomial(self, n, pvals, size=None):
        t, c, k = self.t, self.rows, int(self.t.shape(pvals)[0])
        t.ensure('one label per sample', n == 1 and size is None)
        self.rows = c + 1
        u = t.at(self.us, c)
        y = label(t, u, lambda e: t.at(pvals, e), k)
        return t.table((k,), lambda q: t.ite(y == q, 1, 0), kind='i')

    def binomial(self, n, p, size=None):
        t, c = self.t, self.rows
        t.ensure('one label per sample', n == 1 and size is None)
        if t.ndim(p):
            self.rows = c + t.shape(p)[0]
            return t.table(t.shape(p), lambda i: t.ite(t.at(self.us, c + i) < t.at(p, i), 1, 0), kind='i')
        self.rows = c + 1
        return t.ite(t.at(self.us, c) < p, 1, 0)


def label(t, u, p, k):
    """inversion: the number of classes whose cumulative probability is at most u"""
    return sum(t.ite(u >= sum(p(g) for g in range(e)), 1, 0) for e in range(1, k))


@contract('P20', funcs=[D + '.make_classification', U + '.softmax', U + '.sigmoid'], n=200)
def classification(t):
    """labels are drawn with the softmax or logistic probabilities of the returned model"""
    K, shared, b = t.choice('classes', [2, 3, 4]), t.boolean('shared support'), t.boolean('intercept')
    n, d, k = t.dim('n'), t.dim('d', lo=2), t.integer('n_informative', lo=1, hi=6)
    w = t.positive('w_scale')
    g = Classes(t).start(n)
    seen = []
    if t.symbolic:
        # by its contract (below): any distribution, of the log-probabilities it is given
        prob = t.array('prob', (n, K))

        def soft(a, axis=-1):
            seen.append(a)
            return prob.copy()
        t.stub(U, 'softmax', soft, users=[D])
    X, y, W, icpt = t.mod(D).make_classification(n_samples=n, n_features=d, n_informative=k, n_classes=K, shared_support=shared,
                                                 random_state=g, w_scale=w, include_intercept=b)
    rows = 1 if K == 2 else K
    t.ensure_shape('design', X, (n, d))
    t.ensure_shape('coefficients', W, (rows, d))
    t.ensure_shape('intercept', icpt, (1, rows))
    if not b:
        t.ensure_array('no intercept', icpt, (1, rows), lambda i, c: 0)
    eta = lambda i, c: t.at(icpt, 0, c) + t.sum(d, lambda j: t.at(X, i, j) * t.at(W, c, j))
    if K == 2:
        p = lambda i: 1 / (1 + t.exp(-eta(i, 0)))
        t.ensure_array('labels', y, (n,), lambda i: t.ite(t.at(g.us, i) < p(i), 1, 0), kind='i')
    else:
        if seen:
            t.ensure_array('log-probabilities', seen[0], (n, K), eta)
            p = lambda i, c: t.at(prob, i, c)
        else:
            p = lambda i, c: t.exp(eta(i, c)) / sum(t.exp(eta(i, e)) for e in range(K))
        t.ensure_array('labels', y, (n,), lambda i: label(t, t.at(g.us, i), lambda c: p(i, c), K), kind='i')
    t.ensure_eq('one label per sample', g.rows, n)
    zs = [a for law, size, a in g.draws if law == 'normal' and t.ndim(a) == 2]
    t.ensure('draws of the design and the coefficients', len(zs) >= 2)
    for c in range(rows):
        t.requires(t.all(d, lambda j: t.not_(t.at(zs[1], j, c) == 0)))
        informative(t, d, k, lambda j: t.at(W, c, j), None)
        t.each(d, lambda j: t.ensure('coefficients of the requested scale', t.or_(
            t.at(W, c, j) == 0, t.at(W, c, j) == w * t.at(zs[1], j, c))))
        if shared:
            t.each(d, lambda j: t.ensure_eq('shared support', t.ite(t.at(W, c, j) == 0, 0, 1), t.ite(t.at(W, 0, j) == 0, 0, 1)))


contract('P20', funcs=[U + '.softmax'], n=60, name='softmax')(p10.softmax)
