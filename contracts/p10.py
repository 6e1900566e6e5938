"""P10: information criteria and model scores."""
from pydv.api import contract

U = 'pyuoi.utils'
B = 'pyuoi.linear_model.base'
PO = 'pyuoi.linear_model.poisson'


@contract('P10', funcs=[U + '.AIC', U + '.AICc', U + '.BIC'], n=200)
def criteria(t):
    m = t.mod(U)
    ll = t.real('ll', lo=-50, hi=50)
    k = t.integer('k', lo=0, hi=12)
    n = t.integer('n', lo=1, hi=16)
    t.ensure_eq('AIC', m.AIC(ll, k), 2 * k - 2 * ll)
    t.ensure_eq('BIC', m.BIC(ll, k, n), k * t.log(n) - 2 * ll)
    r = m.AICc(ll, k, n)
    if n > k + 1:
        t.ensure_eq('AICc', r, 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1))
    else:
        t.ensure_eq('AICc falls back to AIC', r, 2 * k - 2 * ll)


@contract('P10', funcs=[U + '.log_likelihood_glm'], n=150)
def ll_normal(t):
    m = t.mod(U)
    n = t.dim('n')
    y, p = t.array('y', (n,)), t.array('p', (n,))
    rss = t.sum(n, lambda i: (t.at(y, i) - t.at(p, i)) * (t.at(y, i) - t.at(p, i)))
    t.requires(rss > 0)
    t.ensure_eq('gaussian log-likelihood', m.log_likelihood_glm('normal', y, p), -n / 2 * (1 + t.log(rss / n)))


@contract('P10', funcs=[U + '.log_likelihood_glm'], n=150)
def ll_poisson(t):
    m = t.mod(U)
    n = t.dim('n')
    y = t.array('y', (n,), kind='i', lo=0, hi=4)
    p = t.array('p', (n,), positive=True)
    t.ensure_eq('poisson log-likelihood', m.log_likelihood_glm('poisson', y, p),
                t.sum(n, lambda i: t.at(y, i) * t.log(t.at(p, i)) - t.at(p, i)) / n)


@contract('P10', funcs=[U + '.log_likelihood_glm'], n=60)
def ll_poisson_zero_rate(t):
    """the limit of y ln(mu) - mu as mu -> 0"""
    m = t.mod(U)
    n = t.dim('n')
    y = t.array('y', (n,), kind='i', lo=0, hi=t.choice('top', [0, 4]))
    r = m.log_likelihood_glm('poisson', y, t.np.zeros(n))
    if t.any(n, lambda i: t.at(y, i) > 0):
        t.ensure('impossible counts', r == -float('inf'))
    else:
        t.ensure('certain counts', r == 0)


@contract('P10', funcs=[U + '.log_likelihood_glm'], n=10)
def ll_unknown(t):
    m = t.mod(U)
    n = t.dim('n')
    y, p = t.array('y', (n,)), t.array('p', (n,))
    bad, r = t.raises(ValueError, lambda: m.log_likelihood_glm(t.choice('model', ['gamma', 'Normal', '']), y, p))
    t.ensure('unknown models are rejected', bad)


@contract('P10', funcs=[U + '.softmax'], n=120)
def softmax(t):
    m = t.mod(U)
    n, k = t.dim('n'), t.dim('k')
    axis = t.choice('axis', [None, -1, 1, 0])
    y = t.array('y', (n, k))
    r = m.softmax(y) if axis is None else m.softmax(y, axis=axis)
    if axis == 0:
        t.ensure_array('normalised exponential', r, (n, k),
                       lambda i, c: t.exp(t.at(y, i, c)) / t.sum(n, lambda e: t.exp(t.at(y, e, c))))
    else:
        t.ensure_array('normalised exponential', r, (n, k),
                       lambda i, c: t.exp(t.at(y, i, c)) / t.sum(k, lambda e: t.exp(t.at(y, i, e))))


@contract('P10', funcs=[U + '.sigmoid'], n=120)
def sigmoid(t):
    m = t.mod(U)
    n = t.dim('n')
    x = t.array('x', (n,))
    t.ensure_array('logistic function', m.sigmoid(x), (n,), lambda i: 1 / (1 + t.exp(-t.at(x, i))))
    v = t.real('v', lo=-8, hi=8)
    t.ensure_eq('logistic function of a scalar', m.sigmoid(v), 1 / (1 + t.exp(-v)))


@contract('P10', funcs=[U + '.softmax', U + '.sigmoid'], n=80, proof=False,
          bounded='arguments up to 1e8 in magnitude, float64, up to 5 x 5')
def large_arguments(t):
    m = t.mod(U)
    n, k = t.dim('n'), t.dim('k')
    scale = t.choice('scale', [1e2, 800., 1e4, 1e8])
    y = t.array('y', (n, k), lo=-1, hi=1) * scale
    r = m.softmax(y)
    t.ensure_array('softmax rows sum to one', r.sum(axis=1), (n,), lambda i: 1.)
    t.ensure_array('largest entry dominates', r, (n, k),
                   lambda i, c: 1. / t.sum(k, lambda e: t.exp(t.minimum(t.at(y, i, e) - t.at(y, i, c), 700.))), tol=1e-6)
    t.ensure_array('sigmoid', m.sigmoid(y), (n, k),
                   lambda i, c: 1. / (1. + t.exp(-t.at(y, i, c))) if t.at(y, i, c) > -700 else 0.)


# ---------------------------------------------------------------- scores

class LinearFit:
    """any linear model: a fitter as the estimation sees it"""

    def __init__(self, t, beta, icpt, f=None):
        self.t, self.beta, self.intercept_, self.f = t, beta, icpt, f

    def eta(self, X):
        return self.t.np.dot(X, self.beta) + self.intercept_

    def predict(self, X):
        return self.eta(X)

    def predict_mean(self, X):
        return self.t.np.exp(self.eta(X))

    def predict_proba(self, X):
        e = self.t.np.exp(self.eta(X))
        return e / self.t.np.sum(e, axis=1, keepdims=True)


def criterion(t, metric, ll, k, n):
    """larger is better"""
    if metric == 'BIC':
        return 2 * ll - k * t.log(n)
    r = 2 * ll - 2 * k
    if metric == 'AICc':
        return t.ite(n > k + 1, r - 2 * k * (k + 1) / (t.ite(n > k + 1, n - k - 1, 1)), r)
    return r


def setting(t):
    n, d = t.dim('n', lo=2), t.dim('d')
    n1, n2 = t.dim('n_train', lo=2), t.dim('n_test', lo=2)
    X = t.array('X', (n, d))
    idx = (t.array('train', (n1,), kind='i', lo=0, hi=n - 1), t.array('test', (n2,), kind='i', lo=0, hi=n - 1))
    support = t.array('support', (d,), kind='b')
    nf = t.sum(d, lambda j: t.ite(t.at(support, j), 1, 0))
    b = t.array('beta', (d,), lo=-1, hi=1)
    return n, d, n1, n2, X, idx, support, nf, b


DEFAULT = {'r2': 1, 'AIC': 0, 'AICc': 0, 'BIC': 0, 'log': 1, 'acc': 1}


def target(t, metric, n1, n2, idx):
    tgt = t.choice('target', [None, 'train', 'test'])
    k = {None: DEFAULT[metric], 'train': 0, 'test': 1}[tgt]
    return tgt, (n1, n2)[k], idx[k]


@contract('P10', funcs=[B + '.AbstractUoILinearRegressor._score_predictions',
                        B + '.AbstractUoILinearRegressor.__init__'], n=150)
def linear_scores(t):
    m = t.mod('pyuoi.linear_model.lasso')
    n, d, n1, n2, X, idx, support, nf, b = setting(t)
    metric = t.choice('metric', ['r2', 'AIC', 'AICc', 'BIC'])
    tgt, ns, rows = target(t, metric, n1, n2, idx)
    y = t.array('y', (n,))
    icpt = t.real('icpt', lo=-2, hi=2)
    est = m.UoI_Lasso(estimation_score=metric, estimation_target=tgt)
    fitter = LinearFit(t, b[support], icpt)
    score = est._score_predictions(metric, fitter, X, y[:, None] if t.boolean('column') else y, support, idx)

    def pred(i):
        return t.sum(d, lambda j: t.ite(t.at(support, j), t.at(X, t.at(rows, i), j) * t.at(b, j), 0)) + icpt

    def yy(i):
        return t.at(y, t.at(rows, i))
    rss = t.sum(ns, lambda i: (yy(i) - pred(i)) * (yy(i) - pred(i)))
    if metric == 'r2':
        mean = t.sum(ns, yy) / ns
        tss = t.sum(ns, lambda i: (yy(i) - mean) * (yy(i) - mean))
        t.requires(tss > 0.01)
        t.ensure_eq('r2', score, 1 - rss / tss)
    else:
        t.requires(rss > 1e-6)
        t.ensure_eq(metric, score, criterion(t, metric, -ns / 2 * (1 + t.log(rss / ns)), nf, ns))


@contract('P10', funcs=[PO + '.UoI_Poisson._score_predictions'], n=150)
def poisson_scores(t):
    m = t.mod(PO)
    n, d, n1, n2, X, idx, support, nf, b = setting(t)
    metric = t.choice('metric', ['log', 'AIC', 'AICc', 'BIC'])
    tgt, ns, rows = target(t, metric, n1, n2, idx)
    y = t.array('y', (n,), kind='i', lo=0, hi=4)
    with_icpt = t.boolean('with_icpt')
    icpt = t.real('icpt', lo=0.1, hi=2) if with_icpt else 0
    est = m.UoI_Poisson(estimation_score=metric, estimation_target=tgt)
    fitter = LinearFit(t, b[support], icpt)
    score = est._score_predictions(metric, fitter, X, y, support, idx)

    def eta(i):
        return t.sum(d, lambda j: t.ite(t.at(support, j), t.at(X, t.at(rows, i), j) * t.at(b, j), 0)) + icpt
    ll = t.sum(ns, lambda i: t.at(y, t.at(rows, i)) * eta(i) - t.exp(eta(i)))
    if metric == 'log':
        t.ensure_eq('log', score, ll / ns)
    else:
        t.ensure_eq(metric, score, criterion(t, metric, ll, nf + (1 if with_icpt else 0), ns))


@contract('P10', funcs=[B + '.AbstractUoIGeneralizedLinearRegressor._score_predictions'], n=150)
def classifier_scores(t):
    m = t.mod('pyuoi.linear_model.logistic')
    n, d, n1, n2, X, idx, support, nf, _ = setting(t)
    k = t.dim('k', lo=2)
    shared = t.boolean('shared')
    metric = t.choice('metric', ['log', 'AIC', 'AICc', 'BIC', 'acc'])
    tgt, ns, rows = target(t, metric, n1, n2, idx)
    y = t.array('y', (n,), kind='i', lo=0, hi=k - 1)
    B_ = t.array('B', (d, k), lo=-1, hi=1)
    icpt = t.array('icpt', (k,), lo=-1, hi=1)
    est = m.UoI_L1Logistic(estimation_score=metric, estimation_target=tgt, shared_support=shared)
    # labels of the data are encoded before fitting; the original ones are arbitrary
    est.classes_ = t.table((k,), lambda c: 10 * c + 3, kind='i')
    est.output_dim = k
    if shared:
        sup = support
        fitter = LinearFit(t, B_[support], icpt)
        nsel = nf
    else:
        sup = t.array('msupport', (k, d), kind='b')
        fitter = LinearFit(t, B_, icpt)
        nsel = t.sum((k, d), lambda c, j: t.ite(t.at(sup, c, j), 1, 0))
    if metric == 'acc':
        guess = t.array('guess', (n,), kind='i', lo=0, hi=k - 1)
        fitter.predict = lambda Z: guess[rows]
    score = est._score_predictions(metric, fitter, X, y, sup, idx)

    def eta(i, c):
        z = t.sum(d, lambda j: t.ite(t.at(support, j), t.at(X, t.at(rows, i), j) * t.at(B_, j, c), 0)) if shared else \
            t.sum(d, lambda j: t.at(X, t.at(rows, i), j) * t.at(B_, j, c))
        return z + t.at(icpt, c)

    def yy(i):
        return t.at(y, t.at(rows, i))
    if metric == 'acc':
        t.ensure_eq('acc', score, t.sum(ns, lambda i: t.ite(yy(i) == t.at(guess, t.at(rows, i)), 1, 0)) / ns)
        return
    ll = t.sum(ns, lambda i: t.sum(k, lambda c: t.ite(yy(i) == c, eta(i, c), 0))
               - t.log(t.sum(k, lambda e: t.exp(eta(i, e)))))
    if metric == 'log':
        t.ensure_eq('log', score, ll / ns)
    else:
        t.ensure_eq(metric, score, criterion(t, metric, ll, nsel, ns))
