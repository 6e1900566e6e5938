"""P08: objectives and gradients."""
from pydv.api import contract

LG = 'pyuoi.linear_model.logistic'
PO = 'pyuoi.linear_model.poisson'


@contract('P08', funcs=[LG + '._logistic_loss_and_grad', LG + '._intercept_dot'], n=120)
def binary_loss(t):
    m = t.mod(LG)
    n, d = t.dim('n'), t.dim('d')
    icpt = t.boolean('intercept')
    masked = t.boolean('masked')
    weighted = t.boolean('weighted')
    X = t.array('X', (n, d))
    ybit = t.array('ybit', (n,), kind='i', lo=0, hi=1)
    y = t.table((n,), lambda i: 2 * t.at(ybit, i) - 1)
    alpha = t.real('alpha', lo=0)
    mask = t.array('mask', (d,), kind='i', lo=0, hi=1) if masked else None
    sw = t.array('sw', (n,), lo=0, hi=3) if weighted else None
    w = t.array('w', (d + 1 if icpt else d,))

    def code(v):
        return m._logistic_loss_and_grad(v, X, y, alpha, mask, sw)
    out, grad = code(w.copy())

    def wj(j):
        return t.at(w, j) * t.at(mask, j) if masked else t.at(w, j)

    def margin(i):
        z = t.sum(d, lambda j: t.at(X, i, j) * wj(j))
        if icpt:
            z = z + t.at(w, d)
        return t.at(y, i) * z
    want = t.sum(n, lambda i: (t.at(sw, i) if weighted else 1) * t.log(1 + t.exp(-margin(i)))) / n \
        + alpha / 2 * t.sum(d, lambda j: wj(j) * wj(j))
    t.ensure_eq('loss', out, want)
    t.ensure_array('gradient is the derivative', grad, t.shape(w),
                   lambda j: t.dvalue(lambda v: code(v)[0], w, j), tol=1e-4)
    if masked:
        t.each(d, lambda j: t.ensure('masked gradient is zero', t.implies(t.at(mask, j) == 0, t.at(grad, j) == 0)))


@contract('P08', funcs=[LG + '._multinomial_loss_grad', LG + '._multinomial_loss'], n=120)
def multinomial_loss(t):
    m = t.mod(LG)
    n, d, k = t.dim('n'), t.dim('d'), t.dim('k', lo=2)
    icpt = t.boolean('intercept')
    masked = t.boolean('masked')
    X = t.array('X', (n, d))
    lab = t.array('lab', (n,), kind='i', lo=0, hi=k - 1)
    Y = t.table((n, k), lambda i, c: t.ite(t.at(lab, i) == c, 1, 0))
    alpha = t.real('alpha', lo=0)
    mask = t.array('mask', (k, d), kind='i', lo=0, hi=1) if masked else None
    sw = t.array('sw', (n,), lo=0, hi=3)
    w = t.array('w', (k, d + 1 if icpt else d))

    def code(v):
        return m._multinomial_loss_grad(v.ravel(), X, Y, alpha, mask, sw)
    out, grad, p = code(w.copy())

    def wj(c, j):
        return t.at(w, c, j) * t.at(mask, c, j) if masked else t.at(w, c, j)

    def eta(i, c):
        z = t.sum(d, lambda j: t.at(X, i, j) * wj(c, j))
        return z + t.at(w, c, d) if icpt else z

    def lse(i):
        return t.log(t.sum(k, lambda c: t.exp(eta(i, c))))
    want = -t.sum(n, lambda i: t.at(sw, i) * (t.sum(k, lambda c: t.at(Y, i, c) * eta(i, c))
                                              - lse(i) * t.sum(k, lambda c: t.at(Y, i, c)))) / n \
        + alpha / 2 * t.sum((k, d), lambda c, j: wj(c, j) * wj(c, j))
    t.ensure_eq('loss', out, want)
    t.ensure_array('probabilities', p, (n, k), lambda i, c: t.exp(eta(i, c) - lse(i)))
    g2 = grad.reshape(w.shape)
    t.ensure_array('gradient is the derivative', g2, t.shape(w),
                   lambda c, j: t.dvalue(lambda v: code(v)[0], w, c, j), tol=1e-4)
    if masked:
        t.each((k, d), lambda c, j: t.ensure('masked gradient is zero',
                                             t.implies(t.at(mask, c, j) == 0, t.at(g2, c, j) == 0)))


@contract('P08', funcs=[PO + '._poisson_loss_and_grad'], n=120)
def poisson_loss(t):
    m = t.mod(PO)
    n, d = t.dim('n'), t.dim('d')
    icpt = t.boolean('intercept')
    weighted = t.boolean('weighted')
    X = t.array('X', (n, d))
    y = t.array('y', (n,), kind='i', lo=0, hi=5)
    l2 = t.real('l2', lo=0)
    sw = t.array('sw', (n,), lo=0, hi=3) if weighted else None
    w = t.array('w', (d + 1 if icpt else d,), lo=-1, hi=1)

    def code(v):
        return m._poisson_loss_and_grad(v, X, y, l2, sw)
    out, grad = code(w.copy())

    def eta(i):
        z = t.sum(d, lambda j: t.at(X, i, j) * t.at(w, j))
        return z + t.at(w, d) if icpt else z
    want = -t.sum(n, lambda i: (t.at(sw, i) if weighted else 1) * (t.at(y, i) * eta(i) - t.exp(eta(i)))) / n \
        + l2 / 2 * t.sum(d, lambda j: t.at(w, j) * t.at(w, j))
    t.ensure_eq('loss', out, want)
    t.ensure_array('gradient is the derivative', grad, t.shape(w),
                   lambda j: t.dvalue(lambda v: code(v)[0], w, j), tol=1e-3)


class Opt:
    """what scipy.optimize.minimize returns"""

    def __init__(self, x):
        self.x = x
        self.fun = 0.
        self.success = True
        self.nit = 1


@contract('P08', funcs=[LG + '.fit_intercept_fixed_coef'], n=100)
def refit_binary(t):
    """the objective handed to the optimiser when only the intercept is refitted"""
    m = t.mod(LG)
    n, d = t.dim('n', lo=2), t.dim('d')
    X = t.array('X', (n, d), lo=-2, hi=2)
    yb = t.array('yb', (n,), kind='b')
    y = t.table((n,), lambda i: t.ite(t.at(yb, i), 1, 0), kind='i')
    t.requires(t.any(n, lambda i: t.at(y, i) == 0))
    t.requires(t.any(n, lambda i: t.at(y, i) == 1))
    coef = t.array('coef', (1, d), lo=-2, hi=2)
    b = t.array('b', (1,), lo=-2, hi=2)
    seen = []

    def minimize(fun, x0, args=(), method=None, jac=None, **k):
        seen.append((fun, x0, args, jac))
        return Opt(b.copy())
    t.stub('scipy.optimize', 'minimize', minimize, users=[LG])
    r = m.fit_intercept_fixed_coef(X, coef, y, 1)
    t.ensure('one optimisation with value and gradient', len(seen) == 1 and seen[0][3] is True)
    fun, x0, args, jac = seen[0]
    t.ensure_array('the optimum is returned', r, (1,), lambda j: t.at(b, 0))
    val, g = fun(b.copy(), *args)

    def eta(i):
        return t.sum(d, lambda j: t.at(X, i, j) * t.at(coef, 0, j)) + t.at(b, 0)
    s = [1]
    want = t.sum(n, lambda i: t.log(1 + t.exp(-(2 * t.at(y, i) - 1) * eta(i)))) / n
    t.ensure_eq('loss', val, want)
    t.ensure_array('gradient', g, (1,), lambda j: t.sum(n, lambda i: 1 / (1 + t.exp(-eta(i))) - t.at(y, i)) / n)


@contract('P08', funcs=[LG + '.fit_intercept_fixed_coef'], n=100)
def refit_multinomial(t):
    m = t.mod(LG)
    n, d, k = t.dim('n', lo=2), t.dim('d'), t.dim('k', lo=2)
    X = t.array('X', (n, d), lo=-2, hi=2)
    y = t.array('y', (n,), kind='i', lo=0, hi=k - 1)
    coef = t.array('coef', (k, d), lo=-2, hi=2)
    b = t.array('b', (k - 1,), lo=-2, hi=2)
    seen = []

    def minimize(fun, x0, args=(), method=None, jac=None, **kw):
        seen.append((fun, x0, args, jac))
        return Opt(b.copy())
    t.stub('scipy.optimize', 'minimize', minimize, users=[LG])
    m.fit_intercept_fixed_coef(X, coef, y, k)
    t.ensure('one optimisation with value and gradient', len(seen) == 1 and seen[0][3] is True)
    fun, x0, args, jac = seen[0]
    val, g = fun(b.copy(), *args)

    def eta(i, c):
        return t.sum(d, lambda j: t.at(X, i, j) * t.at(coef, c, j)) + t.ite(c == 0, 1, t.at(b, c - 1))

    def pr(i, c):
        return t.exp(eta(i, c)) / t.sum(k, lambda e: t.exp(eta(i, e)))
    want = -t.sum(n, lambda i: t.sum(k, lambda c: t.ite(t.at(y, i) == c, t.log(pr(i, c)), 0))) / n
    t.ensure_eq('loss', val, want)
    t.ensure_array('gradient is the derivative', g, (k - 1,),
                   lambda c: t.sum(n, lambda i: pr(i, c + 1) - t.ite(t.at(y, i) == c + 1, 1, 0)) / n, tol=1e-6)
