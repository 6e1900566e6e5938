"""P12: coordinate descent of the Poisson model."""
from pydv.api import contract

PO = 'pyuoi.linear_model.poisson'


@contract('P12', funcs=[PO + '.Poisson.soft_threshold'], n=100)
def soft_threshold(t):
    m = t.mod(PO)
    thr = t.real('thr', lo=0)

    def spec(x):
        return t.sign(x) * t.maximum(t.abs(x) - thr, 0)
    if t.boolean('scalar'):
        x = t.real('x')
        t.ensure_eq('soft threshold', m.Poisson.soft_threshold(x, thr), spec(x))
    else:
        n = t.dim('n')
        x = t.array('x', (n,))
        t.ensure_array('soft threshold', m.Poisson.soft_threshold(x, thr), (n,), lambda i: spec(t.at(x, i)))


@contract('P12', funcs=[PO + '.Poisson.adjusted_response'], n=100)
def adjusted_response(t):
    """w and z make sum w (z - eta)^2 / 2 the second-order expansion: its gradient
    and curvature at the current predictor are those of the Poisson loss"""
    m = t.mod(PO)
    n, d = t.dim('n'), t.dim('d')
    X, beta = t.array('X', (n, d)), t.array('beta', (d,))
    y = t.array('y', (n,), kind='i', lo=0, hi=5)
    b = t.real('b')
    w, z = m.Poisson.adjusted_response(X, y, beta, b)

    def eta(i):
        return t.sum(d, lambda j: t.at(X, i, j) * t.at(beta, j)) + b
    t.ensure_array('weights are the curvature', w, (n,), lambda i: t.exp(eta(i)))
    t.ensure_shape('response', z, (n,))
    t.each(n, lambda i: t.ensure_eq('gradient of the expansion', t.at(w, i) * (eta(i) - t.at(z, i)),
                                    t.exp(eta(i)) - t.at(y, i)))


def sweep_case(t):
    m = t.mod(PO)
    n, d = t.dim('n'), t.dim('d', lo=2)
    icpt = t.boolean('fit_intercept')
    X, beta = t.array('X', (n, d)), t.array('beta', (d,))
    w, z = t.array('w', (n,), lo=0.1, hi=3, positive=True), t.array('z', (n,))
    alpha, l1 = t.real('alpha', lo=0, hi=2), t.real('l1', lo=0, hi=1)
    b0 = t.real('b0')
    est = m.Poisson(alpha=alpha, l1_ratio=l1, fit_intercept=icpt)
    return n, d, icpt, X, beta, w, z, alpha, l1, b0, est


def one_update(t, n, d, X, w, z, alpha, l1, b, cur, j):
    """the numbers of the scalar problem in coordinate j: slope and curvature at zero"""
    def rest(i):
        return b + t.sum(d, lambda e: t.at(X, i, e) * t.ite(e == j, 0, cur(e)))
    num = t.sum(n, lambda i: t.at(w, i) * t.at(X, i, j) * (t.at(z, i) - rest(i))) / n
    den = t.sum(n, lambda i: t.at(w, i) * t.at(X, i, j) * t.at(X, i, j)) / n + alpha * (1 - l1)
    return num, den


def check_update(t, new, num, den, thr):
    """new minimises den/2 x^2 - num x + thr |x| : zero is a subgradient"""
    g = den * new - num
    t.ensure_eq('stationary where positive', t.ite(new > 0, g + thr, 0), 0)
    t.ensure_eq('stationary where negative', t.ite(new < 0, g - thr, 0), 0)
    t.ensure('within the threshold at zero', t.implies(new == 0, t.and_(g <= thr, g >= -thr)))


@contract('P12', funcs=[PO + '.Poisson._cd_sweep'], n=150)
def sweep_one(t):
    n, d, icpt, X, beta, w, z, alpha, l1, b0, est = sweep_case(t)
    j = t.integer('j', lo=0, hi=d - 1)
    out, b = est._cd_sweep(coef=beta.copy(), intercept=b0, X=X, w=w, z=z, active_idx=t.np.array([j]))
    if icpt:
        t.ensure_eq('intercept is the weighted mean residual',
                    b * t.sum(n, lambda i: t.at(w, i)),
                    t.sum(n, lambda i: t.at(w, i) * (t.at(z, i) - t.sum(d, lambda e: t.at(X, i, e) * t.at(beta, e)))))
    else:
        t.ensure_eq('no intercept', b, 0)
    t.ensure_shape('coefficients', out, (d,))
    t.each(d, lambda e: t.ensure('inactive coordinates are untouched',
                                 t.or_(e == j, t.at(out, e) == t.at(beta, e))))
    num, den = one_update(t, n, d, X, w, z, alpha, l1, b, lambda e: t.at(beta, e), j)
    new = t.at(out, j)
    thr = alpha * l1
    want = t.ite(den > 0, t.sign(num) * t.maximum(t.abs(num) - thr, 0) / t.ite(den > 0, den, 1), 0)
    t.ensure_eq('closed form', new, want)


@contract('P12', funcs=[PO + '.Poisson._cd_sweep'], n=100)
def sweep_two(t):
    """the second update sees the first one's result"""
    n, d, icpt, X, beta, w, z, alpha, l1, b0, est = sweep_case(t)
    asked = []
    ret = [t.real('s1'), t.real('s2'), 0]

    def soft(x, thr):
        asked.append((x, thr))
        return ret[len(asked) - 1]
    est.soft_threshold = soft
    j, k = t.integer('j', lo=0, hi=d - 2), t.integer('k', lo=0, hi=d - 1)
    t.requires(j < k)
    for e in (j, k):
        t.requires(t.sum(n, lambda i: t.at(w, i) * t.at(X, i, e) * t.at(X, i, e)) / n + alpha * (1 - l1) > 0)
    out, b = est._cd_sweep(coef=beta.copy(), intercept=b0, X=X, w=w, z=z, active_idx=t.np.array([j, k]))
    t.ensure('one threshold per update', len(asked) == 2)
    t.each(d, lambda e: t.ensure('inactive coordinates are untouched',
                                 t.or_(e == j, e == k, t.at(out, e) == t.at(beta, e))))
    num, den = one_update(t, n, d, X, w, z, alpha, l1, b, lambda e: t.at(beta, e), j)
    t.ensure_eq('first slope', asked[0][0], num)
    t.ensure_eq('first update', t.at(out, j) * den, ret[0])
    num, den = one_update(t, n, d, X, w, z, alpha, l1, b, lambda e: t.ite(e == j, t.at(out, j), t.at(beta, e)), k)
    t.ensure_eq('second slope', asked[1][0], num)
    t.ensure_eq('second update', t.at(out, k) * den, ret[1])
    for x, thr in asked:
        t.ensure_eq('threshold', thr, alpha * l1)


@contract('P12', funcs=[], n=60)
def closed_form_minimises(t):
    """lemma: the closed form above minimises den/2 x^2 - num x + thr |x|"""
    num, thr = t.real('num'), t.real('thr', lo=0, hi=3)
    den = t.positive('den')
    x = t.sign(num) * t.maximum(t.abs(num) - thr, 0) / den
    check_update(t, x, num, den, thr)


@contract('P12', funcs=[PO + '.Poisson._cd_sweep'], n=200, proof=False,
          bounded='any active set, n <= 8, d <= 5, tolerance 1e-9')
def sweep_general(t):
    np = t.np
    n, d, icpt, X, beta, w, z, alpha, l1, b0, est = sweep_case(t)
    if t.boolean('zero column'):
        X[:, 0] = 0
    act = np.array(sorted(t.choice('active', [[], [0], list(range(d)), list(range(0, d, 2))])), dtype=int)
    out, b = est._cd_sweep(coef=beta.copy(), intercept=b0, X=X, w=w, z=z, active_idx=act)
    cur = beta.copy()
    want_b = w @ (z - X @ beta) / w.sum() if icpt else 0
    t.ensure_eq('intercept', b, want_b)
    for j in act:
        num, den = one_update(t, n, d, X, w, z, alpha, l1, b, lambda e: cur[e], j)
        t.ensure_eq('update', out[j], np.sign(num) * max(abs(num) - alpha * l1, 0) / den if den > 0 else 0, tol=1e-9)
        cur[j] = out[j]
    t.ensure_array('others untouched', out, (d,), lambda e: cur[e])


@contract('P12', funcs=[PO + '.Poisson._cd'], n=120)
def driver(t):
    """the calls of one descent: expansion at the current point, weights times
    sample weights, everything active first, nothing that is nonzero dropped later"""
    m = t.mod(PO)
    n, d = t.dim('n'), t.dim('d')
    icpt, warm, std = t.boolean('fit_intercept'), t.boolean('warm'), t.boolean('standardize')
    weighted = t.boolean('weighted')
    X = t.array('X', (n, d))
    y = t.array('y', (n,), kind='i', lo=0, hi=5)
    sw = t.array('sw', (n,), lo=0.2, hi=2) if weighted else None
    c0, b0 = t.array('c0', (d,)), t.real('b0')
    c1, b1 = t.array('c1', (d,)), t.real('b1')
    c2, b2 = t.array('c2', (d,)), t.real('b2')
    scale = t.array('scale', (d,), lo=0.5, hi=2, positive=True)
    iters = t.choice('max_iter', [1, 2])
    tol = t.real('tol', lo=0, hi=3)
    est = m.Poisson(fit_intercept=icpt, warm_start=warm, standardize=std, max_iter=iters, tol=tol)
    if warm:
        est.coef_, est.intercept_ = c0.copy(), b0
    if std:
        class Scaler(object):
            pass
        est._X_scaler = Scaler()
        est._X_scaler.scale_ = scale
    seen = []

    def sweep(coef, X, w, z, active_idx, intercept=0):
        seen.append((coef.copy(), X, w, z, active_idx, intercept))
        return ((c1.copy(), b1), (c2.copy(), b2))[len(seen) - 1]
    est._cd_sweep = sweep
    coef, b = est._cd(X, y, sample_weight=sw)
    def start(j):
        if not warm:
            return 0
        return t.at(c0, j) * t.at(scale, j) if std else t.at(c0, j)
    t.ensure('sweeps', 1 <= len(seen) <= iters)
    if len(seen) < iters:
        t.ensure('stops early only when converged', t.max_over(d, lambda j: t.abs(start(j) - t.at(c1, j))) < tol)
    iters = len(seen)
    t.ensure_array('result', coef, (d,), lambda j: t.at((c1, c2)[iters - 1], j))
    t.ensure_eq('intercept', b, (b1, b2)[iters - 1])

    t.ensure_array('starting point', seen[0][0], (d,), start)
    t.ensure_eq('starting intercept', seen[0][5], b0 if warm and icpt else 0)
    t.ensure_array('every coordinate is active first', seen[0][4], (d,), lambda k: k)
    points = [(lambda j: t.at(seen[0][0], j), seen[0][5])]
    if iters == 2:
        t.ensure_array('the second sweep continues', seen[1][0], (d,), lambda j: t.at(c1, j))
        t.ensure_eq('from the intercept', seen[1][5], b1)
        act = seen[1][4]
        t.ensure('one-dimensional active set', t.ndim(act) == 1)
        na = t.shape(act)[0]
        t.each(d, lambda e: t.ensure('nonzero coordinates stay active',
                                     t.implies(t.not_(t.at(c1, e) == 0), t.any(na, lambda k: t.at(act, k) == e))))
        points.append((lambda j: t.at(c1, j), b1))
    for (f, bb), s in zip(points, seen):
        def eta(i):
            return t.sum(d, lambda j: t.at(X, i, j) * f(j)) + bb
        t.ensure_array('design', s[1], (n, d), lambda i, j: t.at(X, i, j))
        t.ensure_array('weights', s[2], (n,), lambda i: t.exp(eta(i)) * (t.at(sw, i) if weighted else 1))
        t.each(n, lambda i: t.ensure_eq('working response', t.exp(eta(i)) * (t.at(s[3], i) - eta(i)),
                                        t.at(y, i) - t.exp(eta(i))))
