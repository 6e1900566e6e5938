"""P19: liblbfgs, through the mechanical translation of lbfgs.c (pydv/cfront.py)."""
from pydv.api import contract

C = 'liblbfgs.lbfgs.c:'
LIB = 'pyuoi.lbfgs._liblbfgs'


def kept(t, label, x, n, old):
    t.ensure_array(label, x, (n,), lambda i: old[i])


@contract('P19', funcs=[C + f for f in ('vecset', 'veccpy', 'vecncpy', 'vecadd', 'vecdiff', 'vecscale', 'vecmul')], n=40)
def vector_updates(t):
    L = t.mod(LIB)
    n = t.dim('n', lo=1)
    m = t.dim('more', lo=0)
    x, y = t.array('x', (n + m,)), t.array('y', (n + m,))
    z = t.array('z', (n + m,))
    c = t.real('c')
    forms = [('vecset', lambda w: L.vecset(w, c, n), lambda i: c),
             ('veccpy', lambda w: L.veccpy(w, x, n), lambda i: x[i]),
             ('vecncpy', lambda w: L.vecncpy(w, x, n), lambda i: -x[i]),
             ('vecadd', lambda w: L.vecadd(w, x, c, n), lambda i: y[i] + c * x[i]),
             ('vecdiff', lambda w: L.vecdiff(w, x, z, n), lambda i: x[i] - z[i]),
             ('vecscale', lambda w: L.vecscale(w, c, n), lambda i: c * y[i]),
             ('vecmul', lambda w: L.vecmul(w, x, n), lambda i: y[i] * x[i])]
    x0, z0 = x.copy(), z.copy()
    for name, run, form in forms:
        w = y.copy()
        run(w)
        t.ensure_array(name, w, (n + m,), lambda i: t.ite(i < n, form(i), y[i]))
        kept(t, name + ' reads x only', x, n + m, x0)
        kept(t, name + ' reads z only', z, n + m, z0)


@contract('P19', funcs=[C + f for f in ('vecdot', 'vec2norm', 'vec2norminv', 'owlqn_x1norm')], n=40)
def norms(t):
    L = t.mod(LIB)
    n = t.dim('n', lo=1)
    m = t.dim('more', lo=0)
    x, y = t.array('x', (n + m,)), t.array('y', (n + m,))
    s = L.Cell(0)
    L.vecdot(s, x, y, n)
    t.ensure_eq('dot product', s.v, t.sum(n, lambda i: x[i] * y[i]))
    L.vec2norm(s, x, n)
    nrm = t.sqrt(t.sum(n, lambda i: x[i] * x[i]))
    t.ensure_eq('norm', s.v, nrm)
    t.requires(nrm > 0)
    L.vec2norminv(s, x, n)
    t.ensure_eq('inverse norm', s.v * nrm, 1)
    a = t.integer('start', lo=0)
    t.requires(a <= n)
    t.ensure_eq('L1 norm', L.owlqn_x1norm(x, a, n), t.sum(n - a, lambda i: t.abs(x[a + i])))


@contract('P19', funcs=[C + 'owlqn_pseudo_gradient'], n=60)
def pseudo_gradient(t):
    """the minimum-norm subgradient of f + c |x[start:end]|"""
    L = t.mod(LIB)
    n = t.dim('n', lo=1)
    x, g, pg = t.array('x', (n,)), t.array('g', (n,)), t.array('pg', (n,))
    c = t.real('c', lo=0)
    a, b = t.integer('start', lo=0), t.integer('end', lo=0)
    t.requires(a <= b)
    t.requires(b <= n)
    L.owlqn_pseudo_gradient(pg, x, g, n, c, a, b)

    def form(i):
        zero = t.ite(g[i] + c < 0, g[i] + c, t.ite(g[i] - c > 0, g[i] - c, 0))
        inside = t.ite(x[i] > 0, g[i] + c, t.ite(x[i] < 0, g[i] - c, zero))
        return t.ite(t.and_(a <= i, i < b), inside, g[i])
    t.ensure_array('pseudo gradient', pg, (n,), form)


@contract('P19', funcs=[C + 'owlqn_project'], n=60)
def projection(t):
    L = t.mod(LIB)
    n = t.dim('n', lo=1)
    x, s = t.array('x', (n,)), t.array('s', (n,))
    a, b = t.integer('start', lo=0), t.integer('end', lo=0)
    t.requires(a <= b)
    t.requires(b <= n)
    x0 = x.copy()
    L.owlqn_project(x, s, a, b)
    t.ensure_array('projection', x, (n,), lambda i: t.ite(t.and_(a <= i, i < b, x0[i] * s[i] <= 0), 0, x0[i]))


class Evaluations(object):
    """the objective: any value and any gradient at each point, and a record of the points"""

    def __init__(self, t, n, name):
        self.t, self.n, self.name, self.points, self.steps, self.values, self.grads = t, n, name, [], [], [], []

    def __call__(self, instance, x, g, n, step):
        t, k = self.t, len(self.points)
        self.points.append(x.copy())
        self.steps.append(step)
        t.ensure_eq('size given to the objective', n, self.n)
        t.ensure('data given to the objective', instance is self)
        t.ensure('gradient is another array', g is not x)
        G = t.array('%s gradient %d' % (self.name, k), (self.n,))
        g[:] = G
        self.grads.append(G.copy())
        v = t.real('%s value %d' % (self.name, k))
        self.values.append(v)
        return v


def within(t, n):
    a, b = t.integer('start', lo=0), t.integer('end', lo=0)
    t.requires(a <= b)
    t.requires(b <= n)
    return a, b


def problem(t, L, n, tries):
    x, s, xp, gp, g, wp = (t.array(k, (n,)) for k in ('x', 's', 'xp', 'gp', 'g', 'wp'))
    stp, f0 = t.real('step'), t.real('f')
    ev = Evaluations(t, n, 'line')
    cd = L.tag_callback_data(n=n, instance=ev, proc_evaluate=ev, proc_progress=None)
    lo, hi = t.real('min step', lo=0), t.real('max step', lo=0)
    t.requires(lo <= hi)
    return x, s, xp, gp, g, wp, stp, f0, ev, cd, lo, hi


def orthant_line_search(tries):
    @contract('P19', funcs=[C + 'line_search_backtracking_owlqn', C + 'owlqn_project'], name='orthant_line_search_%d' % tries, n=60,
              budget=400)
    def run(t):
        L = t.mod(LIB)
        n = t.dim('n', lo=1)
        x, s, xp, gp, g, wp, stp, f0, ev, cd, lo, hi = problem(t, L, n, tries)
        a, b = within(t, n)
        c, ftol = t.real('c', lo=0), t.real('ftol', lo=0)
        param = L.lbfgs_parameter_t(max_linesearch=tries, min_step=lo, max_step=hi, ftol=ftol, orthantwise_c=c,
                                    orthantwise_start=a, orthantwise_end=b, linesearch=L.LBFGS_LINESEARCH_BACKTRACKING)
        f, step = L.Cell(f0), L.Cell(stp)
        keep = [(z, z.copy(), k) for z, k in ((xp, 'old point'), (gp, 'old gradient'), (s, 'direction'))]
        r = L.line_search_backtracking_owlqn(n, x, f, g, s, step, xp, gp, wp, cd, param)
        for z, z0, k in keep:
            t.ensure_array(k + ' kept', z, (n,), lambda i: z0[i])
        if stp <= 0:
            t.ensure_eq('a step of no length is refused', r, L.LBFGSERR_INVALIDPARAMETERS)
            t.ensure('nothing evaluated', len(ev.points) == 0)
            return
        width = 1
        for k in range(tries):
            sk = stp * width
            width = width * 0.5
            t.ensure('points tried', len(ev.points) > k)
            p = ev.points[k]

            def form(i):
                v = xp[i] + sk * s[i]
                orthant = t.ite(xp[i] == 0, -gp[i], xp[i])
                return t.ite(t.and_(a <= i, i < b, v * orthant <= 0), 0, v)
            t.ensure_array('point %d stays in its orthant' % k, p, (n,), form)
            t.ensure_eq('step %d' % k, ev.steps[k], sk)
            val = ev.values[k] + (c * t.sum(b - a, lambda i: t.abs(p[a + i])) if a < b else 0)
            slope = t.sum(n, lambda i: (p[i] - xp[i]) * gp[i])
            want, last = None, True
            if val <= f0 + ftol * slope:
                want = k + 1
            elif sk < lo:
                want = L.LBFGSERR_MINIMUMSTEP
            elif sk > hi:
                want = L.LBFGSERR_MAXIMUMSTEP
            elif k == tries - 1:
                want = L.LBFGSERR_MAXIMUMLINESEARCH
            if want is not None:
                t.ensure_eq('result', r, want)
                t.ensure('no further point', len(ev.points) == k + 1)
                t.ensure_eq('value includes the penalty', f.v, val)
                t.ensure_array('last point is left', x, (n,), form)
                t.ensure_array('last gradient is left', g, (n,), lambda i: ev.grads[k][i])
                t.ensure_eq('step left', step.v, sk)
                return
    return run


for tries in (1, 2):
    orthant_line_search(tries)


def step_line_search(kind, tries):
    @contract('P19', funcs=[C + 'line_search_backtracking'], name='%s_line_search_%d' % (kind, tries), n=60, budget=400)
    def run(t):
        """a point is accepted when the value has dropped enough and, for the Wolfe searches, the slope is small enough"""
        L = t.mod(LIB)
        n = t.dim('n', lo=1)
        x, s, xp, gp, g, wp, stp, f0, ev, cd, lo, hi = problem(t, L, n, tries)
        ftol, wolfe = t.real('ftol', lo=0), t.real('wolfe', lo=0)
        algo = dict(armijo=L.LBFGS_LINESEARCH_BACKTRACKING_ARMIJO, wolfe=L.LBFGS_LINESEARCH_BACKTRACKING_WOLFE,
                    strong=L.LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE)[kind]
        param = L.lbfgs_parameter_t(max_linesearch=tries, min_step=lo, max_step=hi, ftol=ftol, wolfe=wolfe, orthantwise_c=0,
                                    linesearch=algo)
        f, step = L.Cell(f0), L.Cell(stp)
        g0 = g.copy()
        keep = [(z, z.copy(), k) for z, k in ((xp, 'old point'), (gp, 'old gradient'), (s, 'direction'))]
        r = L.line_search_backtracking(n, x, f, g, s, step, xp, gp, wp, cd, param)
        for z, z0, k in keep:
            t.ensure_array(k + ' kept', z, (n,), lambda i: z0[i])
        if stp <= 0:
            t.ensure_eq('a step of no length is refused', r, L.LBFGSERR_INVALIDPARAMETERS)
            t.ensure('nothing evaluated', len(ev.points) == 0)
            return
        slope = t.sum(n, lambda i: g0[i] * s[i])
        if slope > 0:
            t.ensure_eq('an uphill direction is refused', r, L.LBFGSERR_INCREASEGRADIENT)
            t.ensure('nothing evaluated', len(ev.points) == 0)
            return
        sk = stp
        for k in range(tries):
            t.ensure('points tried', len(ev.points) > k)
            t.ensure_array('point %d on the line' % k, ev.points[k], (n,), lambda i: xp[i] + sk * s[i])
            t.ensure_eq('step %d' % k, ev.steps[k], sk)
            now = t.sum(n, lambda i: ev.grads[k][i] * s[i])
            want, factor = None, 0.5
            if ev.values[k] <= f0 + sk * (ftol * slope):
                if kind == 'armijo':
                    want = k + 1
                elif now < wolfe * slope:
                    factor = 2.1
                elif kind == 'wolfe' or now <= -wolfe * slope:
                    want = k + 1
            if want is None:
                if sk < lo:
                    want = L.LBFGSERR_MINIMUMSTEP
                elif sk > hi:
                    want = L.LBFGSERR_MAXIMUMSTEP
                elif k == tries - 1:
                    want = L.LBFGSERR_MAXIMUMLINESEARCH
            if want is not None:
                t.ensure_eq('result', r, want)
                t.ensure('no further point', len(ev.points) == k + 1)
                t.ensure_eq('value left', f.v, ev.values[k])
                t.ensure_array('last point is left', x, (n,), lambda i: xp[i] + sk * s[i])
                t.ensure_array('last gradient is left', g, (n,), lambda i: ev.grads[k][i])
                t.ensure_eq('step left', step.v, sk)
                return
            sk = sk * factor
    return run


for kind in ('armijo', 'wolfe', 'strong'):
    for tries in (1, 2):
        step_line_search(kind, tries)


class Started(Exception):
    pass


@contract('P19', funcs=[C + 'lbfgs'], n=200, budget=400)
def parameters(t):
    """the objective is evaluated exactly when every parameter is in its range; each refusal has its own status"""
    L = t.mod(LIB)
    n = t.integer('n')
    big = t.dim('size', lo=1)
    x = t.array('x', (big,))
    t.requires(n <= big)
    x0 = x.copy()
    eps, delta, lo, hi, ftol, wolfe, gtol, xtol, c = (t.real(k) for k in (
        'epsilon', 'delta', 'min_step', 'max_step', 'ftol', 'wolfe', 'gtol', 'xtol', 'c'))
    past, a, b, maxls = (t.integer(k) for k in ('past', 'start', 'end', 'max_linesearch'))
    algo = t.choice('linesearch', [0, 1, 2, 3, 4, -1])
    t.requires(n > 0)
    param = L.lbfgs_parameter_t(m=1, epsilon=eps, past=past, delta=delta, max_iterations=1, linesearch=algo, max_linesearch=maxls,
                                min_step=lo, max_step=hi, ftol=ftol, wolfe=wolfe, gtol=gtol, xtol=xtol, orthantwise_c=c,
                                orthantwise_start=a, orthantwise_end=b)
    seen = []

    def evaluate(instance, x, g, n, step):
        seen.append(1)
        raise Started
    try:
        r = L.lbfgs(n, x, None, evaluate, None, None, param)
    except Started:
        r = 'started'
    want = 'started'
    checks = [(past < 0, 'TESTPERIOD'), (eps < 0, 'EPSILON'), (delta < 0, 'DELTA'), (lo < 0, 'MINSTEP'), (hi < lo, 'MAXSTEP'),
              (ftol < 0, 'FTOL'), (gtol < 0, 'GTOL'), (xtol < 0, 'XTOL'), (maxls <= 0, 'MAXLINESEARCH'), (c < 0, 'ORTHANTWISE'),
              (t.or_(a < 0, a > n), 'ORTHANTWISE_START'), (b > n, 'ORTHANTWISE_END')]
    if algo in (2, 3):
        checks.append((t.or_(wolfe <= ftol, wolfe >= 1), 'WOLFE'))
    bad = algo not in (0, 1, 2, 3)
    if r == 'started':
        for cond, nm in checks:
            t.ensure('%s in range' % nm, t.not_(cond))
        t.ensure('line search known', not bad)
        t.ensure('penalty only with the backtracking search', t.or_(algo == 2, c == 0))
        return
    t.ensure('nothing evaluated', not seen)
    t.ensure_array('the point is kept', x, (big,), lambda i: x0[i])
    for cond, nm in checks:
        code = getattr(L, 'LBFGSERR_INVALID_' + nm)
        t.ensure('%s refused for its reason' % nm, t.or_(r != code, cond))
    t.ensure('line search refused for its reason', t.or_(r != L.LBFGSERR_INVALID_LINESEARCH, bad, t.and_(algo != 2, c != 0)))
    t.ensure('a known refusal', any(r == getattr(L, 'LBFGSERR_INVALID_' + nm) for cond, nm in checks)
             or r == L.LBFGSERR_INVALID_LINESEARCH)



class Search(object):
    """a line search: any point, value, gradient and step, or a failure; a record of what it was given"""

    def __init__(self, t, n, results):
        self.t, self.n, self.results, self.calls = t, n, results, []

    def __call__(self, n, x, f, g, s, stp, xp, gp, wp, cd, param):
        t, k = self.t, len(self.calls)
        t.ensure_eq('size given to the line search', n, self.n)
        t.ensure('own arrays', all(u is not v for u, v in ((x, xp), (x, g), (x, s), (x, wp), (s, gp), (s, xp), (g, s), (g, wp))))
        self.calls.append(dict(x=x.copy(), f=f.v, g=g.copy(), d=s.copy(), step=stp.v, xp=xp.copy(), pg=gp.copy()))
        X, G = t.array('x%d' % (k + 1), (self.n,)), t.array('g%d' % (k + 1), (self.n,))
        x[:] = X
        g[:] = G
        f.v = t.real('f%d' % (k + 1))
        t.requires(f.v != 0)
        stp.v = t.real('step%d' % (k + 1))
        self.calls[k].update(X=X.copy(), G=G.copy(), F=f.v, stepped=stp.v)
        return self.results[k]


class Penalty(object):
    """owlqn_pseudo_gradient and owlqn_x1norm by their contracts: what is asked of them, and any answer"""

    def __init__(self, t, n, c, a, b):
        self.t, self.n, self.c, self.a, self.b, self.calls, self.answers = t, n, c, a, b, [], []

    def gradient(self, pg, x, g, n, c, start, end):
        t = self.t
        t.ensure('pseudo-gradient has its own array', pg is not x and pg is not g)
        for what, u, v in (('size', n, self.n), ('weight', c, self.c), ('start', start, self.a), ('end', end, self.b)):
            t.ensure_eq('pseudo-gradient: ' + what, u, v)
        A = t.array('pg%d' % len(self.calls), (self.n,))
        self.calls.append((x.copy(), g.copy()))
        self.answers.append(A.copy())
        pg[:] = A

    def norm(self, x, start, n):
        t = self.t
        t.ensure_eq('L1 norm: start', start, self.a)
        t.ensure_eq('L1 norm: end', n, self.b)
        self.normed = x.copy()
        self.length = t.real('l1 norm', lo=0)
        return self.length


def run_lbfgs(t, kind, results, iterations, m=1, past=0, progress=None, dots=False):
    """-> what is needed to judge a run of lbfgs()"""
    L = t.mod(LIB)
    n = t.dim('n', lo=1)
    x, G0 = t.array('x', (n,)), t.array('g0', (n,))
    x0 = x.copy()
    eps, delta = t.real('epsilon', lo=0), t.real('delta', lo=0)
    if kind == 'l1':
        a, b = within(t, n)
        c = t.positive('c')
    else:
        a, b, c = 0, n, 0
    F0 = t.real('f0')
    pen = Penalty(t, n, c, a, b)
    if kind == 'l1':
        t.keep_stub(LIB, 'owlqn_pseudo_gradient', pen.gradient)
        t.keep_stub(LIB, 'owlqn_x1norm', pen.norm)
    search = Search(t, n, results)
    wrong = lambda *z: t.fail('the other line search is used')
    t.keep_stub(LIB, 'line_search_backtracking_owlqn', search if kind == 'l1' else wrong)
    t.keep_stub(LIB, 'line_search_backtracking', search if kind == 'plain' else wrong)
    t.keep_stub(LIB, 'line_search_morethuente', search if kind == 'morethuente' else wrong)
    by_contract(t, n)
    if dots:
        dots = Dots(t, n)
        t.keep_stub(LIB, 'vecdot', dots)
    algo = dict(l1=L.LBFGS_LINESEARCH_BACKTRACKING, plain=L.LBFGS_LINESEARCH_BACKTRACKING_ARMIJO,
                morethuente=L.LBFGS_LINESEARCH_MORETHUENTE)[kind]
    param = L.lbfgs_parameter_t(m=m, epsilon=eps, past=past, delta=delta, max_iterations=iterations, linesearch=algo,
                                max_linesearch=1, min_step=0, max_step=1, ftol=0.1, wolfe=0.5, gtol=0.1, xtol=0.1,
                                orthantwise_c=c, orthantwise_start=a, orthantwise_end=b)
    data = object()
    starts = []

    def evaluate(instance, xx, g, nn, step):
        t.ensure('data given to the objective', instance is data)
        t.ensure_eq('size given to the objective', nn, n)
        t.ensure('the caller\'s array is optimised', xx is x)
        starts.append(xx.copy())
        g[:] = G0
        return F0
    out = L.Cell(None)
    status = L.lbfgs(n, x, out, evaluate, progress, data, param)
    t.ensure('one evaluation outside the line search', len(starts) == 1)
    t.ensure_array('evaluated at the start', starts[0], (n,), lambda i: x0[i])
    if kind == 'l1':
        t.ensure_array('L1 norm of the start', pen.normed, (n,), lambda i: x0[i])
        f0 = F0 + c * pen.length
    else:
        f0 = F0
    return dict(kind=kind, pen=pen, dots=dots, L=L, n=n, x=x, x0=x0, G0=G0, eps=eps, delta=delta, a=a, b=b, c=c, f0=f0, search=search, out=out, status=status)


def norm(t, n, f):
    return t.sqrt(t.sum(n, lambda i: f(i) * f(i)))


def descent(t, r, k, x, g):
    """the gradient that decides at the k-th point: the pseudo-gradient of that point and gradient, or the gradient"""
    if r['kind'] != 'l1':
        return lambda i: g[i]
    t.ensure('pseudo-gradient of point %d' % k, len(r['pen'].calls) > k)
    xx, gg = r['pen'].calls[k]
    t.ensure_array('pseudo-gradient at point %d' % k, xx, (r['n'],), lambda i: x[i])
    t.ensure_array('pseudo-gradient of gradient %d' % k, gg, (r['n'],), lambda i: g[i])
    return lambda i: r['pen'].answers[k][i]


def small(t, r, x, f):
    """the gradient is small against the point"""
    nx, ng = norm(t, r['n'], lambda i: x[i]), norm(t, r['n'], f)
    return ng <= r['eps'] * t.maximum(nx, 1)


def first_direction(kind):
    @contract('P19', funcs=[C + 'lbfgs', C + 'owlqn_pseudo_gradient'], name='first_direction_%s' % kind, n=60, budget=400)
    def run(t):
        """the start is a minimiser, or the first search goes down the pseudo-gradient and its failure gives the start back"""
        r = run_lbfgs(t, kind, [-1000], 1)
        L, n, calls = r['L'], r['n'], r['search'].calls
        pg = descent(t, r, 0, r['x0'], r['G0'])
        t.ensure_array('the start is given back', r['x'], (n,), lambda i: r['x0'][i])
        if len(calls) == 0:
            t.ensure_eq('status at a minimiser', r['status'], L.LBFGS_ALREADY_MINIMIZED)
            t.ensure('gradient small', small(t, r, r['x0'], pg))
            t.ensure_eq('value at the start', r['out'].v, r['f0'])
            return
        t.ensure('gradient not small', t.not_(small(t, r, r['x0'], pg)))
        t.ensure('one search', len(calls) == 1)
        k = calls[0]
        t.ensure_array('first direction', k['d'], (n,), lambda i: -pg(i))
        t.ensure_array('pseudo-gradient given to the search', k['pg'], (n,), pg)
        t.ensure_array('gradient given to the search', k['g'], (n,), lambda i: r['G0'][i])
        t.ensure_array('point the search starts from', k['xp'], (n,), lambda i: r['x0'][i])
        t.ensure_eq('value given to the search', k['f'], r['f0'])
        t.ensure_eq('first step has length one', k['step'] * norm(t, n, lambda i: -pg(i)), 1)
        t.ensure_eq('status of the failed search', r['status'], -1000)
    return run


for kind in ('plain', 'l1', 'morethuente'):
    first_direction(kind)


def after_search(kind, past, report):
    @contract('P19', funcs=[C + 'lbfgs'], name='after_search_%s_past%d%s' % (kind, past, '_' + report if report else ''), n=60, budget=400)
    def run(t):
        """what ends a run after a search that succeeded, in this order: the caller, convergence, no progress, the last iteration"""
        told = []

        def progress(instance, x, g, fx, xnorm, gnorm, step, n, k, ls):
            told.append((x.copy(), g.copy(), fx, xnorm, gnorm, step, n, k, ls))
            return 0 if report == 'told' else 7
        r = run_lbfgs(t, kind, [3], 1, m=2, past=past, progress=progress if report else None)
        L, n, calls, x, out = r['L'], r['n'], r['search'].calls, r['x'], r['out']
        if len(calls) == 0:
            t.ensure_eq('status at a minimiser', r['status'], L.LBFGS_ALREADY_MINIMIZED)
            t.ensure('nothing reported at a minimiser', not told)
            return
        k = calls[0]
        t.ensure('one search', len(calls) == 1)
        t.ensure_array('the new point is given back', x, (n,), lambda i: k['X'][i])
        t.ensure_eq('value at the new point', out.v, k['F'])
        pg = descent(t, r, 1, k['X'], k['G'])
        if report:
            t.ensure('reported once', len(told) == 1)
            for what, u, v in zip(('value', 'norm of the point', 'norm of the gradient', 'step', 'size', 'iteration', 'evaluations'),
                                  told[0][2:], (k['F'], norm(t, n, lambda i: k['X'][i]), norm(t, n, pg), k['stepped'], n, 1, 3)):
                t.ensure_eq('reported ' + what, u, v)
            t.ensure_array('reported point', told[0][0], (n,), lambda i: k['X'][i])
            t.ensure_array('reported gradient', told[0][1], (n,), lambda i: k['G'][i])
        if report == 'ended':
            t.ensure_eq('the caller ends the run', r['status'], 7)
        elif small(t, r, k['X'], pg):
            t.ensure_eq('convergence', r['status'], L.LBFGS_SUCCESS)
        elif past == 1 and t.abs((r['f0'] - k['F']) / k['F']) < r['delta']:
            t.ensure_eq('no progress', r['status'], L.LBFGS_STOP)
        else:
            t.ensure_eq('last iteration', r['status'], L.LBFGSERR_MAXIMUMITERATION)
    return run


for kind in ('plain', 'l1'):
    for past in (0, 1, 2):
        after_search(kind, past, None)
    after_search(kind, 0, 'told')
    after_search(kind, 0, 'ended')


def by_contract(t, n):
    """the vector kernels by the contracts shown above, for whole vectors"""
    def checked(name, f):
        def run(*a):
            t.ensure_eq('%s: size' % name, a[-1], n)
            f(*a)
        t.keep_stub(LIB, name, run)

    def put(y, v):
        y[:] = v
    checked('veccpy', lambda y, x, n: put(y, x))
    checked('vecncpy', lambda y, x, n: put(y, -x))
    checked('vecadd', lambda y, x, c, n: put(y, y + c * x))
    checked('vecdiff', lambda z, x, y, n: put(z, x - y))
    checked('vecscale', lambda y, c, n: put(y, c * y))


class Dots(object):
    """vecdot by its contract: each product is some number, the same for the same vectors"""

    def __init__(self, t, n):
        self.t, self.n, self.known = t, n, []

    def __call__(self, s, x, y, n):
        t = self.t
        t.ensure_eq('size of the product', n, self.n)
        f, g = x.copy(), y.copy()
        s.v = self.value(lambda i: f[i], lambda i: g[i])

    def value(self, f, g, new=True):
        t, n = self.t, self.n
        if not t.symbolic:
            return t.sum(n, lambda i: f(i) * g(i))
        for a, b, v in self.known:
            if t.matches(n, a, f) and t.matches(n, b, g) or t.matches(n, a, g) and t.matches(n, b, f):
                return v
        if not new:
            return t.sum(n, lambda i: f(i) * g(i))
        v = t.real('dot%d' % len(self.known))
        if t.matches(n, f, g):
            t.assume_fact(v >= 0, 'a sum of squares')
        self.known.append((f, g, v))
        return v


def two_loops(t, n, pairs, q, dots):
    """-H q of L-BFGS for the pairs kept, oldest first, as a function of i"""
    dot = lambda f, g: dots.value(f, g, False)
    d = lambda i: -q(i)
    alphas = []
    for s, y in reversed(pairs):
        al = dot(s, d) / dot(y, s)
        alphas.append(al)
        d = (lambda d, y, al: lambda i: d(i) - al * y(i))(d, y, al)
    s, y = pairs[-1]
    ga = dot(y, s) / dot(y, y)
    d = (lambda d: lambda i: ga * d(i))(d)
    for (s, y), al in zip(pairs, reversed(alphas)):
        be = dot(y, d) / dot(y, s)
        d = (lambda d, s, z: lambda i: d(i) + z * s(i))(d, s, al - be)
    return d


def later_direction(kind, m, steps):
    @contract('P19', funcs=[C + 'lbfgs'], name='direction_%s_m%d_%d' % (kind, m, steps), n=60, budget=600)
    def run(t):
        """the limited-memory direction, without the components that go up the pseudo-gradient"""
        r = run_lbfgs(t, kind, [1] * steps + [-998], 0, m=m, dots=True)
        L, n, calls, x = r['L'], r['n'], r['search'].calls, r['x']
        if len(calls) <= steps:
            t.ensure('ended before', t.or_(r['status'] == L.LBFGS_ALREADY_MINIMIZED, r['status'] == L.LBFGS_SUCCESS))
            return
        t.ensure_eq('status of the failed search', r['status'], -998)
        X = [r['x0']] + [k['X'] for k in calls[:steps]]
        G = [r['G0']] + [k['G'] for k in calls[:steps]]
        t.ensure_array('the last good point is given back', x, (n,), lambda i: X[-1][i])
        k = calls[-1]
        t.ensure_eq('step tried first', k['step'], 1)
        t.ensure_eq('value given to the search', k['f'], calls[-2]['F'])
        t.ensure_array('point the search starts from', k['xp'], (n,), lambda i: X[-1][i])
        pg = descent(t, r, steps, X[-1], G[-1])
        t.ensure_array('pseudo-gradient given to the search', k['pg'], (n,), pg)
        pairs = [((lambda a, b: lambda i: a[i] - b[i])(X[j + 1], X[j]), (lambda a, b: lambda i: a[i] - b[i])(G[j + 1], G[j]))
                 for j in range(max(0, steps - m), steps)]
        d = two_loops(t, n, pairs, pg, r['dots'])
        if kind == 'l1':
            a, b = r['a'], r['b']
            t.ensure_array('direction', k['d'], (n,), lambda i: t.ite(t.and_(a <= i, i < b, d(i) * pg(i) >= 0), 0, d(i)))
        else:
            t.ensure_array('direction', k['d'], (n,), d)
    return run


for kind in ('plain', 'l1'):
    for m, steps in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 2)):
        if (kind, m, steps) == ('l1', 2, 3):
            continue
        later_direction(kind, m, steps)


def morethuente(tries, bracketed=0, failed=0):
    @contract('P19', funcs=[C + 'line_search_morethuente'], name='morethuente_line_search_%d%s' % (tries, ('', '_left', '_right')[bracketed] + '_failed' * failed), n=60, maxpaths=800, budget=400)
    def run(t):
        """whatever steps the interpolation proposes: an accepted step is on the line, within its bounds, the last one evaluated,
        and satisfies both strong Wolfe conditions"""
        L = t.mod(LIB)
        n = t.dim('n', lo=1)
        x, s, xp, gp, g, wp, stp, f0, ev, cd, lo, hi = problem(t, L, n, tries)
        ftol, gtol, xtol = t.real('ftol', lo=0), t.real('gtol', lo=0), t.real('xtol', lo=0)
        param = L.lbfgs_parameter_t(max_linesearch=tries, min_step=lo, max_step=hi, ftol=ftol, gtol=gtol, xtol=xtol, orthantwise_c=0,
                                    linesearch=L.LBFGS_LINESEARCH_MORETHUENTE)
        by_contract(t, n)
        dots = Dots(t, n)
        t.keep_stub(LIB, 'vecdot', dots)
        asked = []

        def interval(stx, fx, dgx, sty, fy, dgy, st, ff, dg, stmin, stmax, brackt):
            k = len(asked)
            asked.append(1)
            for nm, z in (('stx', stx), ('sty', sty), ('fx', fx), ('fy', fy), ('dgx', dgx), ('dgy', dgy), ('stp', st)):
                z.v = t.real('%s %d' % (nm, k))
            brackt.v = 1 if bracketed else 0
            if bracketed:
                t.requires(stx.v < sty.v if bracketed == 1 else stx.v >= sty.v)
            return L.LBFGSERR_OUTOFINTERVAL if failed else 0
        t.keep_stub(LIB, 'update_trial_interval', interval)
        f, step = L.Cell(f0), L.Cell(stp)
        g0 = g.copy()
        keep = [(z, z.copy(), k) for z, k in ((xp, 'old point'), (gp, 'old gradient'), (s, 'direction'))]
        r = L.line_search_morethuente(n, x, f, g, s, step, xp, gp, wp, cd, param)
        for z, z0, k in keep:
            t.ensure_array(k + ' kept', z, (n,), lambda i: z0[i])
        slope = dots.value(lambda i: g0[i], lambda i: s[i], False)
        if stp <= 0:
            t.ensure_eq('a step of no length is refused', r, L.LBFGSERR_INVALIDPARAMETERS)
            t.ensure('nothing evaluated', len(ev.points) == 0)
            return
        if slope > 0:
            t.ensure_eq('an uphill direction is refused', r, L.LBFGSERR_INCREASEGRADIENT)
            t.ensure('nothing evaluated', len(ev.points) == 0)
            return
        k = len(ev.points)
        t.ensure('evaluated between once and the limit', 1 <= k <= tries)
        p, G = ev.points[-1], ev.grads[-1]
        t.ensure_array('the last point is on the line', p, (n,), lambda i: xp[i] + step.v * s[i])
        t.ensure_array('the last point is left', x, (n,), lambda i: p[i])
        t.ensure_array('the last gradient is left', g, (n,), lambda i: G[i])
        t.ensure_eq('the last value is left', f.v, ev.values[-1])
        t.ensure_eq('the last step is left', step.v, ev.steps[-1])
        if r < 0:
            t.ensure('a known failure', any(r == getattr(L, 'LBFGSERR_' + q) for q in (
                'ROUNDING_ERROR', 'MAXIMUMSTEP', 'MINIMUMSTEP', 'WIDTHTOOSMALL', 'MAXIMUMLINESEARCH')))
            return
        t.ensure_eq('number of evaluations', r, k)
        now = dots.value(lambda i: G[i], lambda i: s[i], False)
        t.ensure('sufficient decrease', ev.values[-1] <= f0 + step.v * (ftol * slope))
        t.ensure('curvature', t.abs(now) <= -gtol * slope)
        t.ensure('step within its bounds', t.and_(lo <= step.v, step.v <= hi))
    return run


morethuente(1)
for k in range(6):
    morethuente(2, k % 3, k // 3)


COMPILED = {}


def compiled(t):
    """liblbfgs/lbfgs.c of the tree under check, compiled with its internal functions visible"""
    import ctypes
    import os
    import shutil
    import subprocess
    import tempfile
    if 'lib' not in COMPILED:
        import pyuoi
        repo = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(pyuoi.__file__))))
        d = tempfile.mkdtemp()
        try:
            out = os.path.join(d, 'liblbfgs_check.so')
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-Dstatic=', '-Dinline=', '-I', os.path.join(repo, 'liblbfgs'),
                            os.path.join(repo, 'liblbfgs', 'lbfgs.c'), '-o', out, '-lm'], check=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            COMPILED['lib'] = ctypes.CDLL(out)
        finally:
            shutil.rmtree(d)
    return COMPILED['lib']


@contract('P19', funcs=[C + f for f in ('vecset', 'veccpy', 'vecncpy', 'vecadd', 'vecdiff', 'vecscale', 'vecmul', 'vecdot', 'vec2norm',
                                        'vec2norminv', 'owlqn_x1norm', 'owlqn_pseudo_gradient', 'owlqn_project', 'lbfgs')],
          proof=False, n=150, bounded='random calls of the compiled library against the translated text that the proofs are about')
def translation_agrees(t):
    import ctypes as ct
    np = t.np
    L, B = t.mod(LIB), compiled(t)
    D, I = ct.c_double, ct.c_int
    PD = ct.POINTER(D)
    ptr = lambda z: z.ctypes.data_as(PD)
    n = t.integer('n', lo=1, hi=6)
    vec = lambda k: np.array(t.array(k, (n,), lo=-3, hi=3), dtype=float) * (np.array(t.array(k + ' zero', (n,), lo=-1, hi=2)) > 0)
    x, y, z, g = vec('x'), vec('y'), vec('z'), vec('g')
    a, b = sorted([t.integer('a', lo=0, hi=6) % (n + 1), t.integer('b', lo=0, hi=6) % (n + 1)])
    c = t.real('c', lo=0, hi=2)

    def both(name, out, args, ret=None):
        u, v = [w.copy() for w in out], [w.copy() for w in out]
        cells = [L.Cell(w[0]) if w.shape == (1,) and name in ('vecdot', 'vec2norm', 'vec2norminv') else w for w in u]
        r1 = getattr(L, name)(*cells, *args)
        for w, cell in zip(u, cells):
            if cell is not w:
                w[0] = cell.v
        f = getattr(B, name)
        f.restype = ret
        conv = [ptr(w) if isinstance(w, np.ndarray) else I(w) if isinstance(w, int) else D(w) for w in list(v) + list(args)]
        r2 = f(*conv)
        for w, q in zip(u, v):
            t.ensure_array(name + ' agrees with the compiled library', w, w.shape, lambda i: q[i])
        if ret is not None:
            t.ensure_eq(name + ' returns what the compiled library returns', r1, r2)
    both('vecset', [y], [float(c), n])
    both('veccpy', [y], [x, n])
    both('vecncpy', [y], [x, n])
    both('vecadd', [y], [x, float(c), n])
    both('vecdiff', [y], [x, z, n])
    both('vecscale', [y], [float(c), n])
    both('vecmul', [y], [x, n])
    s = np.zeros(1)
    both('vecdot', [s], [x, y, n])
    both('vec2norm', [s], [x, n])
    if np.any(x):
        both('vec2norminv', [s], [x, n])
    both('owlqn_x1norm', [], [x, a, b], D)
    both('owlqn_pseudo_gradient', [y], [x, g, n, float(c), a, b])
    both('owlqn_project', [y], [x, a, b])

    # whole runs
    algo = t.choice('line search', [0, 1, 2, 3])
    l1 = t.boolean('penalty')
    w = np.array(t.array('curvature', (n,), lo=0, hi=4)) + .2
    q = t.real('quartic', lo=0, hi=1)
    mix = t.real('mixing', lo=-.1, hi=.1)
    names = [f for f, _ in (('m', I), ('epsilon', D), ('past', I), ('delta', D), ('max_iterations', I), ('linesearch', I),
                            ('max_linesearch', I), ('min_step', D), ('max_step', D), ('ftol', D), ('wolfe', D), ('gtol', D), ('xtol', D),
                            ('orthantwise_c', D), ('orthantwise_start', I), ('orthantwise_end', I))]
    kinds = [I, D, I, D, I, I, I, D, D, D, D, D, D, D, I, I]

    class Par(ct.Structure):
        _fields_ = list(zip(names, kinds))
    vals = [t.integer('m', lo=1, hi=4), t.choice('epsilon', [1e-5, 1e-2, 0.]), t.choice('past', [0, 1, 2, 3]), t.choice('delta', [0., 1e-3, .1]),
            t.integer('iterations', lo=0, hi=12), algo, t.integer('trials', lo=1, hi=12), 1e-20, t.choice('max step', [1e20, .5]), 1e-4,
            .9, t.choice('gtol', [.9, .1]), 1e-16, (.1 + c) if l1 else 0., a, t.choice('end', [b, -1])]

    def value(p, grad):
        grad[:] = w * (p - z) + 4 * q * p ** 3 + mix * (p.sum() - p)
        s = float((w * (p - z) ** 2).sum() / 2 + q * (p ** 4).sum())
        return s + mix * float((p.sum() ** 2 - (p ** 2).sum()) / 2)
    log = [], []

    def run_text():
        p, f = x.copy(), L.Cell(0.)

        def ev(inst, xx, gg, nn, step):
            log[0].append(np.array(xx))
            return value(xx, gg)
        r = L.lbfgs(n, p, f, ev, None, None, L.lbfgs_parameter_t(**dict(zip(names, vals))))
        return r, p, f.v

    def run_lib():
        p, f = x.copy(), D(0.)
        EV = ct.CFUNCTYPE(D, ct.c_void_p, PD, PD, I, D)

        def ev(inst, xx, gg, nn, step):
            xa = np.ctypeslib.as_array(xx, (nn,))
            log[1].append(xa.copy())
            return value(xa, np.ctypeslib.as_array(gg, (nn,)))
        cb = EV(ev)
        B.lbfgs.restype = I
        r = B.lbfgs(I(n), ptr(p), ct.byref(f), cb, None, None, ct.byref(Par(*vals)))
        return r, p, f.value
    try:
        r1, p1, f1 = run_text()
    except ZeroDivisionError:
        return                      # the library goes on with an infinity
    r2, p2, f2 = run_lib()
    t.ensure_eq('status', r1, r2)
    t.ensure_eq('evaluations', len(log[0]), len(log[1]))
    t.ensure_array('point', p1, (n,), lambda i: p2[i])
    for u, v in zip(*log):
        t.ensure_array('points tried', u, (n,), lambda i: v[i])
    if log[0]:
        t.ensure_eq('value', f1, f2)


@contract('P19', funcs=['pyuoi.lbfgs.fmin_lbfgs'], proof=False, n=150,
          bounded='random convex problems minimised by the built extension, optimality of the point returned')
def whole_minimisations(t):
    import warnings
    np = t.np
    fmin = t.mod('pyuoi.lbfgs').fmin_lbfgs
    n = t.integer('n', lo=1, hi=6)
    A = np.array(t.array('A', (n, n), lo=-1, hi=1))
    H = A.dot(A.T) + np.eye(n) * t.real('ridge', lo=.1, hi=1)
    z, x0 = np.array(t.array('z', (n,), lo=-3, hi=3)), np.array(t.array('x0', (n,), lo=-3, hi=3))
    x0 = x0 * (x0 > -1)
    a, b = sorted([t.integer('a', lo=0, hi=6) % (n + 1), t.integer('b', lo=0, hi=6) % (n + 1)])
    c = t.choice('c', [0., .05, .5, 3.])
    search = t.choice('line search', ['default', 'wolfe'] if c else ['default', 'armijo', 'wolfe', 'strongwolfe', 'morethuente'])
    inside = (np.arange(n) >= a) & (np.arange(n) < b)

    def f(p, g):
        g[:] = H.dot(p - z)
        return float((p - z).dot(H).dot(p - z) / 2)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            x = fmin(f, x0, orthantwise_c=c, orthantwise_start=a, orthantwise_end=b, line_search=search, epsilon=1e-4)
        except t.mod('pyuoi.lbfgs._lowlevel').LBFGSError:
            return
    total = lambda p: f(p, np.zeros(n)) + c * np.abs(p[inside]).sum()
    t.ensure('no worse than the start', total(x) <= total(x0) + 1e-9)
    if any(issubclass(w.category, UserWarning) for w in caught):
        return
    g = H.dot(x - z)
    pg = np.where(inside & (x > 0), g + c, np.where(inside & (x < 0), g - c, np.where(inside, np.sign(g) * np.maximum(np.abs(g) - c, 0), g)))
    t.ensure('minimum-norm subgradient small', np.sqrt((pg ** 2).sum()) <= 1e-4 * max(1, np.sqrt((x ** 2).sum())) + 1e-9)
