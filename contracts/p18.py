"""P18: fmin_lbfgs, with _lowlevel.pyx by mechanical translation (pydv/cfront.py) and the library as a stand-in."""
from pydv.api import contract

X = 'pyuoi.lbfgs._lowlevel.'
FUNCS = ['pyuoi.lbfgs.fmin_lbfgs', X + 'LBFGS.minimize', X + 'LBFGS (properties)', X + 'call_eval', X + 'call_progress', X + 'aligned_copy']
LOW, LIB, PKG = 'pyuoi.lbfgs._lowlevel_text', 'pyuoi.lbfgs._liblbfgs', 'pyuoi.lbfgs'


class Warnings(object):
    def __init__(self):
        self.told = []

    def warn(self, message, *a, **k):
        self.told.append(message)


class Library(object):
    """lbfgs(): records what it is given, calls back, leaves any point in the buffer and returns the status it is told to"""

    def __init__(self, t, script, status):
        self.t, self.script, self.status, self.calls, self.freed, self.made = t, script, status, 0, [], []

    def malloc(self, n):
        self.made.append(self.original(n))
        return self.made[-1]

    def free(self, x):
        self.freed.append(x)

    def run(self, n, x, fx, evaluate, progress, data, params):
        self.calls += 1
        self.n, self.x, self.params = n, x, params
        self.start = x.copy()
        self.script(self, n, x, evaluate, progress, data)
        self.left = x.copy()
        self.freed_before = len(self.freed)
        return self.status


def setup(t, script=lambda *a: None, status=0):
    """-> the public function on the translated module, the stand-in, what is warned"""
    low = t.mod(LOW)
    lib = Library(t, script, status)
    w = Warnings()
    lib.original = low.lbfgs_malloc
    t.keep_stub(LOW, 'lbfgs', lib.run)
    t.keep_stub(LOW, 'lbfgs_malloc', lib.malloc)
    t.keep_stub(LOW, 'lbfgs_free', lib.free)
    t.keep_stub(LOW, 'warnings', w)
    t.keep_stub(PKG, 'warnings', w)
    t.keep_stub(PKG, 'LBFGS', low.LBFGS)
    return t.mod(PKG).fmin_lbfgs, lib, w, low


def start(t, kind):
    """a starting point, its shape, its entries in order"""
    if kind == 'vector':
        n = t.dim('n', lo=1)
        x0 = t.array('x0', (n,))
        return x0, (n,), n, lambda v, i: v[i]
    if kind == 'integers':
        n = t.dim('n', lo=1)
        x0 = t.array('x0', (n,), kind='i')
        return x0, (n,), n, lambda v, i: v[i]
    if kind == 'matrix':
        n, m = t.dim('n', lo=1), t.dim('m', lo=1)
        x0 = t.array('x0', (n, m))
        return x0, (n, m), n * m, None
    if kind == 'list':
        x0 = [t.real('u'), t.real('v')]
        return x0, (2,), 2, lambda v, i: v[i]
    x0 = t.real('x0')
    return x0, (1,), 1, None


KINDS = ['vector', 'matrix', 'integers', 'list', 'number']


def point(t, x0, kind, shape):
    """the entries of the starting point in the shape of what is returned"""
    if kind == 'number':
        return lambda i: x0
    if kind == 'matrix':
        return lambda i, j: x0[i, j]
    return lambda i: t.select(x0, i) if kind == 'list' else x0[i]


def objective(x, g):
    raise AssertionError('not called')


def options(search):
    @contract('P18', funcs=FUNCS, name='options_' + search, n=60)
    def run(t):
        """every option reaches the library under its own name, the line search is one that is valid"""
        fmin, lib, w, low = setup(t)
        L = t.mod(LIB)
        ints = {k: t.integer(k) for k in ('orthantwise_start', 'orthantwise_end', 'm', 'past', 'max_iterations', 'max_linesearch')}
        reals = {k: t.real(k) for k in ('epsilon', 'delta', 'min_step', 'max_step', 'ftol', 'wolfe', 'gtol', 'xtol', 'orthantwise_c')}
        x0 = t.array('x0', (3,))
        c = reals['orthantwise_c']
        try:
            fmin(objective, x0, line_search=search, **ints, **reals)
            refused = False
        except AssertionError:
            refused = True
        t.ensure('a negative weight is refused', refused if c < 0 else not refused)
        if refused:
            t.ensure('nothing is run', lib.calls == 0)
            return
        t.ensure('one run', lib.calls == 1)
        for k, v in list(ints.items()) + list(reals.items()):
            t.ensure_eq('option ' + k, getattr(lib.params, k), v)
        plain = dict(default=L.LBFGS_LINESEARCH_MORETHUENTE, morethuente=L.LBFGS_LINESEARCH_MORETHUENTE,
                     armijo=L.LBFGS_LINESEARCH_BACKTRACKING_ARMIJO, wolfe=L.LBFGS_LINESEARCH_BACKTRACKING_WOLFE,
                     strongwolfe=L.LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE)[search]
        if c > 0:
            t.ensure('line search valid with a penalty', lib.params.linesearch == L.LBFGS_LINESEARCH_BACKTRACKING)
            t.ensure('told when it is another one', len(w.told) == (0 if search in ('default', 'wolfe') else 1))
        else:
            t.ensure('line search', lib.params.linesearch == plain)
            t.ensure('nothing to tell', not w.told)
    return run


for search in ('default', 'morethuente', 'armijo', 'wolfe', 'strongwolfe'):
    options(search)


@contract('P18', funcs=FUNCS, n=10)
def defaults(t):
    """the documented defaults, and a line search that does not exist"""
    fmin, lib, w, low = setup(t)
    x0 = t.array('x0', (2,))
    fmin(objective, x0)
    for k, v in dict(orthantwise_c=0, orthantwise_start=0, orthantwise_end=-1, m=10, epsilon=1e-5, past=0, delta=0, max_iterations=0,
                     linesearch=0, max_linesearch=20, min_step=1e-20, max_step=1e20, ftol=1e-4, wolfe=.9, gtol=.9, xtol=1e-30).items():
        t.ensure('default of ' + k, getattr(lib.params, k) == v)
    t.ensure('an unknown line search is refused', t.raises((KeyError, ValueError), lambda: fmin(objective, x0, line_search='armijjo')))
    t.ensure('an objective that cannot be called is refused', t.raises(TypeError, lambda: fmin(3, x0)))
    t.ensure('a callback that cannot be called is refused', t.raises(TypeError, lambda: fmin(objective, x0, progress=3)))
    t.ensure('one run', lib.calls == 1)


@contract('P18', funcs=[X + 'ReturnCode', X + 'LineSearchAlgo', X + '_ERROR_MESSAGES'], n=1)
def statuses_are_those_of_the_library(t):
    low, L = t.mod(LOW), t.mod(LIB)
    names = [k for k in vars(L) if k.startswith('LBFGS')]
    t.ensure('all statuses known', len(names) > 40)
    for k in names:
        t.ensure('same number for ' + k, k in vars(low) and vars(low)[k] == vars(L)[k])
    for k in names:
        if k.startswith('LBFGSERR_'):
            t.ensure('message for ' + k, vars(L)[k] in low._ERROR_MESSAGES)


def callbacks(kind):
    @contract('P18', funcs=FUNCS, name='callbacks_' + kind, n=40, budget=200)
    def run(t):
        """the objective and the progress callback see the current point in the shape of the start, and the extra arguments"""
        seen, extra = [], (object(), object())
        x0, shape, size, _ = start(t, kind)
        cur, grad = t.array('current', shape), t.array('gradient', shape)
        value = t.real('value')
        fx, xn, gn, st = (t.real(k) for k in ('fx', 'xnorm', 'gnorm', 'step'))
        answer = t.choice('answer', [None, 0, 1, 2, -998, True, False])

        def f(x, g, *args):
            seen.append(('f', x.copy(), args))
            t.ensure_shape('gradient to fill', g, shape)
            g[:] = grad
            return value

        def progress(x, g, *args):
            seen.append(('p', x.copy(), g.copy(), args))
            return answer

        def script(lib, n, x, evaluate, report, data):
            t.ensure_eq('number of variables', n, size)
            x[:] = cur.reshape(size) if kind == 'matrix' else cur
            g = t.np.zeros(size)
            t.ensure_eq('value given to the library', evaluate(data, x, g, n, st), value)
            t.ensure_array('gradient given to the library', g.reshape(shape), shape, lambda *i: grad[i])
            r = report(data, x, g, fx, xn, gn, st, n, 5, 3)
            t.ensure('the library goes on', r == 0) if not answer else t.ensure('the library is stopped', r == t.mod(LIB).LBFGSERR_CANCELED)
        fmin, lib, w, low = setup(t, script)
        out = fmin(f, x0, progress, args=extra)
        t.ensure('called once each', [s[0] for s in seen] == ['f', 'p'])
        for s in seen:
            t.ensure_array('current point', s[1], shape, lambda *i: cur[i])
        t.ensure_array('current gradient', seen[1][2], shape, lambda *i: grad[i])
        a = seen[0][2]
        t.ensure('extra arguments of the objective', len(a) == 2 and a[0] is extra[0] and a[1] is extra[1])
        a = seen[1][3]
        t.ensure('arguments of the progress callback', len(a) == 8 and a[6] is extra[0] and a[7] is extra[1])
        for what, u, v in zip(('value', 'norm of the point', 'norm of the gradient', 'step', 'iteration', 'evaluations'), a, (fx, xn, gn, st, 5, 3)):
            t.ensure_eq('progress: ' + what, u, v)
    return run


for kind in KINDS:
    callbacks(kind)


STATUSES = ['SUCCESS', 'STOP', 'ALREADY_MINIMIZED', 'ALLZERO'] + ['ERR_' + k for k in (
    'UNKNOWNERROR', 'LOGICERROR', 'OUTOFMEMORY', 'CANCELED', 'INVALID_N', 'INVALID_EPSILON', 'INVALID_TESTPERIOD', 'INVALID_DELTA',
    'INVALID_LINESEARCH', 'INVALID_MINSTEP', 'INVALID_MAXSTEP', 'INVALID_FTOL', 'INVALID_WOLFE', 'INVALID_GTOL', 'INVALID_XTOL',
    'INVALID_MAXLINESEARCH', 'INVALID_ORTHANTWISE', 'INVALID_ORTHANTWISE_START', 'INVALID_ORTHANTWISE_END', 'OUTOFINTERVAL',
    'INCORRECT_TMINMAX', 'ROUNDING_ERROR', 'MINIMUMSTEP', 'MAXIMUMSTEP', 'MAXIMUMLINESEARCH', 'MAXIMUMITERATION', 'WIDTHTOOSMALL',
    'INVALIDPARAMETERS', 'INCREASEGRADIENT')]


def outcome(kind):
    @contract('P18', funcs=FUNCS, name='outcome_' + kind, n=120, budget=200)
    def run(t):
        """what each status of the library turns into"""
        name = t.choice('status', STATUSES)
        code = getattr(t.mod(LIB), 'LBFGS' + ('' if name.startswith('ERR') else '_') + name)
        x0, shape, size, _ = start(t, kind)
        entry = point(t, x0, kind, shape)
        keep = x0 if kind in ('number',) else list(x0) if kind == 'list' else x0.copy()
        end = t.array('end', shape)

        def script(lib, n, x, *a):
            t.ensure_eq('number of variables', n, size)
            if kind == 'matrix':
                flat = x0.reshape(size)
                t.ensure_array('the library starts at the start', x, (size,), lambda i: flat[i])
            else:
                t.ensure_array('the library starts at the start', x.reshape(shape), shape, lambda *i: entry(*i))
            x[:] = end.reshape(size) if kind == 'matrix' else end
        fmin, lib, w, low = setup(t, script, code)
        error = None
        try:
            out = fmin(objective, x0)
        except low.AllZeroLBFGSError:
            error = 'zero'
        except low.LBFGSError as e:
            error, args = 'failed', e.args
        except MemoryError:
            error = 'memory'
        t.ensure('one run', lib.calls == 1)
        t.ensure('the buffer is given back once, after the run', len(lib.freed) == 1 and lib.freed_before == 0)
        t.ensure('the buffer given back is the one that was made', len(lib.made) == 1 and lib.freed[0] is lib.made[0])
        if kind in ('vector', 'matrix', 'integers'):
            t.ensure_array('the start is not modified', x0, shape, lambda *i: keep[i])
        elif kind == 'list':
            t.ensure('the start is not modified', len(x0) == 2 and x0[0] is keep[0] and x0[1] is keep[1])
        warned = name in ('ERR_ROUNDING_ERROR', 'ERR_MAXIMUMLINESEARCH', 'ERR_MAXIMUMITERATION')
        t.ensure('warned exactly when a limit was hit', len(w.told) == (1 if warned else 0))
        if warned:
            t.ensure('the warning says which', w.told[0] == low._ERROR_MESSAGES[code])
        if warned or name in ('SUCCESS', 'STOP', 'ALREADY_MINIMIZED'):
            t.ensure('a point is returned', error is None)
            t.ensure_array('the final point', out, shape, lambda *i: end[i])
            lib.made[0][:] = 0
            t.ensure_array('a copy of the buffer', out, shape, lambda *i: end[i])
        elif name == 'ALLZERO':
            t.ensure('the all-zero exception', error == 'zero')
        elif name == 'ERR_OUTOFMEMORY':
            t.ensure('out of memory', error == 'memory')
        else:
            t.ensure('the documented exception', error == 'failed')
            t.ensure('with the message of the status', len(args) == 1 and args[0] == low._ERROR_MESSAGES[code])
    return run


for kind in KINDS:
    outcome(kind)


@contract('P18', funcs=FUNCS, proof=False, n=200,
          bounded='random runs of the built extension: every kind of start, limits, stops, all-zero ends and progress answers')
def whole_runs(t):
    import warnings
    np = t.np
    pkg, low = t.mod(PKG), t.mod('pyuoi.lbfgs._lowlevel')
    kind = t.choice('kind', KINDS + ['columns', 'single'])
    shape = {'vector': (4,), 'matrix': (2, 3), 'integers': (4,), 'list': (2,), 'number': (1,), 'columns': (3, 2), 'single': (4,)}[kind]
    size = int(np.prod(shape))
    v = np.array(t.array('start', (size,), lo=-3, hi=3))
    x0 = {'integers': lambda: v.astype(int), 'list': lambda: [float(v[0]), float(v[1])], 'number': lambda: float(v[0]),
          'columns': lambda: np.asfortranarray(v.reshape(shape)), 'single': lambda: v.astype(np.float32)}.get(kind, lambda: v.reshape(shape))()
    begin = np.array(x0, dtype=float).reshape(shape)
    kept = np.copy(x0)
    z = np.array(t.array('z', (size,), lo=-3, hi=3)).reshape(shape)
    w = 1. + 10 * np.arange(size).reshape(shape)
    end = t.choice('end', ['converges', 'limit', 'progress', 'go on', 'zero', 'delta'])
    points, told, facts, a, b = [], [], [], object(), object()   # an exception in a callback is lost: facts are judged afterwards

    def f(p, g, *args):
        facts.append(('arguments of the objective', len(args) == 2 and args[0] is a and args[1] is b))
        facts.append(('shape of the point', p.shape == shape and g.shape == shape))
        points.append(p.copy())
        g[...] = w * (p - z)
        return float((w * (p - z) ** 2).sum() / 2)

    def progress(p, g, fx, xn, gn, step, k, ls, *args):
        facts.append(('arguments of the progress callback', len(args) == 2 and args[0] is a and args[1] is b))
        facts.append(('progress sees the current point', bool(np.allclose(g, w * (p - z)) and (end == 'zero' or np.isclose(fx, (w * (p - z) ** 2).sum() / 2)))))
        told.append(p.copy())
        return 7 if end == 'progress' else None if len(told) % 2 else 0
    opts = {'limit': dict(max_iterations=1, epsilon=1e-12), 'delta': dict(past=1, delta=.9, epsilon=1e-14),
            'zero': dict(orthantwise_c=1e6)}.get(end, {})
    x, error = None, None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            x = pkg.fmin_lbfgs(f, x0, progress, (a, b), **opts)
        except low.AllZeroLBFGSError:
            error = 'zero'
        except low.LBFGSError as e:
            error = str(e)
    caught = [c for c in caught if str(c.message) in low._ERROR_MESSAGES.values()]
    for what, holds in facts:
        t.ensure(what, holds)
    t.ensure('the start is not modified', bool(np.array_equal(kept, np.asarray(x0))))
    t.ensure('it begins at the start', bool(np.allclose(points[0], begin)))
    if end == 'zero':
        t.ensure('all-zero or a converged zero', error == 'zero' or (error is None and not np.any(x)))
        return
    if end == 'progress':
        t.ensure('a stop asked for by the progress callback', error is None and not told or error == low._ERROR_MESSAGES[low_status(t, 'LBFGSERR_CANCELED')])
        return
    t.ensure('a point', error is None)
    t.ensure('its shape', x.shape == shape)
    t.ensure('the last point', not told or bool(np.array_equal(x, told[-1])))
    if end == 'limit':
        t.ensure('a warning at the limit', len(told) < 1 or len(caught) == 1 or bool(np.allclose(x, z)))
    else:
        t.ensure('no warning', not caught)
    if end in ('converges', 'go on'):
        t.ensure('a minimum', bool(np.allclose(x, z, atol=1e-3)))


def low_status(t, name):
    return getattr(t.mod(LIB), name)
