"""Assumed contracts of third-party libraries (scipy, scikit-learn, mpi4py,
h5py, pycasso, numpy.random) as seen by the verified code."""
import numbers as _numbers
import types
from . import terms as T
from .terms import P, ZERO, ONE
from . import prove as PR
from . import sym as S
from .sym import SA, Sc, sc, to_sa, Unsupported, ctx, dimp, dimv, SymSeq
from . import rt as RT
from .npshim import np, _NS, Missing
from . import npshim as NPS


class NotFittedError(ValueError, AttributeError):
    pass


class ConvergenceWarning(UserWarning):
    pass


class BaseEstimator:
    _pv_contract = True

    @classmethod
    def _get_param_names(cls):
        import inspect
        init = cls.__init__
        if init is object.__init__:
            return []
        sig = inspect.signature(init)
        return sorted(p.name for p in sig.parameters.values() if p.name != 'self' and p.kind != p.VAR_KEYWORD)

    def get_params(self, deep=True):
        return {k: getattr(self, k) for k in self._get_param_names()}

    def set_params(self, **params):
        if not params:
            return self
        valid = self._get_param_names()
        for k, v in params.items():
            if k not in valid:
                raise ValueError("Invalid parameter %r for estimator" % k)
            setattr(self, k, v)
        return self


class SparseCoefMixin:
    pass


class TransformerMixin:
    pass


class _Num(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sc):
            return x.kind in cls._k
        return isinstance(x, cls._real)


def numshim():
    ns = types.SimpleNamespace()
    for n, k in (('Number', 'bif'), ('Real', 'bif'), ('Integral', 'bi'), ('Rational', 'bi'), ('Complex', 'bif')):
        setattr(ns, n, _Num(n, (), {'_k': k, '_real': getattr(_numbers, n)}))
    return ns


class RNG:
    """one numpy RandomState: a stream id and a draw counter; draws are opaque
    functions of (stream, counter, arguments)"""

    def __init__(self, stream, counter=ZERO):
        self.stream = stream
        self.count = Sc(counter, 'i')

    def _next(self):
        c = self.count
        self.count = Sc(c.p + ONE, 'i')
        return c.p

    def _arr(self, head, size, args=(), kind='f'):
        c = self._next()
        sort = 'r' if kind == 'f' else 'i'
        a = tuple(args)
        if size is None:
            return Sc(T.App(head, (self.stream, c) + a, sort), kind)
        shp = NPS.shape_of(size)
        return SA.make(shp, lambda idx: T.App(head, (self.stream, c) + a + tuple(idx), sort), kind)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._arr('rng_normal', size)
        return S.binop('add', S.binop('mul', z, scale), loc)

    def standard_normal(self, size=None):
        return self._arr('rng_normal', size)

    def randn(self, *shape):
        return self._arr('rng_normal', shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if isinstance(low, SA) and size is None:
            size = low.shape
        u = self._arr('rng_uniform', size)
        return S.binop('add', S.binop('mul', u, S.binop('sub', high, low)), low)

    def gamma(self, shape, scale=1.0, size=None):
        return S.binop('mul', self._arr('rng_gamma', size, (sc(shape).p,)), scale)

    def rand(self, *shape):
        return self._arr('rng_uniform', shape if shape else None)

    def random_sample(self, size=None):
        return self._arr('rng_uniform', size)

    def permutation(self, n):
        if isinstance(n, SA):
            idx = self._perm(n._shape[0])
            return n[idx]
        return self._perm(sc(n).p)

    def _perm(self, n):
        c = self._next()
        st = self.stream
        return SA.make((dimv(n),), lambda idx: T.rebuild_app('rng_perm', (st, c, n, idx[0]), 'i'), 'i')

    def shuffle(self, a):
        if not isinstance(a, SA):
            raise Unsupported("shuffle")
        b = a.copy()
        idx = self._perm(a._shape[0])
        a.assign(b[idx])

    def choice(self, a, size=None, replace=True, p=None):
        c = self._next()
        n = sc(a).p if not isinstance(a, SA) else a._shape[0]
        st = self.stream
        pl = () if p is None else (S.lam_of(to_sa(p)),)
        shp = NPS.shape_of(size) if size is not None else ()
        head = 'rng_choice' + ('' if replace else '_norepl') + ('_p' if pl else '')
        r = SA.make(shp, lambda idx: T.App(head, (st, c, n) + pl + tuple(idx), 'i'), 'i')
        if isinstance(a, SA):
            return a[r]
        return r if shp else r.item()

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        return self._arr('rng_int', size, (sc(low).p, sc(high).p), 'i')

    def poisson(self, lam=1.0, size=None):
        lam = NPS.lift(lam)
        c = self._next()
        st = self.stream
        if isinstance(lam, SA) and size is None:
            return SA.make(lam.shape, lambda idx: T.App('rng_poisson', (st, c, lam.at(idx)) + tuple(idx), 'i'), 'i')
        if size is None:
            return Sc(T.App('rng_poisson', (st, c, sc(lam).p), 'i'), 'i')
        shp = NPS.shape_of(size)
        lam = S.broadcast_to(to_sa(lam), [dimp(d) for d in shp])
        return SA.make(shp, lambda idx: T.App('rng_poisson', (st, c, lam.at(idx)) + tuple(idx), 'i'), 'i')

    def binomial(self, n, p, size=None):
        c = self._next()
        st = self.stream
        p = NPS.lift(p)
        if isinstance(p, SA) and size is None:
            return SA.make(p.shape, lambda idx: T.App('rng_binomial', (st, c, sc(n).p, p.at(idx)) + tuple(idx), 'i'), 'i')
        return self._arr('rng_binomial', size, (sc(n).p, sc(p).p), 'i')

    def multinomial(self, n, p, size=None):
        c = self._next()
        st = self.stream
        p = to_sa(p)
        l = S.lam_of(p)
        if size is None:
            return SA.make(p.shape, lambda idx: T.App('rng_multinomial', (st, c, sc(n).p, l) + tuple(idx), 'i'), 'i')
        shp = tuple(NPS.shape_of(size)) + p.shape
        return SA.make(shp, lambda idx: T.App('rng_multinomial', (st, c, sc(n).p, l) + tuple(idx), 'i'), 'i')

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported("RandomState.%s" % n)


def _rng_uniform_facts(atom):
    p = P(atom)
    return [T.ge(p, ZERO), T.lt(p, ONE)]


PR.APPFACTS['rng_uniform'] = _rng_uniform_facts


def _rng_int_facts(atom):
    p, lo, hi = P(atom), atom.args[3], atom.args[4]
    return [T.lor(T.le(hi, lo), T.ge(p, lo) * T.lt(p, hi))]


PR.APPFACTS['rng_int'] = _rng_int_facts


def _perm_facts(atom):
    p = P(atom)
    return [T.ge(p, ZERO), T.lt(p, atom.args[3])]


def _bij_facts(atom):
    p, n, i = P(atom), atom.args[3], atom.args[4]
    return [T.lor(T.lnot(T.ge(i, ZERO) * T.lt(i, n)), T.ge(p, ZERO) * T.lt(p, n))]


PR.APPFACTS['rng_perm'] = PR.APPFACTS['rng_perminv'] = _bij_facts
for _h in T.PERMS:
    T.REWRITE[_h] = lambda args, sort, _h=_h: T._perm_rw(args, sort, _h)
PR.APPFACTS['rng_choice'] = PR.APPFACTS['rng_choice_norepl'] = PR.APPFACTS['rng_choice_p'] = _perm_facts


def make_shims(session, rt):
    sh = {}

    def ns(name, **kw):
        n = sh.get(name)
        if n is None:
            n = _NS(name)
            sh[name] = n
            if '.' in name:
                par, _, last = name.rpartition('.')
                ns(par).__dict__[last] = n
        for k, v in kw.items():
            n.__dict__[k] = v
        return n

    sh['numpy'] = np
    sh['numpy.random'] = np.random
    sh['numpy.linalg'] = np.linalg
    sh['numbers'] = numshim()
    ghost = session

    # --- random numbers
    class GlobalRNG(RNG):
        """the generator of numpy.random: what it draws depends on everything that ran before"""

        def _next(self):
            ghost_event(session, 'draw from the global generator')
            session.entropy = getattr(session, 'entropy', 0) + 1
            return T.App('unknown_state', (P(session.entropy),), 'i')

        def seed(self, seed=None):
            ghost_event(session, 'seeds the global generator')
    session.global_rng = GlobalRNG(T.App('global_rng', (), 'i'))

    class _RandomState(object):
        __name__ = 'RandomState'

        def __call__(self, seed=None):
            if seed is None:
                session.entropy = getattr(session, 'entropy', 0) + 1
                return RNG(T.App('entropy', (P(session.entropy),), 'i'))
            return RNG(T.App('seed', (sc(seed).p,), 'i'))

        def _pv_check(self, x):
            return isinstance(x, RNG)
    RandomState = _RandomState()

    def check_random_state(seed):
        if seed is None or seed is np.random:
            return session.global_rng
        if isinstance(seed, RNG):
            return seed
        if isinstance(seed, Sc) and seed.kind == 'i' or isinstance(seed, int):
            return RandomState(seed)
        raise ValueError("%r cannot be used to seed" % (seed,))
    np.random.__dict__['RandomState'] = RandomState
    for f in ('normal', 'uniform', 'rand', 'randn', 'permutation', 'choice', 'randint', 'poisson', 'shuffle',
              'binomial', 'multinomial', 'seed', 'gamma', 'random_sample', 'standard_normal'):
        np.random.__dict__[f] = getattr(session.global_rng, f)

    # --- scipy
    ns('scipy')
    ns('scipy.special', expit=lambda x: S.unop('expit', NPS.lift(x)), logsumexp=logsumexp)
    ns('scipy.optimize')
    ns('scipy.sparse', issparse=lambda x: False, csr_matrix=Missing('csr_matrix'))
    ns('scipy.linalg')

    # --- sklearn
    ns('sklearn')
    ns('sklearn.base', BaseEstimator=BaseEstimator, TransformerMixin=TransformerMixin)
    ns('sklearn.exceptions', NotFittedError=NotFittedError, ConvergenceWarning=ConvergenceWarning)
    from . import skl
    skl.install(ns, session, check_random_state)
    from . import mpi
    mpi.install(ns, session)
    ns('h5py')
    ns('pycasso', Solver=Missing('pycasso.Solver'))
    class LBFGSError(Exception):
        pass

    class AllZeroLBFGSError(LBFGSError):
        pass
    low = _NS('pyuoi.lbfgs._lowlevel')
    low.__dict__.update(LBFGS=Missing('LBFGS'), AllZeroLBFGSError=AllZeroLBFGSError, LBFGSError=LBFGSError)
    sh['pyuoi.lbfgs._lowlevel'] = low
    ns('pkg_resources', resource_filename=Missing('resource_filename'))
    return sh


def ghost_event(session, what):
    if RT.CTX[-1] is not None:
        ev = session.__dict__.setdefault('events', [])
        ev.append(what)


def logsumexp(a, axis=None, keepdims=False, b=None, return_sign=False):
    if b is not None or return_sign:
        raise Unsupported("logsumexp options")
    return NPS.np.log(NPS.np_sum(NPS.np.exp(a), axis=axis, keepdims=keepdims))


def install(ld, session):
    pass
