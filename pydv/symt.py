"""Symbolic execution of contracts: proof obligations."""
import os
import time
import random
import traceback
from . import terms as T
from .terms import P, ZERO, ONE
from . import prove as PR
from . import sym as S
from .sym import SA, Sc, sc, Unsupported, PathAbort, Ctx, CTX, Explorer, ctx, dimp, dimv
from . import rt as RT
from . import npshim as NPS
from . import evalt
from .loader import Loader


class Session:
    def __init__(self, prop, deadline):
        self.prop = prop
        self.deadline = deadline
        self.results = []        # dicts
        self.contract = None
        self.solver_time = 0.0
        self.rng = random.Random(12345)
        self.ghost_fail = []
        self.assumed = set()
        self.loaders = []

    def executed(self):
        return sorted({m for l in self.loaders for m in l.mods})

    def new_loader(self):
        from . import ext
        rt = RT.Runtime()
        rt.session = self
        shims = ext.make_shims(self, rt)
        self.rt = rt
        ld = Loader(shims, RT.BUILTINS, rt)
        from . import cfront
        ld.translate = {m: (lambda f=f: f(os.path.dirname(ld.root))) for m, f in cfront.TEXTS.items()}
        self.loaders.append(ld)
        ext.install(ld, self)
        return ld

    # -- obligations
    def record(self, label, status, kind, dt, detail=None):
        self.solver_time += dt
        self.results.append(dict(contract=self.contract.name, label=label, status=status, kind=kind,
                                 time=round(dt, 3), detail=detail))

    def obligation_eq(self, label, a, b, hyps, kind='eq'):
        if CTX[-1] is not None and CTX[-1].quiet:
            return
        t0 = time.time()
        d = a - b
        if d is ZERO:
            self.record(label, 'proved', kind, 0.0)
            return
        self._decide(label, d, hyps, kind, t0)

    def obligation_true(self, label, c, hyps, kind='true'):
        if CTX[-1] is not None and CTX[-1].quiet:
            return
        t0 = time.time()
        if c is ONE:
            self.record(label, 'proved', kind, 0.0)
            return
        lim = min(self.deadline, t0 + self.oblig_time)
        try:
            ok = PR.Prover(hyps + PR.pair_facts(c), deadline=lim).true(c)
        except T.TermError as e:
            ok = False
        if ok:
            self.record(label, 'proved', kind, time.time() - t0)
            return
        self.refute(label, ONE - c, hyps, kind, t0)

    oblig_time = 20.0

    def _decide(self, label, d, hyps, kind, t0):
        lim = min(self.deadline, t0 + self.oblig_time)
        try:
            hy = hyps + PR.pair_facts(d)
            ok = PR.Prover(hy, deadline=lim).zero(d, PR.flatten_hyps(hy), 0)
        except T.TermError as e:
            ok = False
        if ok:
            self.record(label, 'proved', kind, time.time() - t0)
            return
        if kind == 'inv':
            # the inferred invariant is not inductive: nothing after the loop means anything
            if os.environ.get('PV_INV'):
                print('INV', label, d, 'HYPS', [str(h) for h in hyps])
            raise Unsupported('%s: not established' % label)
        self.refute(label, d, hyps, kind, t0)

    def refute(self, label, d, hyps, kind, t0, tries=400):
        """search an interpretation satisfying hyps with d != 0"""
        w = find_model(hyps, d, self.rng, min(time.time() + 3.0, self.deadline + 2))
        st = 'refuted' if w is not None else 'unknown'
        if w is None and self.debug:
            print("UNKNOWN", label, T.show(d)[:S_HY*8], "\n  HYPS", [T.show(h)[:S_HY] for h in hyps][:20])
        self.record(label, st, kind, time.time() - t0, detail=dict(model=w, residue=T.show(d)[:400]))

    debug = False


import os as _os
S_HY = int(_os.environ.get("S_HY", "200"))
UNINTERP_OK = ('nzpos', 'nzrank', 'max', 'min', 'argmax', 'argmin', 'median', 'argmaxof', 'medianof')


def find_model(hyps, d, rng, lim):
    """random interpretation; every uninterpreted symbol that stands for a
    library function is given its real meaning or the search is skipped"""
    n = 0
    pool = [s * f * c for c in evalt.constants(list(hyps) + ([d] if d is not None else [])) for s in (1, -1) for f in (0.5, 1., 2.)]
    while time.time() < lim and n < 600:
        n += 1
        env = evalt.Env(rng, funcs=EVALFUNCS, pool=pool if n % 2 else ())
        try:
            ok = True
            for h in hyps:
                if not evalt.ev(h, env):
                    ok = False
                    break
            if not ok:
                continue
            v = evalt.ev(d, env) if d is not None else 1
            if abs(v) > 1e-6 and not any(k[0].startswith(('loop_', 'hv')) for k in env.table):
                return dump_env(env)
        except (evalt.EvalError, OverflowError, ValueError, KeyError, RecursionError):
            continue
    return None


def dump_env(env):
    out = {'vars': {}, 'funcs': {}}
    for k, v in env.vars.items():
        if '$' not in k:
            out['vars'][k] = v
    for k, v in env.table.items():
        if all(isinstance(x, (int, float)) for x in k[1:]):
            out['funcs'].setdefault(k[0], []).append([list(k[1:]), v])
    return out


def _ev_nzpos(l, k):
    d = l['dims'][0]
    pos = [i for i in range(d) if l[(i,)]]
    k = int(k)
    if not 0 <= k < len(pos):
        raise evalt.EvalError("nzpos")
    return pos[k]


def _ev_nzrank(l, x):
    return sum(1 for i in range(l['dims'][0]) if i < x and l[(i,)])


def _lamvals(l):
    return [v for k, v in sorted((k, v) for k, v in l.items() if k != 'dims')]


def _ev_ext(f):
    def g(l):
        v = _lamvals(l)
        if not v:
            raise evalt.EvalError("empty")
        return f(v)
    return g


def _ev_med(l):
    v = sorted(_lamvals(l))
    n = len(v)
    if not n:
        raise evalt.EvalError("empty")
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def _ev_argsort(l, k):
    v = _lamvals(l)
    k = int(k)
    if not 0 <= k < len(v):
        raise evalt.EvalError("argsort")
    return sorted(range(len(v)), key=lambda i: v[i])[k]


def _urows(l):
    n, m = l['dims']
    return sorted({tuple(l[(i, j)] for j in range(m)) for i in range(n)})


def _ev_nuniq(l):
    return len(set(_lamvals(l))) if len(l['dims']) == 1 else len(_urows(l))


def _ev_uniq(l, k):
    v = sorted(set(_lamvals(l)))
    if not 0 <= int(k) < len(v):
        raise evalt.EvalError("uniq")
    return v[int(k)]


def _ev_uniqrow(l, k, j):
    v = _urows(l)
    if not 0 <= int(k) < len(v) or not 0 <= int(j) < len(v[0]):
        raise evalt.EvalError("uniq")
    return v[int(k)][int(j)]


class RowRep:
    """rewrites uniqrow(l0, k, x) to l0(k, x)"""

    def __init__(self, k):
        self.k, self.lam, self.ok = k, None, True

    def get(self, a):
        if a.head == 'ind' and a.args[0] == 'b':
            a = a.args[1].single_atom()
            if a is None:
                return None
        if a.head == 'app' and a.args[0] == 'uniqrow' and a.args[2] is self.k:
            if self.lam is None:
                self.lam = a.args[1]
            if a.args[1] is self.lam:
                return T.open_lam(self.lam, [self.k, a.args[3]])
        return None


EVALFUNCS = {'+ln10': lambda: 2.302585092994046, '+nuniq': _ev_nuniq, 'uniq': _ev_uniq, 'uniqrow': _ev_uniqrow, 'nzpos': _ev_nzpos, 'nzrank': _ev_nzrank, 'max': _ev_ext(max), 'min': _ev_ext(min),
             'argmaxof': lambda *v: v.index(max(v)), 'argmax': _ev_ext(lambda v: v.index(max(v))), 'argmin': _ev_ext(lambda v: v.index(min(v))),
             'median': _ev_med, 'medianof': lambda *v: _ev_med({(i,): x for i, x in enumerate(v)}), 'argsort': _ev_argsort,
             'sort': lambda l, k: sorted(_lamvals(l))[int(k)] if 0 <= int(k) < len(_lamvals(l)) else 0}


def print_tb():
    traceback.print_exc(limit=-9)


class ContractFail(Exception):
    pass


MISSING = object()


from .con import Opaque


class SymT:
    symbolic = True

    def __init__(self, session, loader):
        self.s = session
        self.ld = loader
        self.np = NPS.np
        self.ghost = session
        self.undo = []

    # -- inputs
    def dim(self, name, lo=1, hi=None):
        v = T.Var(name, 'i', P(lo), None)
        return Sc(P(v), 'i')

    def integer(self, name, lo=None, hi=None, py=True):
        v = T.Var(name, 'i', P(lo) if lo is not None else None, P(hi) + ONE if hi is not None and not isinstance(hi, Sc) else (hi.p + ONE if hi is not None else None))
        return (Sc if py else RT.NpSc)(P(v), 'i')

    def real(self, name, lo=None, hi=None, gen=None):
        v = T.Var(name, 'r', P(lo) if lo is not None else None, None)
        if hi is not None:
            evalt.VRANGES[name] = sc(hi).p
            ctx().assume(T.le(P(v), sc(hi).p))
        return Sc(P(v), 'f')

    def positive(self, name, gen=None):
        T.POSVARS.add(name)
        v = T.Var(name, 'r', None, None)
        return Sc(P(v), 'f')

    def generalise(self, name, value):
        """prove the rest for any positive number in place of this positive value (a concrete run uses the value)"""
        return self.positive(name)

    def boolean(self, name):
        return self.choice(name, [False, True])

    def narrow(self, kind):
        return None

    def is_integer(self, x):
        return RT.isnum(x) and S.sc(x).kind == 'i'

    def choice(self, name, options):
        options = list(options)
        v = T.Var('choice:' + name, 'i', ZERO, P(len(options)))
        for j in range(len(options) - 1):
            if ctx().branch(T.eq(P(v), P(j))):
                return options[j]
        return options[-1]

    def array(self, name, shape, kind='f', lo=None, hi=None, gen=None, positive=False):
        if positive:
            T.POSVARS.add(name)
        a = SA.inp(name, shape, kind)
        self.facts(name, a, lo, hi)
        return a

    def permutation(self, name, n):
        """an arbitrary permutation of 0..n-1"""
        d, st = dimp(n), T.App('permutation:' + name, (), 'i')
        return SA.make((dimv(d),), lambda i: T.rebuild_app('rng_perm', (P(st) if not isinstance(st, T.Poly) else st, ZERO, d, i[0]), 'i'), 'i')

    def labels(self, name, n, k, user=False):
        """class labels in which each of k classes occurs: codes 0..k-1, or
        (labels, codes, classes) for strictly increasing user labels"""
        y = self.array(name, (n,), 'i', 0, k - 1)
        for c in range(k):
            self.requires(self.any(n, lambda i: Sc(T.eq(y.at((sc(i).p,)), P(c)), 'b')))
        l = S.lam_of(y)
        NPS.LABELS[l.dims, l.body] = ([P(c) for c in range(k)], y)
        if not user:
            return y.copy()
        L = self.array(name + '$classes', (k,))
        cl = [L.at((P(c),)) for c in range(k)]
        for a, b in zip(cl, cl[1:]):
            self.requires(Sc(T.lt(a, b), 'b'))
        u = SA.make((n,), lambda i: NPS.pick(cl, y.at(i)), 'f')
        l = S.lam_of(u)
        NPS.LABELS[l.dims, l.body] = (cl, y)
        return u, y.copy(), L

    def seq(self, name, n, kind='f', lo=None, hi=None, gen=None):
        """a Python list of scalars"""
        a = self.array(name, (n,), kind, lo, hi)
        l = RT.PList()
        if dimp(n).const() is not None:
            for i in range(int(dimp(n).const())):
                l.append(Sc(a.at((P(i),)), kind))
            return l
        return l.extend_sym(S.SymSeq(dimp(n), lambda k: Sc(a.at((k,)), kind)))

    def opaque(self, name):
        return Opaque(name)

    def select(self, items, i):
        return Sc(NPS.pick([sc(x).p for x in items], sc(i).p), 'f')

    def seqof(self, n, f):
        """the list f(0), ..., f(n - 1)"""
        l = RT.PList()
        if dimp(n).const() is not None:
            for i in range(int(dimp(n).const())):
                l.append(f(i))
            return l
        return l.extend_sym(S.SymSeq(dimp(n), lambda k: f(Sc(k, 'i'))))

    def facts(self, name, a, lo, hi):
        """range facts of an array input, instantiated for every occurring atom"""
        if lo is None and hi is None:
            return
        lo_, hi_ = (None if lo is None else sc(lo).p), (None if hi is None else sc(hi).p)

        def f(atom):
            out = []
            p = P(atom)
            if lo_ is not None:
                out.append(T.ge(p, lo_))
            if hi_ is not None:
                out.append(T.le(p, hi_))
            return out
        PR.APPFACTS[name] = f
        evalt.RANGES[name] = (lo_, hi_)

    def uf(self, name, *args):
        """uninterpreted real function of scalars"""
        return Sc(T.App(name, tuple(sc(a).p for a in args), 'r'), 'f')

    def mod(self, name):
        return self.ld.load(name)

    def stub(self, lib, attr, fn, users=()):
        """replaces a library function by a recording stand-in for this run"""
        o = self.ld.load(lib) if lib.startswith('pyuoi') else self.ld.imp(lib, fromlist=('x',))
        d = o.__dict__
        for u in users:
            self.ld.load(u)
        orig = getattr(o, attr, None)
        self.undo.append((d, attr, d.get(attr, MISSING) if orig is None else orig))
        d[attr] = fn
        for u in users:
            md = self.ld.load(u).__dict__
            for k, v in list(md.items()):
                if v is orig and orig is not None or k == attr:
                    self.undo.append((md, k, v))
                    md[k] = fn

    def keep_stub(self, *a, **k):
        """a stand-in that stays until the end of the contract"""
        before, self.undo = self.undo, []
        self.stub(*a, **k)
        self.kept = self.undo + getattr(self, 'kept', [])
        self.undo = before

    def cleanup(self):
        self.unstub()
        self.undo, self.kept = getattr(self, 'kept', []), []
        self.unstub()

    def unstub(self):
        for d, k, v in reversed(self.undo):
            if v is MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        self.undo = []

    def preset(self, name, f):
        return None

    # -- logic
    def at(self, a, *idx):
        if isinstance(a, SA):
            return Sc(a.at(tuple(sc(i).p for i in idx)), a.kind)
        r = a
        for i in idx:
            r = r[i]
        return r

    def len(self, a):
        return RT.BUILTINS['len'](a)

    def shape(self, a):
        return a.shape

    def ndim(self, a):
        return 0 if RT.isnum(a) else len(a.shape)

    def _bind(self, n, f, vals=None):
        ns = n if isinstance(n, tuple) else (n,)
        vs = [T.fresh_index(dimp(d)) for d in ns]
        ext = []
        for v, d in zip(vs, ns):
            ext += [T.ge(P(v), ZERO), T.lt(P(v), dimp(d))]
        n0 = dimp(ns[0])
        r = RT.generic(lambda: f(*[Sc(P(v), 'i') for v in vs]), ext)
        return vs, [dimp(d) for d in ns], r

    def sum(self, n, f):
        vs, ds, r = self._bind(n, f)
        r = sc(r)
        return Sc(T.tsum(vs, ds, r.p), r.kind if r.kind != 'b' else 'i')

    def any(self, n, f):
        vs, ds, r = self._bind(n, f)
        return Sc(T.tany(vs, ds, S.boolpoly(r)), 'b')

    def all(self, n, f):
        vs, ds, r = self._bind(n, f)
        return Sc(T.tall(vs, ds, S.boolpoly(r)), 'b')

    def table(self, shape, f, kind='f'):
        if not isinstance(shape, tuple):
            shape = (shape,)

        def g(idx):
            return sc(f(*[Sc(i, 'i') for i in idx])).p
        return SA.make(shape, g, kind)

    def ite(self, c, a, b):
        return RT.merge_val([(S.boolpoly(c), a), (T.lnot(S.boolpoly(c)), b)])

    def and_(self, *cs):
        return Sc(T.land(*[S.boolpoly(c) for c in cs]), 'b')

    def or_(self, *cs):
        return Sc(T.lor(*[S.boolpoly(c) for c in cs]), 'b')

    def not_(self, c):
        return Sc(T.lnot(S.boolpoly(c)), 'b')

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def exp(self, x):
        return S.unop('exp', x)

    def log(self, x):
        return S.unop('log', x)

    def sqrt(self, x):
        return S.unop('sqrt', x)

    def abs(self, x):
        return S.unop('abs', x)

    def sign(self, x):
        return S.unop('sign', x)

    def floor(self, x):
        return S.unop('floor', x)

    def maximum(self, a, b):
        return S.binop('max', a, b)

    def minimum(self, a, b):
        return S.binop('min', a, b)

    def median(self, n, f):
        a = self.table((n,), f)
        return NPS.np_median(a)

    def max_over(self, n, f):
        return NPS.np_max(self.table(n, f))

    def min_over(self, n, f):
        return NPS.np_min(self.table(n, f))

    def diff(self, expr, a, *idx):
        """derivative of a scalar expression by input array entry"""
        name = a if isinstance(a, str) else a.buf.tag
        return Sc(T.diff(sc(expr).p, name, tuple(sc(i).p for i in idx)), 'f')

    def dvalue(self, f, a, *idx):
        """derivative of f(a), a scalar function of an input array, by one entry"""
        return self.diff(f(a.copy()), a, *idx)

    def whole(self, v):
        """a number used as a position"""
        return v

    def each(self, n, f):
        """f holds for every index: executed once for a generic one"""
        ns = n if isinstance(n, tuple) else (n,)
        for d in ns:
            if not ctx().branch(T.ge(dimp(d), ONE)):
                return
        vs = [T.fresh_index(dimp(d)) for d in ns]
        f(*[Sc(P(v), 'i') for v in vs])

    def requires(self, c):
        c = S.boolpoly(c)
        if c is ONE:
            return
        ctx().assume(c)
        if not PR.feasible(ctx().hyps()):
            raise PathAbort()

    def assume_fact(self, c, why=None):
        if why:
            self.s.assumed.add(why)
        self.requires(c)

    # -- the caller's arrays
    def layout(self, name, a):
        """the array in some memory layout (the model has one; its views alias whenever NumPy's can)"""
        return a

    def ensure_no_alias(self, label, owner, a):
        for k in sorted(vars(owner)):
            v = vars(owner)[k]
            if k[0] != '_' and isinstance(v, SA):
                self.s.record(label, 'refuted' if v.buf is a.buf else 'proved', 'alias', 0.0)

    # -- randomness
    def random_state(self, seed):
        return self.np.random.RandomState(seed)

    def watch_global(self):
        """obligation-maker: the global generator was neither drawn from nor seeded since this call"""
        self.s.events = []
        return lambda label: self.s.record(label, 'refuted' if self.s.events else 'proved', 'events', 0.0)

    def ensure_advanced(self, label, xs):
        """the uniform numbers were drawn at pairwise different positions of one stream"""
        at = [S.sc(x).p.single_atom() for x in xs]
        if any(a is None or a.head != 'app' or a.args[0] != 'rng_uniform' for a in at):
            raise Unsupported('not a uniform draw')
        for i in range(len(at)):
            for j in range(i):
                a, b = at[i].args[1:], at[j].args[1:]
                same = a[0] is b[0] or a[0] == b[0]
                self.ensure(label, Sc(T.lnot(T.eq(a[1], b[1])) if same else P(0), 'b'))

    # -- obligations
    def ensure(self, label, c):
        self.s.obligation_true(label, S.boolpoly(c), ctx().hyps())

    def ensure_eq(self, label, a, b, tol=None):
        if isinstance(a, SA) and a.ndim == 0:
            a = a.item()
        if isinstance(a, S.MaybeNone) or isinstance(b, S.MaybeNone):
            return self.ensure(label, S.maybe_op('eq', a, b))
        if not RT.isnum(a) or not RT.isnum(b):
            if isinstance(a, SA):
                self.s.record(label + ': scalar expected, array found', 'refuted', 'shape', 0.0)
                return
            ok = (a == b) if not (S.is_special(a) and S.is_special(b) and a != a and b != b) else True
            self.s.record(label, 'proved' if ok is True or (isinstance(ok, bool) and ok) else 'refuted', 'eq', 0.0)
            return
        self.s.obligation_eq(label, sc(a).p, sc(b).p, ctx().hyps())

    def ensure_shape(self, label, a, shape):
        sh = a.shape
        if len(sh) != len(shape):
            feas = PR.feasible(ctx().hyps())
            self.s.record(label + ': rank %d instead of %d' % (len(sh), len(shape)), 'refuted' if feas else 'proved',
                          'shape', 0.0, dict(model=find_model(ctx().hyps(), None, self.s.rng, time.time() + 2)))
            return False
        for p, q in zip(sh, shape):
            self.s.obligation_eq(label + ': shape', dimp(p), dimp(q), ctx().hyps(), 'shape')
        return True

    def matches(self, n, f, g):
        """f and g provably agree at every index below n: a hint, not an obligation"""
        v = T.fresh_index(dimp(n))
        ext = [x for x in (T.ge(P(v), ZERO), T.lt(P(v), dimp(n))) if x is not ONE]
        d = RT.generic(lambda: sc(f(Sc(P(v), 'i'))) - sc(g(Sc(P(v), 'i'))), ext)
        return sc(d).p is ZERO

    def ensure_array(self, label, a, shape, f, tol=None, kind=None):
        if not isinstance(a, SA):
            if isinstance(a, RT.PList) or isinstance(a, S.SymSeq) or isinstance(a, (list, tuple)):
                a = S.to_sa(a)
            elif isinstance(a, Sc) and len(shape) == 0:
                return self.ensure_eq(label, a, f())
            else:
                self.s.record(label + ': array expected, %s found' % type(a).__name__, 'refuted', 'shape', 0.0)
                return
        if kind is not None and a.kind != kind:
            self.s.record(label + ': dtype', 'refuted', 'shape', 0.0)
        if not self.ensure_shape(label, a, shape):
            return

        vs = [T.fresh_index(dimp(d)) for d in shape]
        ext = []
        for v, d in zip(vs, shape):
            ext += [T.ge(P(v), ZERO), T.lt(P(v), dimp(d))]
        h = ctx().hyps() + [x for x in ext if x is not ONE]
        got = a.at(tuple(P(v) for v in vs))
        want = sc(RT.generic(lambda: f(*[Sc(P(v), 'i') for v in vs]), ext)).p
        self.s.obligation_eq(label, got, want, h)

    def ensure_unique_rows(self, label, a, n, m, f):
        """the rows of a are the distinct ones of the n rows f(i, .) (0/1), by the trusted contract of np.unique"""
        self.s.assumed.add('np.unique(rows, axis=0) returns each distinct row exactly once')
        if not isinstance(a, SA) or len(a.shape) != 2 or a.kind != 'b':
            self.s.record(label + ': 2-d boolean array', 'refuted', 'shape', 0.0,
                          dict(model=find_model(ctx().hyps(), None, self.s.rng, time.time() + 2)))
            return
        self.s.obligation_eq(label + ': one column per feature', dimp(a.shape[1]), dimp(m), ctx().hyps(), 'shape')
        i, j = T.fresh_index(dimp(a.shape[0])), T.fresh_index(dimp(m))
        x = a.at((P(i), P(j)))
        nr = dimp(a.shape[0]).single_atom()
        lam = None
        for y in PR.atoms_of(x):
            if y.head == 'app' and y.args[0] == 'uniqrow':
                lam = y.args[1]
        if lam is None or nr is None or nr.args[0] != '+nuniq' or nr.args[1] is not lam or x is not T.bapp('uniqrow', (lam, P(i), P(j))):
            self.s.record(label + ': result of np.unique', 'unknown', 'eq', 0.0, dict(residue=T.show(x)[:300]))
            return
        k, j = T.fresh_index(dimp(n)), T.fresh_index(dimp(m))
        got = T.open_lam(lam, [P(k), P(j)])
        rows = lam.dims[0]
        for _ in range(3):
            nu = rows.single_atom()
            if nu is None or nu.head != 'app' or nu.args[0] != '+nuniq':
                break
            # a row-wise image of the distinct rows has the same distinct rows
            # as the row-wise image of all of them
            rr = RowRep(P(k))
            got2 = PR.replace_atoms(got, rr)
            if rr.lam is None or rr.lam is not nu.args[1]:
                break
            got, rows = got2, rr.lam.dims[0]
        self.s.obligation_eq(label + ': number of rows compared', rows, dimp(n), ctx().hyps(), 'shape')
        ext = [T.ge(P(k), ZERO), T.lt(P(k), dimp(n)), T.ge(P(j), ZERO), T.lt(P(j), dimp(m))]
        want = S.boolpoly(RT.generic(lambda: f(Sc(P(k), 'i'), Sc(P(j), 'i')), ext))
        self.s.obligation_eq(label + ': rows', got, want, ctx().hyps() + [e for e in ext if e is not ONE])

    def raises(self, exc, fn):
        """runs fn; -> (raised?, result)"""
        if not isinstance(exc, tuple):
            exc = (exc,)
        try:
            return False, fn()
        except Exception as e:
            if isinstance(e, exc) or type(e).__name__ in [x.__name__ for x in exc]:
                return True, e
            raise

    def note(self, **k):
        pass

    def fail(self, label, why=''):
        self.s.record(label, 'refuted', 'fail', 0.0, dict(why=why, model=find_model(ctx().hyps(), None, self.s.rng, time.time() + 2)))


def run_contract(session, c, debug=False):
    """prove one contract; results are appended to the session"""
    session.contract = c
    session.debug = debug
    ld = session.new_loader()
    n0 = len(session.results)
    saved = dict(PR.APPFACTS)
    PR._dm.clear()
    NPS.LABELS.clear()
    T.forget_inputs()
    saved_pos = set(T.POSVARS)
    info = dict(name=c.name, funcs=c.funcs, status='proved')
    t0 = time.time()
    try:
        ex = Explorer(c.maxpaths)

        def body(cx):
            if time.time() > session.deadline:
                raise Unsupported("time budget")
            t = SymT(session, ld)
            session.rt.roots[:] = []
            try:
                try:
                    c.fn(t)
                finally:
                    t.cleanup()
            except (Unsupported, PathAbort):
                raise
            except Exception as e:
                if RT.engine_error(e):
                    raise Unsupported('engine: %s' % type(e).__name__) from e
                if PR.feasible(cx.hyps()):
                    m = find_model(cx.hyps(), None, session.rng, time.time() + 2)
                    if debug:
                        print_tb()
                    session.record('no exception on valid input (%s: %s)' % (type(e).__name__, str(e)[:120]),
                                   'refuted' if m is not None else 'unknown', 'exception', 0.0, dict(model=m))
            return None
        ex.run(body)
        info['paths'] = ex.paths
    except Unsupported as e:
        info['status'] = 'unsupported: %s' % e
        if debug:
            print_tb()
    except RecursionError as e:
        info['status'] = 'unsupported: recursion'
        if debug:
            print_tb()
    except Exception as e:
        info['status'] = 'engine error: %s %s' % (type(e).__name__, e)
        if debug:
            print_tb()
    finally:
        evalt.RANGES.clear()
        evalt.VRANGES.clear()
        PR.APPFACTS.clear()
        PR.APPFACTS.update(saved)
        T.POSVARS.clear()
        T.POSVARS.update(saved_pos)
    rs = session.results[n0:]
    info['obligations'] = len(rs)
    info['proved'] = sum(r['status'] == 'proved' for r in rs)
    info['wall'] = round(time.time() - t0, 2)
    if info['status'] == 'proved':
        if not rs:
            info['status'] = 'no obligations'
        elif any(r['status'] == 'refuted' for r in rs):
            info['status'] = 'refuted'
        elif any(r['status'] != 'proved' for r in rs):
            info['status'] = 'unproved'
    return info
