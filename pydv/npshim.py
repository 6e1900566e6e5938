"""Contracts (assumed) for the numpy functions the code uses, over symbolic
arrays.  `np` below is what the verified modules see as numpy."""
import sys
from fractions import Fraction
from . import terms as T
from .terms import P, ZERO, ONE
from . import prove as PR
from .sym import *
from . import sym as S
from .sym import SA, Sc, sc, to_sa, Unsupported, ctx, dimp, dimv, SymSeq


def guard(f):
    def g(*a, **k):
        try:
            return f(*a, **k)
        except T.TermError as e:
            raise Unsupported(str(e))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


# ------------------------------------------------------------ reductions

def norm_axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % a.ndim for x in axis)
    ax = int(axis)
    if ax >= a.ndim or ax < -a.ndim:
        raise ValueError("axis %d is out of bounds" % ax)
    return (ax % a.ndim,)


def reduce_(a, axis, keepdims, f, kind):
    """f(vars, dims, body) -> Poly"""
    a = to_sa(a)
    axes = norm_axes(a, axis)
    rest = [j for j in range(a.ndim) if j not in axes]
    shape = [(ONE if j in axes else a._shape[j]) for j in range(a.ndim)] if keepdims else [a._shape[j] for j in rest]

    def g(idx):
        if keepdims:
            ri = [idx[j] for j in rest]
        else:
            ri = list(idx)
        vs = [T.fresh_index(a._shape[j]) for j in axes]
        full = [None] * a.ndim
        for j, x in zip(rest, ri):
            full[j] = x
        for j, v in zip(axes, vs):
            full[j] = P(v)
        return f(vs, [a._shape[j] for j in axes], a.at(tuple(full)))
    r = SA.make(shape, g, kind)
    if r.ndim == 0:
        return r.item()
    return r


@guard
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if isinstance(a, SymSeq):
        a = a.to_sa()
    a = to_sa(a)
    k = a.kind if a.kind != 'b' else 'i'
    if dtype is not None:
        k = S.dtkind(dtype)
    return reduce_(a, axis, keepdims, lambda v, d, b: T.tsum(v, d, b), k)


@guard
def np_mean(a, axis=None, dtype=None, keepdims=False):
    a = to_sa(a)
    return reduce_(a, axis, keepdims, lambda v, d, b: T.tsum(v, d, b) * T.inv(S.prod(d)), 'f')


@guard
def np_var(a, axis=None, ddof=0, keepdims=False):
    a = to_sa(a)

    def f(v, d, b):
        n = S.prod(d)
        m = T.tsum(v, d, b) * T.inv(n)
        return T.tsum(v, d, (b - m) * (b - m)) * T.inv(n - P(ddof))
    return reduce_(a, axis, keepdims, f, 'f')


@guard
def np_std(a, axis=None, ddof=0, keepdims=False):
    v = np_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return S.unop('sqrt', v)


@guard
def np_any(a, axis=None, keepdims=False):
    a = to_sa(a)
    return reduce_(a, axis, keepdims, lambda v, d, b: T.tany(v, d, tobool(b, a.kind)), 'b')


@guard
def np_all(a, axis=None, keepdims=False):
    a = to_sa(a)
    return reduce_(a, axis, keepdims, lambda v, d, b: T.tall(v, d, tobool(b, a.kind)), 'b')


def tobool(b, kind):
    return b if kind == 'b' else T.lnot(T.eq0(b))


@guard
def np_count_nonzero(a, axis=None, keepdims=False):
    a = to_sa(a)
    return reduce_(a, axis, keepdims, lambda v, d, b: T.tsum(v, d, tobool(b, a.kind)), 'i')


def canonical_lam(vs, ds, b):
    """order-insensitive reductions may permute binders"""
    return T.mklam(vs, ds, b)


def opaque_red(head, order_free=True):
    def f(v, d, b):
        l = T.mklam(v, d, b)
        return T.rebuild_app(head, (l,), 'r' if b.sort == 'r' else 'i')
    return f


def _extreme(head):
    @guard
    def f(a, axis=None, out=None, keepdims=False, initial=None):
        a = to_sa(a)
        for j in norm_axes(a, axis):
            if a._shape[j].const() == 0:
                raise ValueError("zero-size array to reduction operation")
            if not PR.implied(T.ge(a._shape[j], ONE), ctx().hyps()):
                if not ctx().branch(T.ge(a._shape[j], ONE)):
                    raise ValueError("zero-size array to reduction operation")
        return reduce_(a, axis, keepdims, opaque_red(head), a.kind)
    return f


np_max = _extreme('max')
np_min = _extreme('min')


def _small(args, sort, op):
    l = args[0]
    cs = [d.const() for d in l.dims]
    vs, b = T.open_lam(l)
    if not any(v.args[0] in b.fv for v in vs):
        return b
    if len(cs) > 1:
        for j, c in enumerate(cs):
            if c is not None and 1 <= c <= 6:
                rest = [v for i, v in enumerate(vs) if i != j]
                ds = [d for i, d in enumerate(l.dims) if i != j]
                r = None
                for i in range(int(c)):
                    bi = T.subst(b, {vs[j].args[0]: P(i)})
                    x = T.rebuild_app(op, (T.mklam(rest, ds, bi),), sort)
                    r = x if r is None else T.tmax(r, x) if op == 'max' else T.tmin(r, x)
                return r
    # factor out parts free of the binder: max(c + x_i) = c + max x_i
    names = {v.args[0] for v in vs}
    free = T._from_dict({m: c for m, c in b.terms if not any(a.fv & names for a, _ in m)})
    if free is not ZERO:
        return free + T.rebuild_app(op, (T.mklam(vs, l.dims, b - free),), sort)
    # positive factors free of the binder: max(c * x_i) = c * max x_i
    b2, dens = T.clear_pos_den(b, names)
    if dens:
        return T.mono_poly(tuple(dens)) * T.rebuild_app(op, (T.mklam(vs, l.dims, b2),), 'r')
    g = [(a, e) for a, e in T._pos_common(b) if not a.fv & names]
    c0 = abs(b.terms[0][1])
    if g or c0 != 1:
        k = T.mono_poly(tuple(g), c0)
        ki = T.mono_poly(tuple((a, -e) for a, e in g), 1 / c0)
        return k * T.rebuild_app(op, (T.mklam(vs, l.dims, b * ki),), 'r')
    if len(cs) == 1 and cs[0] is not None and cs[0] <= 6:
        items = [T.open_lam(l, [P(i)]) for i in range(int(cs[0]))]
        r = items[0]
        for x in items[1:]:
            r = T.tmax(r, x) if op == 'max' else T.tmin(r, x)
        return r
    if op == 'min':
        return -T.rebuild_app('max', (T.mklam(vs, l.dims, -b),), sort)
    # permute binders of equal dims canonically
    if len(vs) > 1:
        from itertools import permutations
        best = l
        for perm in permutations(range(len(vs))):
            q = T.mklam([vs[i] for i in perm], [l.dims[i] for i in perm], b)
            if q.uid < best.uid:
                best = q
        if best is not l:
            return T.App(op, (best,), sort)
    return None


T.REWRITE['max'] = lambda args, sort: _small(args, sort, 'max')
T.REWRITE['min'] = lambda args, sort: _small(args, sort, 'min')


def _max_facts(atom):
    l = atom.args[1]
    vs, b = T.open_lam(l)
    p = P(atom)
    return [T.tall(vs, l.dims, T.ge(p, b)), T.tany(vs, l.dims, T.eq(p, b))]


PR.APPFACTS['max'] = _max_facts


def _arg_facts(sgn):
    def f(atom):
        l = atom.args[1]
        p = P(atom)
        vs, b = T.open_lam(l)
        at = T.open_lam(l, [p])
        c = l.dims[0].const()
        if c is not None and c <= 8:
            xs = [T.open_lam(l, [P(j)]) for j in range(int(c))]
            return [T.ge(p, ZERO) * T.lt(p, l.dims[0])] + [T.ge(at, x) if sgn > 0 else T.ge(x, at) for x in xs]
        return [T.ge(p, ZERO) * T.lt(p, l.dims[0]),
                T.tall(vs, l.dims, T.ge(at, b) if sgn > 0 else T.ge(b, at))]
    return f


PR.APPFACTS['argmax'] = _arg_facts(1)


def _argmin_rw(args, sort):
    l = args[0]
    vs, b = T.open_lam(l)
    return T.rebuild_app('argmax', (T.mklam(vs, l.dims, -b),), 'i')


def _argmax_rw(args, sort):
    """invariant under adding a constant and positive scaling"""
    l = args[0]
    vs, b = T.open_lam(l)
    c = l.dims[0].const() if len(l.dims) == 1 else None
    if c is not None and 1 <= c <= 8:
        return T.rebuild_app('argmaxof', tuple(T.open_lam(l, [P(j)]) for j in range(int(c))), 'i')
    names = {v.args[0] for v in vs}
    free = T._from_dict({m: c for m, c in b.terms if not any(a.fv & names for a, _ in m)})
    if free is not ZERO:
        return T.rebuild_app('argmax', (T.mklam(vs, l.dims, b - free),), 'i')
    if b is ZERO:
        return ZERO
    g = T._pos_common(b)
    g = [(a, e) for a, e in g if not (a.fv & names)]
    c = abs(b.terms[0][1])
    if g or c != 1:
        b2 = b * T.mono_poly(tuple((a, -e) for a, e in g), 1 / c)
        return T.rebuild_app('argmax', (T.mklam(vs, l.dims, b2),), 'i')
    return None


def _argmaxof_rw(xs, sort):
    """first index of the largest of explicitly given values; only differences count"""
    if len(xs) == 1 or all(x is xs[0] for x in xs):
        return ZERO
    cs = [x.const() for x in xs]
    if None not in cs:
        return P(cs.index(max(cs)))
    if xs[0] is not ZERO:
        return T.rebuild_app('argmaxof', tuple(x - xs[0] for x in xs), 'i')
    return None


def _argmaxof_facts(atom):
    xs = list(atom.args[1:])
    p, n = P(atom), len(xs)
    out = [T.ge(p, ZERO), T.lt(p, P(n))]
    for j in range(n):
        c = ONE
        for i in range(n):
            if i != j:
                c = c * (T.lt(xs[i], xs[j]) if i < j else T.le(xs[i], xs[j]))
        out.append(T.lor(T.lnot(T.eq(p, P(j))), c))
    return out


PR.APPFACTS['argmaxof'] = _argmaxof_facts
T.REWRITE['argmaxof'] = _argmaxof_rw
T.REWRITE['argmin'] = _argmin_rw
T.REWRITE['argmax'] = _argmax_rw


@guard
def np_argmax(a, axis=None, keepdims=False):
    a = to_sa(a)
    if axis is None and a.ndim != 1:
        a = a.ravel()
    r = reduce_(a, axis, keepdims, lambda v, d, b: T.rebuild_app('argmax', (T.mklam(v, d, b),), 'i'), 'i')
    return r


@guard
def np_argmin(a, axis=None):
    a = to_sa(a)
    if axis is None and a.ndim != 1:
        a = a.ravel()
    return reduce_(a, axis, False, lambda v, d, b: T.rebuild_app('argmin', (T.mklam(v, d, b),), 'i'), 'i')


@guard
def np_median(a, axis=None, keepdims=False):
    a = to_sa(a)
    return reduce_(a, axis, keepdims, lambda v, d, b: T.rebuild_app('median', (T.mklam(v, d, b),), 'r'), 'f')


def _median_rw(args, sort):
    l = args[0]
    vs, b = T.open_lam(l)
    if not any(v.args[0] in b.fv for v in vs):
        return b
    if len(l.dims) == 1:
        c = l.dims[0].const()
        if c is not None and 1 <= c <= 5:
            xs = [T.open_lam(l, [P(i)]) for i in range(int(c))]
            if c == 1:
                return xs[0]
            if c == 2:
                return (xs[0] + xs[1]) * P(T.Fraction(1, 2))
            # symmetric in its arguments
            return T.rebuild_app('medianof', tuple(sorted(xs, key=lambda x: x.uid)), 'r')
    return None


def _medianof_rw(args, sort):
    xs = sorted(args, key=lambda x: x.uid)
    if all(x is xs[0] for x in xs):
        return xs[0]
    if any(a is not b for a, b in zip(xs, args)):
        return T.App('medianof', tuple(xs), sort)
    return None


def _medianof_facts(atom):
    xs = list(atom.args[1:])
    p, m = P(atom), len(xs)
    if m == 4:
        out = []
        for k in range(4):
            a, b, c = [xs[i] for i in range(4) if i != k]
            out.append(T.lor(T.lnot(T.eq(a, b) * T.eq(b, c)), T.eq(p, a)))
        return out
    h = m // 2 + 1
    lo = hi = el = None
    for x in xs:
        a, b, e = T.le(x, p), T.ge(x, p), T.eq(x, p)
        lo, hi, el = (a, b, e) if lo is None else (lo + a, hi + b, T.lor(el, e))
    return [el, T.ge(lo, P(h)), T.ge(hi, P(h))]


PR.APPFACTS['medianof'] = _medianof_facts
T.REWRITE['medianof'] = _medianof_rw
T.REWRITE['median'] = _median_rw


@guard
def np_cumsum(a, axis=None):
    a = to_sa(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim

    def f(idx):
        n = idx[axis] + ONE
        v = T.fresh_index(n)
        full = list(idx)
        full[axis] = P(v)
        # ragged sum: sum over all with an indicator
        d = a._shape[axis]
        v = T.fresh_index(d)
        full[axis] = P(v)
        return T.tsum([v], [d], T.le(P(v), idx[axis]) * a.at(tuple(full)))
    return SA.make(a._shape, f, a.kind if a.kind != 'b' else 'i')


# ------------------------------------------------------------ products

@guard
def np_dot(a, b, out=None):
    if not isinstance(a, (SA, list, tuple)) or not isinstance(b, (SA, list, tuple)):
        a1, b1 = to_sa(a), to_sa(b)
        if a1.ndim == 0 or b1.ndim == 0:
            return S.binop('mul', a, b)
    a, b = to_sa(a), to_sa(b)
    if a.ndim == 0 or b.ndim == 0:
        return S.binop('mul', a if a.ndim else a.item(), b if b.ndim else b.item())
    ja = a.ndim - 1
    jb = b.ndim - 2 if b.ndim > 1 else 0
    if not S.same_dim(dimv(a._shape[ja]), dimv(b._shape[jb])):
        raise ValueError("shapes not aligned")
    d = a._shape[ja]
    na = a.ndim - 1
    shape = list(a._shape[:-1]) + [x for j, x in enumerate(b._shape) if j != jb]
    kind = S.kind_join(a.kind, b.kind)

    def f(idx):
        v = T.fresh_index(d)
        ia = tuple(idx[:na]) + (P(v),)
        ib = list(idx[na:])
        ib.insert(jb, P(v))
        return T.sum1(v, d, a.at(ia) * b.at(tuple(ib)))
    r = SA.make(shape, f, kind)
    return r.item() if r.ndim == 0 else r


@guard
def np_matmul(a, b):
    a, b = to_sa(a), to_sa(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return np_dot(a, b)
    raise Unsupported("matmul of stacks")


@guard
def np_outer(a, b):
    a, b = to_sa(a).ravel(), to_sa(b).ravel()
    return SA.make((a.shape[0], b.shape[0]), lambda i: a.at((i[0],)) * b.at((i[1],)), S.kind_join(a.kind, b.kind))


# ------------------------------------------------------------ construction

def shape_of(s):
    if isinstance(s, SA):
        if s.ndim == 0:
            return (dimv(s.item().p),)
        return tuple(s[i] for i in range(int(s.shape[0])))
    if isinstance(s, (tuple, list)):
        return tuple(S.py(x) if isinstance(x, Sc) else (x.item() if isinstance(x, SA) else x) for x in s)
    return (s,)


def np_zeros(shape, dtype=float, order='C'):
    return SA.make(shape_of(shape), lambda i: ZERO, S.dtkind(dtype))


def np_ones(shape, dtype=float, order='C'):
    return SA.make(shape_of(shape), lambda i: ONE, S.dtkind(dtype))


_un = [0]


def np_empty(shape, dtype=float, order='C'):
    _un[0] += 1
    k = S.dtkind(dtype)
    n = "uninit%d" % _un[0]
    return SA.make(shape_of(shape), lambda i: T.App(n, i, 'r' if k == 'f' else 'i') if k != 'b' else T.bapp(n, i), k)


def np_full(shape, v, dtype=None):
    if S.is_special(v):
        return S.FilledSpecial(shape_of(shape), v)
    return SA.full(shape_of(shape), v, None if dtype is None else S.dtkind(dtype))


def np_zeros_like(a, dtype=None):
    a = to_sa(a)
    return np_zeros(a.shape, dtype=a.dtype if dtype is None else dtype)


def np_ones_like(a, dtype=None):
    a = to_sa(a)
    return np_ones(a.shape, dtype=a.dtype if dtype is None else dtype)


def np_empty_like(a, dtype=None):
    a = to_sa(a)
    return np_empty(a.shape, dtype=a.dtype if dtype is None else dtype)


def np_full_like(a, v, dtype=None):
    a = to_sa(a)
    return np_full(a.shape, v, dtype=a.dtype if dtype is None else dtype)


@guard
def np_array(x, dtype=None, copy=True, order=None, ndmin=0):
    if isinstance(x, SA):
        r = x.copy()
    elif S.is_special(x):
        return x
    else:
        r = to_sa(x)
        if isinstance(x, S.SymSeq):
            r = r
    if dtype is not None:
        r = r.astype(dtype)
    return r


@guard
def np_asarray(x, dtype=None, order=None):
    if isinstance(x, SA):
        return x if dtype is None or S.dtkind(dtype) == x.kind else x.astype(dtype)
    return np_array(x, dtype=dtype)


def np_ascontiguousarray(x, dtype=None):
    # returns x itself when already contiguous: aliasing is possible
    return np_asarray(x, dtype)


@guard
def np_arange(a, b=None, step=None, dtype=None):
    lo, hi = (0, a) if b is None else (a, b)
    st = 1 if step is None else S.py(step) if isinstance(step, Sc) else step
    lo, hi = sc(lo), sc(hi)
    if lo.kind == 'f' or hi.kind == 'f' or not isinstance(st, int):
        raise Unsupported("float arange")
    if st == 1:
        n = hi.p - lo.p
    elif st > 1:
        n = T.fdiv(hi.p - lo.p + P(st - 1), P(st))
    else:
        raise Unsupported("arange step")
    if not ctx().branch(T.ge(n, ZERO)):
        n = ZERO
    return SA.make((dimv(n),), lambda i: lo.p + P(st) * i[0], 'i' if dtype is None else S.dtkind(dtype))


@guard
def np_linspace(start, stop, num=50, endpoint=True):
    s, e, n = sc(start).p, sc(stop).p, sc(num).p
    if endpoint is not True:
        return SA.make((dimv(n),), lambda i: s + (e - s) * i[0] * T.inv(n), 'f')
    c = n.const()
    if c == 1:
        return SA.make((1,), lambda i: s, 'f')
    # i/(n-1), 0/0 read as 0 when n == 1
    return SA.make((dimv(n),), lambda i: s + (e - s) * i[0] * T.inv(n - ONE), 'f')


@guard
def np_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    l = np_linspace(start, stop, num, endpoint)
    lb = T.ln10() if sc(base).p.const() == 10 else T.log(sc(base).p)
    return l.map(lambda x: Sc(T.exp(x.p * lb), 'f'))


def np_eye(n, M=None, dtype=float):
    return SA.make((n, n if M is None else M), lambda i: T.eq(i[0], i[1]), S.dtkind(dtype))


@guard
def np_tile(a, reps):
    a = to_sa_or_special(a)
    if S.is_special(a):
        return S.FilledSpecial(shape_of(reps), a)
    reps = shape_of(reps)
    n = max(a.ndim, len(reps))
    ash = [ONE] * (n - a.ndim) + list(a._shape)
    rp = [ONE] * (n - len(reps)) + [dimp(r) for r in reps]
    shape = [x * y for x, y in zip(ash, rp)]
    off = n - a.ndim

    def f(idx):
        out = []
        for j in range(a.ndim):
            i, d, r = idx[off + j], ash[off + j], rp[off + j]
            if r.const() == 1:
                out.append(i)
            elif d.const() == 1:
                out.append(ZERO)
            else:
                out.append(T.mod(i, d))
        return a.at(tuple(out))
    return SA.make(shape, f, a.kind)


def to_sa_or_special(a):
    if S.is_special(a):
        return a
    return to_sa(a)


@guard
def np_repeat(a, r, axis=None):
    a = to_sa(a)
    rp = sc(r).p
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    sh = list(a._shape)
    sh[axis] = sh[axis] * rp

    def f(idx):
        i = list(idx)
        i[axis] = T.fdiv(i[axis], rp)
        return a.at(tuple(i))
    return SA.make(sh, f, a.kind)


@guard
def np_concatenate(arrs, axis=0, dtype=None):
    if isinstance(arrs, SymSeq):
        raise Unsupported("concatenate symbolic sequence")
    arrs = [to_sa(a) for a in arrs]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    if any(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    axis %= nd
    for a in arrs[1:]:
        for j in range(nd):
            if j != axis and not S.same_dim(dimv(a._shape[j]), dimv(arrs[0]._shape[j])):
                raise ValueError("all the input array dimensions must match exactly")
    k = 'b'
    tot = ZERO
    starts = []
    for a in arrs:
        k = S.kind_join(k, a.kind)
        starts.append(tot)
        tot = tot + a._shape[axis]
    shape = list(arrs[0]._shape)
    shape[axis] = tot

    def f(idx):
        i = list(idx)
        i[axis] = idx[axis] - starts[-1]
        r = arrs[-1].at(tuple(i))
        for a, st in list(zip(arrs, starts))[-2::-1]:
            i = list(idx)
            i[axis] = idx[axis] - st
            r = T.ite(T.lt(idx[axis], st + a._shape[axis]), a.at(tuple(i)), r)
        return r
    return SA.make(shape, f, k)


def np_append(a, v, axis=None):
    if axis is None:
        return np_concatenate([to_sa(a).ravel(), to_sa(v).ravel()])
    return np_concatenate([a, v], axis=axis)


def np_hstack(arrs):
    arrs = [np_atleast_1d(a) for a in arrs]
    return np_concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def np_vstack(arrs):
    return np_concatenate([np_atleast_2d(a) for a in arrs], axis=0)


def np_column_stack(arrs):
    out = []
    for a in arrs:
        a = to_sa(a)
        out.append(a[:, None] if a.ndim == 1 else a)
    return np_concatenate(out, axis=1)


def np_stack(arrs, axis=0):
    arrs = [to_sa(a) for a in arrs]
    return np_concatenate([np_expand_dims(a, axis) for a in arrs], axis=axis)


def np_insert(a, pos, val, axis=None):
    a = to_sa(a)
    if axis is not None or a.ndim != 1 or not isinstance(pos, int):
        raise Unsupported("insert")
    v = to_sa(val)
    v = v.reshape(1) if v.ndim == 0 else v
    if pos == 0:
        return np_concatenate([v, a])
    return np_concatenate([a[:pos], v, a[pos:]])


def np_atleast_1d(a):
    a = to_sa_or_special(a)
    if S.is_special(a):
        return S.FilledSpecial((1,), a)
    return a if a.ndim else a.reshape(1)


def np_atleast_2d(a):
    a = np_atleast_1d(a)
    return a if a.ndim > 1 else a[None, :]


def np_expand_dims(a, axis):
    a = to_sa(a)
    axis %= (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def np_squeeze(a, axis=None):
    if isinstance(a, (Sc, int, float)):
        return a
    return S.squeeze(to_sa(a), axis)


def np_reshape(a, shape, order='C'):
    return to_sa(a).reshape(shape)


def np_ravel(a, order='C'):
    return to_sa(a).ravel()


def np_transpose(a, axes=None):
    a = to_sa(a)
    return a.transpose() if axes is None else a.transpose(*axes)


def np_copy(a, order=None):
    return to_sa(a).copy()


def np_broadcast_to(a, shape):
    return S.broadcast_to(to_sa(a), shape_of(shape))


# ------------------------------------------------------------ elementwise

def ufunc1(op):
    def f(x, out=None, where=None):
        if isinstance(x, SymSeq):
            x = x.to_sa()
        r = S.unop(op, x)
        if out is not None:
            out.assign(r if isinstance(r, SA) else to_sa(r))
            return out
        return r
    f.__name__ = op
    return f


def ufunc2(op):
    def f(a, b, out=None):
        r = S.binop(op, lift(a), lift(b))
        if out is not None:
            out.assign(r if isinstance(r, SA) else to_sa(r))
            return out
        return r
    f.__name__ = op
    return f


def lift(x):
    if isinstance(x, (SA, Sc)) or S.is_special(x) or x is None:
        return x
    if isinstance(x, (int, float, bool)):
        return sc(x)
    return to_sa(x)


@guard
def np_where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)
    c, a, b = to_sa(c), to_sa(a), to_sa(b)
    sh = S.broadcast_shapes(c._shape, a._shape, b._shape)
    k = S.kind_join(a.kind, b.kind)
    r = SA.make(sh, lambda i: T.ite(tobool(c.at(S.bidx(c._shape, i)), c.kind), a.at(S.bidx(a._shape, i)),
                                    b.at(S.bidx(b._shape, i))), k)
    return r.item() if r.ndim == 0 else r


@guard
def np_nonzero(a):
    a = to_sa(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of nd array")
    m = a if a.kind == 'b' else a.map(lambda x: Sc(S.boolpoly(x), 'b'))
    return (S.nonzero1(m),)


@guard
def np_argwhere(a):
    a = to_sa(a)
    if a.ndim != 1:
        raise Unsupported("argwhere of nd array")
    return np_nonzero(a)[0][:, None]


def np_flatnonzero(a):
    return np_nonzero(to_sa(a).ravel())[0]


LABELS = {}        # (dims, body) of a label vector -> (sorted classes, codes)


def pick(cl, i):
    c = i.const()
    if c is not None:
        return cl[int(c)]
    r = ZERO
    for k, x in enumerate(cl):
        r = r + T.eq(i, P(k)) * x
    return r


@guard
def np_unique(a, axis=None, return_index=False, return_inverse=False, return_counts=False):
    if return_index or return_inverse or return_counts:
        raise Unsupported("unique with extra outputs")
    a = to_sa(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
    elif axis % a.ndim != 0:
        raise Unsupported("unique axis")
    elif a.ndim != 2:
        if a.ndim == 1:
            pass
        else:
            raise Unsupported("unique rows of nd array")
    l = S.lam_of(a)
    if a.ndim == 1 and (l.dims, l.body) in LABELS:
        cl = LABELS[l.dims, l.body][0]
        return SA.make((len(cl),), lambda i: pick(cl, i[0]), a.kind)
    if a.ndim == 1 and a.kind in 'if':
        vals = small_values(a)
        if vals is not None:
            return SA.make((len(vals),), lambda i: pick([P(v) for v in vals], i[0]), a.kind)
    n = T.App('+nuniq', (l,), 'i')
    if a.ndim == 1:
        f = lambda i: T.App('uniq', (l, i[0]), 'r' if a.kind == 'f' else 'i')
        if a.kind == 'b':
            f = lambda i: T.bapp('uniq', (l, i[0]))
        return SA.make((dimv(n),), f, a.kind)
    if a.kind == 'b':
        f = lambda i: T.bapp('uniqrow', (l, i[0], i[1]))
    else:
        f = lambda i: T.App('uniqrow', (l, i[0], i[1]), 'r' if a.kind == 'f' else 'i')
    return SA.make((dimv(n), dimv(a._shape[1])), f, a.kind)


def small_values(a):
    """the distinct values of an integer vector known to lie in a small range"""
    cx = S.CTX[-1]
    if cx is None:
        return None
    i = T.fresh_index(a._shape[0])
    x = a.at((P(i),))
    hy = cx.hyps()
    if a.kind == 'f':
        # whole values only: the label coding -1, 1
        one_of = T.tall([i], [a._shape[0]], T.lor(T.eq(x, P(-1)), T.eq(x, P(1))))
        if not PR.implied(one_of, hy):
            return None
        return [v for v in (-1, 1) if cx.branch(T.tany([i], [a._shape[0]], T.eq(x, P(v))))]
    within = lambda lo, hi: PR.implied(T.tall([i], [a._shape[0]], T.ge(x, P(lo)) * T.le(x, P(hi))), hy)
    if not within(-1, 3):
        return None
    return [v for v in range(-1, 4) if cx.branch(T.tany([i], [a._shape[0]], T.eq(x, P(v))))]


def _nuniq_facts(atom):
    l = atom.args[1]
    p = P(atom)
    n = l.dims[0]
    return [T.ge(p, ZERO), T.le(p, n), T.lor(T.lt(n, ONE), T.ge(p, ONE))]


PR.APPFACTS['+nuniq'] = _nuniq_facts


def _sorted_kind(head):
    @guard
    def f(a, axis=-1, kind=None):
        a = to_sa(a)
        if a.ndim != 1:
            raise Unsupported(head)
        l = S.lam_of(a)
        return SA.make(a._shape, lambda i: T.rebuild_app(head, (l, i[0]), 'i' if head == 'argsort' else ('r' if a.kind == 'f' else 'i')),
                       'i' if head == 'argsort' else a.kind)
    return f


np_argsort = _sorted_kind('argsort')
np_sort = _sorted_kind('sort')


def _argsort_facts(atom):
    p = P(atom)
    l = atom.args[1]
    k = atom.args[2]
    return [T.lor(T.lnot(T.ge(k, ZERO) * T.lt(k, l.dims[0])), T.ge(p, ZERO) * T.lt(p, l.dims[0]))]


PR.APPFACTS['argsort'] = _argsort_facts


def _argsort_pair(a, b):
    """values along the sorting order do not decrease"""
    l = a.args[1]
    out = []
    for x, y in ((a, b), (b, a)):
        i, j = x.args[2], y.args[2]
        ok = T.ge(i, ZERO) * T.le(i, j) * T.lt(j, l.dims[0])
        out.append(T.lor(T.lnot(ok), T.le(T.open_lam(l, [P(x)]), T.open_lam(l, [P(y)]))))
    return out


PR.PAIRFACTS['argsort'] = _argsort_pair


@guard
def np_searchsorted(a, v, side='left'):
    a = to_sa(a)
    if S.is_arr(v):
        v = to_sa(v)
        if v.ndim != 1:
            raise Unsupported("searchsorted of nd array")
        l = S.lam_of(v)
        if side == 'left' and (l.dims, l.body) in LABELS:
            cl, codes = LABELS[l.dims, l.body]
            if a._shape[0].const() == len(cl) and all(a.at((P(k),)) is c for k, c in enumerate(cl)):
                return codes.copy()

        def g(i):
            k = T.fresh_index(a._shape[0])
            x, s = a.at((P(k),)), v.at(i)
            return T.tsum([k], [a._shape[0]], T.lt(x, s) if side == 'left' else T.le(x, s))
        return SA.make(v._shape, g, 'i')
    s = sc(v)
    k = T.fresh_index(a._shape[0])
    x = a.at((P(k),))
    cond = T.lt(x, s.p) if side == 'left' else T.le(x, s.p)
    return Sc(T.tsum([k], [a._shape[0]], cond), 'i')


@guard
def np_array_equiv(a, b):
    a, b = to_sa(a), to_sa(b)
    e = S.binop('eq', a, b)
    return np_all(e) if isinstance(e, SA) else e


def np_array_equal(a, b):
    a, b = to_sa(a), to_sa(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not S.same_dim(x, y):
            return False
    return np_array_equiv(a, b)


@guard
def np_array_split(a, n, axis=0):
    a = to_sa(a)
    if axis != 0:
        raise Unsupported("array_split axis")
    nn = sc(n).p
    L = a._shape[0]
    return SplitSeq(a, nn)


class SplitSeq(SymSeq):
    """np.array_split(a, n): the first L % n parts have L // n + 1 elements"""

    def __init__(self, a, n):
        L = a._shape[0]
        q = T.fdiv(L, n)
        rem = L - n * q

        def elem(k):
            st = k * q + T.tmin(k, rem)
            ln = q + T.lt(k, rem)
            st, ln = simp_here(st), simp_here(ln)
            return SA.make((dimv(ln),) + a.shape[1:], lambda i: a.at((st + i[0],) + tuple(i[1:])), a.kind)
        super().__init__(n, elem)


def simp_here(p):
    if p.const() is not None:
        return p
    rep = {}
    for a in PR.atoms_of(p):
        if a.head == 'ind':
            r = PR.decide(P(a), ctx().hyps())
            if r is not None:
                rep[a] = ONE if r else ZERO
    return PR.replace_atoms(p, rep) if rep else p


@guard
def np_isin(a, b):
    a, b = to_sa(a), to_sa(b).ravel()
    k = T.fresh_index(b._shape[0])
    r = a.map(lambda x: Sc(T.tany([k], [b._shape[0]], T.eq(x.p, b.at((P(k),)))), 'b'))
    return r.item() if r.ndim == 0 else r


@guard
def np_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = S.binop('max', lift(r), lift(lo))
    if hi is not None:
        r = S.binop('min', lift(r), lift(hi))
    return r


@guard
def np_prod(a, axis=None, dtype=None):
    if isinstance(a, (tuple, list)):
        r = sc(1)
        for x in a:
            r = S.binop('mul', r, lift(x))
        k = S.dtkind(dtype) if dtype is not None or not len(a) else r.kind
        return S.py(S.cast_sc(r, k))
    a = to_sa(a)
    if a.ndim == 1 and a._shape[0].const() is not None:
        r = sc(1)
        for i in range(int(a._shape[0].const())):
            r = S.binop('mul', r, a[i])
        return r
    raise Unsupported("prod")


def np_issubdtype(a, b):
    k = S.dtkind(a)
    n = getattr(b, 'np_abstract', None)
    if n == 'floating':
        return k == 'f'
    if n == 'integer':
        return k == 'i'
    if n == 'number':
        return k in 'fi'
    return S.dtkind(b) == k


class _Abstract:
    def __init__(self, n, kind=None):
        self.np_abstract = n
        self.__name__ = n
        self.kind = kind

    def _pv_check(self, x):
        from . import rt
        if isinstance(x, rt.NpSc):
            return self.kind in (None, x.kind)
        if isinstance(x, Sc) and self.kind in (None, x.kind):
            raise Unsupported("scalar of NumPy or of Python")
        return False


def np_dtype(x):
    return S.dtype_of(x)


@guard
def linalg_norm(a, ord=None, axis=None, keepdims=False):
    a = to_sa(a)
    if ord not in (None, 2, 'fro'):
        raise Unsupported("norm ord")
    if ord == 2 and axis is None and a.ndim != 1:
        raise Unsupported("spectral norm")
    return S.unop('sqrt', np_sum(S.binop('mul', a, a), axis=axis, keepdims=keepdims))


def isscalar(x):
    return isinstance(x, (int, float, bool, str, Sc))


class _NS:
    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        m = self.__dict__[n] = Missing("%s.%s" % (self._name, n))
        return m


class Missing:
    """an external name without a contract: usable as a value, not callable"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __call__(self, *a, **k):
        raise Unsupported("no contract for %s" % self._n)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self._n + "." + n)

    def __mro_entries__(self, bases):
        return (object,)


np = _NS('numpy')
for _n, _f in list(globals().items()):
    if _n.startswith('np_') and callable(_f):
        np.__dict__[_n[3:]] = _f
np.amax, np.amin = np_max, np_min
np.product = np_prod
for _n in ('exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sqrt', 'square', 'sign', 'floor', 'ceil',
           'isnan', 'isinf', 'isfinite', 'abs'):
    np.__dict__[_n] = ufunc1(_n)
np.absolute = np.fabs = np.abs
np.negative = ufunc1('neg')
np.logical_not = ufunc1('lnot')
np.invert = ufunc1('not')
for _n, _o in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('divide', 'div'),
               ('true_divide', 'div'), ('floor_divide', 'fdiv'), ('power', 'pow'), ('mod', 'mod'),
               ('equal', 'eq'), ('not_equal', 'ne'), ('less', 'lt'), ('less_equal', 'le'),
               ('greater', 'gt'), ('greater_equal', 'ge'), ('maximum', 'max'), ('minimum', 'min'),
               ('logaddexp', 'logaddexp'), ('bitwise_and', 'and'), ('bitwise_or', 'or')):
    np.__dict__[_n] = ufunc2(_o)


def _lg(op):
    def f(a, b):
        return S.binop(op, boolify(a), boolify(b))
    return f


def boolify(a):
    a = lift(a)
    if isinstance(a, SA):
        return a if a.kind == 'b' else a.map(lambda x: Sc(S.boolpoly(x), 'b'))
    return Sc(S.boolpoly(a), 'b')


np.logical_and = _lg('and')
np.logical_or = _lg('or')
np.inf = float('inf')
np.nan = float('nan')
np.pi = 3.141592653589793
np.newaxis = None
np.ndarray = SA
np.dtype = np_dtype
np.float64, np.float32, np.int64, np.int32, np.bool_ = S.float64, S.float32, S.int64, S.int32, S.bool_
np.intp, np.intc = S.int64, S.intc
np.double = S.float64
np.floating = _Abstract('floating', 'f')
np.integer = _Abstract('integer', 'i')
np.number = _Abstract('number')
np.linalg = _NS('numpy.linalg')
np.linalg.__dict__['norm'] = linalg_norm
np.isscalar = isscalar
np.random = _NS('numpy.random')

for _n in ('sum', 'mean', 'std', 'var', 'any', 'all', 'max', 'min', 'argmax', 'argmin', 'cumsum', 'dot', 'prod',
           'argsort', 'nonzero', 'clip'):
    def _m(self, *a, _f=np.__dict__[_n], **k):
        return _f(self, *a, **k)
    setattr(SA, _n, _m)
SA.__matmul__ = lambda self, o: np_matmul(self, o)
SA.__rmatmul__ = lambda self, o: np_matmul(o, self)
Sc.mean = lambda self, axis=None: Sc(self.p, 'f')
Sc.dot = lambda self, o: S.binop('mul', self, o)
