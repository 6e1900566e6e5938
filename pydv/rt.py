"""Run-time of the instrumented modules: builtins over symbolic values, local
exploration with state merging, and the loop-contract driver."""
import itertools
import types
import builtins as _b
import time
from fractions import Fraction
from . import terms as T
from .terms import P, ZERO, ONE
from . import prove as PR
from . import sym as S
from .sym import SA, Sc, sc, to_sa, Unsupported, PathAbort, ctx, CTX, Ctx, Explorer, SymSeq, MaybeNone, Buf, dimp, dimv
from .npshim import _NS, Missing, SplitSeq
from . import npshim as NPS

STAT = {'loops': 0, 'merges': 0, 'iterpaths': 0}


# ------------------------------------------------------------ builtins

class TypeShim(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class NpSc(Sc):
    """numpy scalar (not a Python int/float/bool instance)"""
    __slots__ = ()


class IntShim(metaclass=TypeShim):
    _real = int

    @staticmethod
    def _check(x):
        if isinstance(x, Sc):
            return x.kind in 'ib' and not isinstance(x, NpSc)
        return _b.isinstance(x, int)

    @staticmethod
    def _conv(x=0, *a):
        if isinstance(x, SA):
            if x.ndim != 0 and _b.any(d.const() != 1 for d in x._shape):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.item()
        if isinstance(x, MaybeNone):
            raise Unsupported("int of possibly None")
        if isinstance(x, Sc):
            return S.py(Sc(S.cast_sc(x, 'i').p, 'i'))
        if _b.isinstance(x, (list, tuple)):
            raise TypeError("int() argument must be a string or a number, not a list")
        return int(x, *a)


class FloatShim(metaclass=TypeShim):
    _real = float

    @staticmethod
    def _check(x):
        if isinstance(x, Sc):
            return x.kind == 'f'       # numpy.float64 is a float subclass too
        return _b.isinstance(x, float)

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, SA):
            x = x.item()
        if isinstance(x, Sc):
            return Sc(x.p, 'f')
        return float(x)


class BoolShim(metaclass=TypeShim):
    _real = bool

    @staticmethod
    def _check(x):
        if isinstance(x, Sc):
            return x.kind == 'b' and not isinstance(x, NpSc)
        return _b.isinstance(x, bool)

    @staticmethod
    def _conv(x=False):
        if isinstance(x, Sc):
            return Sc(S.boolpoly(x), 'b')
        if isinstance(x, SA):
            return Sc(S.boolpoly(x), 'b')
        return bool(x)


class ListShim(metaclass=TypeShim):
    _real = list

    @staticmethod
    def _check(x):
        return _b.isinstance(x, list) or (isinstance(x, SymSeq) and not isinstance(x, SplitSeq))

    @staticmethod
    def _conv(x=()):
        if isinstance(x, SymSeq):
            if x.n.const() is None:
                return PList().extend_sym(x)
            return PList(x)
        if isinstance(x, SA):
            if x._shape[0].const() is None:
                return PList().extend_sym(SymSeq(x._shape[0], lambda k: x[Sc(k, 'i')]))
        return PList(list(x))


class TupleShim(metaclass=TypeShim):
    _real = tuple

    @staticmethod
    def _check(x):
        return _b.isinstance(x, tuple)

    @staticmethod
    def _conv(x=()):
        if isinstance(x, SymSeq):
            if x.n.const() is None:
                return x
        return tuple(x)


def b_isinstance(x, c):
    if _b.isinstance(c, tuple):
        return _b.any(b_isinstance(x, k) for k in c)
    if isinstance(c, Missing):
        return False
    if hasattr(c, '_pv_check'):
        return c._pv_check(x)
    try:
        return _b.isinstance(x, c)
    except TypeError:
        raise


def b_len(x):
    if isinstance(x, SA):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return dimv(x._shape[0])
    if isinstance(x, SymSeq):
        return dimv(x.n)
    if isinstance(x, PList):
        return x.length()
    if isinstance(x, SymDict):
        return x.length()
    return _b.len(x)


def b_range(*a):
    a = [S.py(x.item() if isinstance(x, SA) else x) for x in a]
    for x in a:
        if isinstance(x, Sc) and x.kind == 'f' or _b.isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if not _b.any(isinstance(x, Sc) for x in a):
        return _b.range(*a)
    st, en, step = (0, a[0], 1) if len(a) == 1 else ((a[0], a[1], 1) if len(a) == 2 else a)
    if isinstance(step, Sc):
        raise Unsupported("range step")
    s, e = sc(st).p, sc(en).p
    if step == 1:
        n = e - s
        if not ctx().branch(T.ge(n, ZERO)):
            n = ZERO
        return RangeSeq(n, lambda k: Sc(s + k, 'i'))
    if step == -1:
        n = s - e
        if not ctx().branch(T.ge(n, ZERO)):
            n = ZERO
        return RangeSeq(n, lambda k: Sc(s - k, 'i'))
    raise Unsupported("range step")


class RangeSeq(SymSeq):
    pass


def seq_of(x):
    """-> (n Poly, elem) for any iterable"""
    if isinstance(x, PList) and x.sym is not None:
        x = x.as_seq()
    if isinstance(x, SymSeq):
        return x.n, x.elem
    if isinstance(x, SA):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return x._shape[0], (lambda k: x[Sc(k, 'i')])
    x = list(x)
    return P(len(x)), (lambda k: x[int(k.const())] if k.const() is not None else pick(x, k))


def pick(x, k):
    """element k of a native list, symbolic k"""
    r = x[-1]
    for i in _b.range(len(x) - 2, -1, -1):
        r = merge_val([(T.eq(k, P(i)), x[i]), (T.lnot(T.eq(k, P(i))), r)])
    return r


def issymseq(x):
    return (isinstance(x, SymSeq) and x.n.const() is None) or (isinstance(x, SA) and x.ndim > 0 and x._shape[0].const() is None) \
        or (isinstance(x, PList) and x.sym is not None)


def b_enumerate(x, start=0):
    if issymseq(x):
        n, el = seq_of(x)
        return SymSeq(n, lambda k: (Sc(k + P(start), 'i'), el(k)))
    return _b.enumerate(iter(x), start)


def b_zip(*xs):
    if not _b.any(issymseq(x) for x in xs):
        return _b.zip(*[iter(x) for x in xs])
    ss = [seq_of(x) for x in xs]
    n = ss[0][0]
    for m, _ in ss[1:]:
        if m is not n and not ctx().branch(T.eq(m, n)):
            if not ctx().branch(T.ge(m, n)):
                n = m
    return SymSeq(n, lambda k: tuple(e(k) for _, e in ss))


def b_sum(x, start=0):
    if issymseq(x):
        n, el = seq_of(x)
        k = T.fresh_index(n)
        v = generic(lambda: el(P(k)), [T.ge(P(k), ZERO), T.lt(P(k), n)], n, k)
        v = sc(v)
        return S.binop('add', Sc(T.tsum([k], [n], v.p), 'i' if v.kind != 'f' else 'f'), start)
    r = start
    for y in x:
        r = r + y
    return r


def b_max(*a, **k):
    return _ext('max', *a, **k)


def b_min(*a, **k):
    return _ext('min', *a, **k)


def _ext(op, *a, **k):
    if k:
        raise Unsupported("max/min with key")
    if len(a) == 1:
        x = a[0]
        if issymseq(x):
            x = to_sa(x if not isinstance(x, PList) else x.as_seq())
            return (NPS.np_max if op == 'max' else NPS.np_min)(x)
        a = list(x)
        if not a:
            raise ValueError("%s() arg is an empty sequence" % op)
    r = a[0]
    for y in a[1:]:
        if _b.isinstance(r, (int, float)) and _b.isinstance(y, (int, float)):
            r = getattr(_b, op)(r, y)
        else:
            r = S.binop(op, r, y)
    return r


def b_abs(x):
    return S.unop('abs', x) if isinstance(x, (Sc, SA)) else _b.abs(x)


def b_any(x):
    if issymseq(x):
        n, el = seq_of(x)
        k = T.fresh_index(n)
        v = generic(lambda: el(P(k)), [T.ge(P(k), ZERO), T.lt(P(k), n)], n, k)
        return Sc(T.tany([k], [n], S.boolpoly(v)), 'b')
    for y in x:
        if y:
            return True
    return False


def b_all(x):
    if issymseq(x):
        n, el = seq_of(x)
        k = T.fresh_index(n)
        v = generic(lambda: el(P(k)), [T.ge(P(k), ZERO), T.lt(P(k), n)], n, k)
        return Sc(T.tall([k], [n], S.boolpoly(v)), 'b')
    for y in x:
        if not y:
            return False
    return True


def b_sorted(x, key=None, reverse=False):
    if issymseq(x):
        raise Unsupported("sorted of symbolic sequence")
    x = list(x)
    if _b.any(isinstance(y, Sc) for y in x):
        raise Unsupported("sorted of symbolic values")
    return PList(_b.sorted(x, key=key, reverse=reverse))


def b_round(x, n=None):
    if isinstance(x, Sc):
        raise Unsupported("round")
    return _b.round(x, n) if n is not None else _b.round(x)


def b_map(f, *xs):
    if _b.any(issymseq(x) for x in xs):
        z = b_zip(*xs)
        return SymSeq(z.n, lambda k: f(*z.elem(k)))
    return _b.map(f, *xs)


def b_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


def b_set(x=()):
    if issymseq(x):
        raise Unsupported("set of symbolic sequence")
    return _b.set(x)


def b_print(*a, **k):
    pass


def b_open(*a, **k):
    raise Unsupported("open() in verified code")


BUILTINS = dict(vars(_b))
BUILTINS.update(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, sum=b_sum, max=b_max, min=b_min,
                abs=b_abs, any=b_any, all=b_all, sorted=b_sorted, round=b_round, map=b_map, hasattr=b_hasattr,
                isinstance=b_isinstance, int=IntShim, float=FloatShim, bool=BoolShim, list=ListShim,
                tuple=TupleShim, set=b_set, print=b_print, open=b_open)


# ------------------------------------------------------------ containers

class PList(list):
    """list display of verified code; may carry a symbolic-length tail"""

    def __init__(self, x=()):
        list.__init__(self, x)
        self.sym = None

    def extend_sym(self, s):
        if self.sym is not None:
            a = self.sym
            self.sym = concat_seq(a, s)
        else:
            self.sym = s
        return self

    def as_seq(self):
        pre = list(list.__iter__(self))
        if self.sym is None:
            return SymSeq(P(_b.len(pre)), lambda k: pre[int(k.const())] if k.const() is not None else pick(pre, k))
        if not pre:
            return self.sym
        return concat_seq(SymSeq(P(_b.len(pre)), lambda k: pre[int(k.const())] if k.const() is not None else pick(pre, k)), self.sym)

    def length(self):
        if self.sym is None:
            return _b.len(self)
        return dimv(P(_b.len(self)) + self.sym.n)

    def append(self, x):
        if self.sym is not None:
            old = self.sym
            self.extend_sym(SymSeq(ONE, lambda k: x))
            self.sym.base = old
        else:
            list.append(self, x)

    def extend(self, x):
        if issymseq(x):
            n, el = seq_of(x)
            self.extend_sym(SymSeq(n, el))
        else:
            for y in x:
                self.append(y)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.as_seq())
        return list.__iter__(self)

    def __getitem__(self, i):
        if isinstance(i, SA):
            i = i.item()
        i = S.py(i)
        if self.sym is None and not isinstance(i, Sc):
            r = list.__getitem__(self, i)
            return PList(r) if _b.isinstance(i, slice) else r
        return self.as_seq()[i]

    def __setitem__(self, i, v):
        i = S.py(i)
        if self.sym is not None or isinstance(i, Sc):
            n, el = seq_of(self)
            p = S.norm_index(i, n)
            list.clear(self)
            self.sym = SymSeq(n, lambda k: _sel(T.eq(k, p), v, lambda: el(k)))
            return
        list.__setitem__(self, i, v)

    def __add__(self, o):
        r = PList(list(list.__iter__(self)))
        r.sym = self.sym
        r.extend(o)
        return r

    def __bool__(self):
        if self.sym is not None:
            return ctx().branch(T.ge(self.length().p, ONE)) if isinstance(self.length(), Sc) else _b.bool(self.length())
        return list.__len__(self) > 0

    def index(self, x, *a):
        return list.index(self, x, *a)


def _sel(c, v, f):
    if c is ONE:
        return v
    if c is ZERO:
        return f()
    return merge_val([(c, v), (T.lnot(c), f())])


def concat_seq(a, b):
    na = a.n

    def el(k):
        c = T.lt(k, na)
        r = PR.decide(c, ctx().hyps()) if CTX[-1] is not None and c.const() is None else (c.const() != 0 if c.const() is not None else None)
        if r is True:
            return a.elem(k)
        if r is False:
            return b.elem(k - na)
        return merge_val([(c, a.elem(k)), (T.lnot(c), b.elem(k - na))])
    return SymSeq(na + b.n, el)


class SymDict:
    """dictionary with a symbolic-length range of integer keys: layered
    (cond(key), value(key))"""

    def __init__(self, layers=()):
        self.layers = list(layers)    # (n, key(k), value(k)), key injective

    def length(self):
        raise Unsupported("len of symbolic dict")

    def __getitem__(self, key):
        raise Unsupported("symbolic dict")


_to_sa0 = S.to_sa


def _to_sa(x, kind=None):
    if isinstance(x, PList) and x.sym is not None:
        return x.as_seq().to_sa()
    return _to_sa0(x, kind)


# the shim modules imported the name: patch it everywhere it is used
S.to_sa = _to_sa
NPS.to_sa = _to_sa
to_sa = _to_sa


# ------------------------------------------------------------ merging

class Absent:
    def __repr__(self):
        return "<absent>"


ABSENT = Absent()


class Poison:
    """value of a variable before its first assignment in a generic iteration"""

    def __getattr__(self, n):
        raise Unsupported("loop-carried value read before it is known (%s)" % n)

    def _u(self, *a, **k):
        raise Unsupported("loop-carried value read before it is known")
    __bool__ = __iter__ = __len__ = __call__ = __add__ = __radd__ = __mul__ = __getitem__ = __sub__ = __float__ = __int__ = _u


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.p is b.p and a.kind == b.kind
    if type(a) is not type(b):
        return False
    if _b.isinstance(a, (int, float, str, bool)) or a is None:
        return a == b
    if _b.isinstance(a, tuple):
        return len(a) == len(b) and _b.all(same(x, y) for x, y in _b.zip(a, b))
    if isinstance(a, SA):
        return a.buf is b.buf and a._fwd is b._fwd and len(a._shape) == len(b._shape) and _b.all(
            x is y for x, y in _b.zip(a._shape, b._shape))
    return False


def isnum(x):
    return isinstance(x, Sc) or (_b.isinstance(x, (int, float, Fraction)) and not S.is_special(x))


def merge_poly(cv):
    """[(cond, Poly)] conds partition -> Poly"""
    first = cv[0][1]
    if _b.all(v is first for _, v in cv):
        return first
    r = cv[-1][1]
    for c, v in reversed(cv[:-1]):
        r = T.ite(c, v, r)
    return r


def merge_val(cv, memo=None):
    """[(cond, value)] -> value; conds partition the space"""
    cv = [(c, v) for c, v in cv if c is not ZERO]
    v0 = cv[0][1]
    if len(cv) == 1 or _b.all(same(v, v0) for _, v in cv):
        return v0
    STAT['merges'] += 1
    vals = [v for _, v in cv]
    if _b.all(isnum(v) for v in vals):
        k = 'b'
        for v in vals:
            k = S.kind_join(k, sc(v).kind)
        return Sc(merge_poly([(c, sc(v).p) for c, v in cv]), k)
    if _b.any(v is None for v in vals):
        rest = [(c, v) for c, v in cv if v is not None]
        cn = T.lor(*[c for c, v in cv if v is None])
        return MaybeNone(cn, merge_val(rest, memo) if rest else None)
    if _b.all(isinstance(v, SA) for v in vals):
        key = tuple(id(v) for v in vals)
        if memo is not None and key in memo:
            return memo[key][0]
        nd = vals[0].ndim
        if _b.any(v.ndim != nd for v in vals):
            raise Unsupported("merge of arrays of different rank")
        for v in vals[1:]:
            for p, q in _b.zip(v._shape, vals[0]._shape):
                if p is not q and not PR.implied(T.eq(p, q), ctx().hyps()):
                    raise Unsupported("merge of arrays of different shape")
        k = 'b'
        for v in vals:
            k = S.kind_join(k, v.kind)
        r = SA.make(vals[0]._shape, lambda idx: merge_poly([(c, v.at(idx)) for c, v in cv]), k)
        if memo is not None:
            memo[key] = (r, vals)
        return r
    if _b.all(_b.isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(merge_val([(c, v[i]) for c, v in cv], memo) for i in _b.range(len(v0)))
    if _b.all(_b.isinstance(v, PList) and v.sym is None for v in vals) and len({_b.len(v) for v in vals}) == 1:
        return PList([merge_val([(c, list(v)[i]) for c, v in cv], memo) for i in _b.range(_b.len(v0))])
    if _b.all(_b.isinstance(v, dict) for v in vals) and _b.all(set(v) == set(v0) for v in vals):
        return {q: merge_val([(c, v[q]) for c, v in cv], memo) for q in v0}
    if _b.all(isinstance(v, (SA, Sc, int, float)) for v in vals):
        raise Unsupported("merge of array and scalar")
    raise Unsupported("merge of %s" % ", ".join(sorted({type(v).__name__ for v in vals})))


def pathcond(c, n0):
    return T.land(*c.pc[n0:]) if len(c.pc) > n0 else ONE


def engine_error(e):
    return isinstance(e, RecursionError) or type(e).__name__ in ('ArgumentError', 'Z3Exception', 'TermError', 'EvalError')


def local_explore(fn, extra=(), state=None):
    """explore fn() under the current hypotheses; -> [(cond, ('ok', val)|('exc', e), post)]
    with the state restored after every path"""
    cur = ctx()
    ex = Explorer(400)
    base = cur.hyps()
    out = []

    def run(c):
        c.assumed = base + [h for h in extra if h is not ONE]
        c.quiet = cur.quiet
        try:
            r = ('ok', fn())
        except (Unsupported, PathAbort, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            if engine_error(e):
                raise Unsupported('engine: %s' % type(e).__name__) from e
            r = ('exc', e)
        finally:
            post = state.snapshot() if state is not None else None
            if state is not None:
                state.restore()
        return r, post
    for c, (r, post) in ex.run(run):
        STAT['iterpaths'] += 1
        out.append((T.land(*c.pc) if c.pc else ONE, r, post))
    return out


def split_exc(paths, n, k):
    """fork on exceptional iterations; returns the normal paths"""
    ok = [p for p in paths if p[1][0] == 'ok']
    for c, r, post in paths:
        if r[0] == 'exc':
            if k is None:
                bad = c
            else:
                bad = T.tany([k], [n], c)
            if ctx().branch(bad):
                raise r[1]
    if not ok:
        # every iteration raises
        raise [p[1][1] for p in paths if p[1][0] == 'exc'][0]
    return ok


def generic(fn, extra, n=None, k=None):
    """value of fn() for a generic index, paths merged with ite"""
    paths = local_explore(fn, extra)
    ok = split_exc(paths, n, k)
    return merge_val([(c, r[1]) for c, r, _ in ok])


# ------------------------------------------------------------ state

class State:
    """the mutable state reachable from some roots"""

    def __init__(self, roots, ghosts=()):
        self.cells, self.objs, self.lists, self.dicts, self.bufs = {}, {}, {}, {}, {}
        self.keep = []
        todo = list(roots) + list(ghosts)
        seen = set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            if _b.isinstance(x, (int, float, str, bytes, bool, type(None), T.Poly, type, types.ModuleType, _NS, Missing, S.DType)):
                continue
            seen.add(id(x))
            self.keep.append(x)
            if _b.isinstance(x, types.CellType):
                self.cells[id(x)] = x
                try:
                    todo.append(x.cell_contents)
                except ValueError:
                    pass
            elif isinstance(x, SA):
                if id(x.buf) not in self.bufs:
                    self.bufs[id(x.buf)] = x.buf
            elif isinstance(x, (Sc, SymSeq)):
                pass
            elif _b.isinstance(x, list):
                self.lists[id(x)] = x
                todo += list(list.__iter__(x))
            elif _b.isinstance(x, (tuple, set, frozenset)):
                todo += list(x)
            elif _b.isinstance(x, dict):
                self.dicts[id(x)] = x
                todo += list(x.values())
            elif _b.isinstance(x, types.FunctionType):
                for c in x.__closure__ or ():
                    todo.append(c)
            elif _b.isinstance(x, types.MethodType):
                todo.append(x.__self__)
                todo.append(x.__func__)
            elif hasattr(x, '__dict__') and not _b.isinstance(x, (Poison,)):
                if getattr(x, '_pv_frozen', False) or type(x).__module__ in ('logging', 'warnings'):
                    continue
                self.objs[id(x)] = x
                todo += list(x.__dict__.values())
        self.pre = self.snapshot()

    def snapshot(self):
        s = {}
        for i, c in self.cells.items():
            try:
                s['cell', i] = c.cell_contents
            except ValueError:
                s['cell', i] = ABSENT
        for i, o in self.objs.items():
            for n, v in o.__dict__.items():
                s['attr', i, n] = v
        for i, l in self.lists.items():
            s['list', i] = (tuple(list.__iter__(l)), getattr(l, 'sym', None))
        for i, d in self.dicts.items():
            s['dict', i] = dict(d)
        for i, b in self.bufs.items():
            s['buf', i] = b.body
        return s

    def put(self, loc, v):
        if loc[0] == 'cell':
            c = self.cells[loc[1]]
            if v is ABSENT:
                try:
                    del c.cell_contents
                except ValueError:
                    pass
            else:
                c.cell_contents = v
        elif loc[0] == 'attr':
            o = self.objs[loc[1]]
            if v is ABSENT:
                o.__dict__.pop(loc[2], None)
            else:
                o.__dict__[loc[2]] = v
        elif loc[0] == 'list':
            l = self.lists[loc[1]]
            list.clear(l)
            list.extend(l, v[0])
            if isinstance(l, PList):
                l.sym = v[1]
        elif loc[0] == 'dict':
            d = self.dicts[loc[1]]
            d.clear()
            d.update(v)
        elif loc[0] == 'buf':
            self.bufs[loc[1]].set(v)

    def restore(self, s=None):
        s = self.pre if s is None else s
        for i, o in self.objs.items():
            for n in list(o.__dict__):
                if ('attr', i, n) not in s:
                    del o.__dict__[n]
        for loc, v in s.items():
            self.put(loc, v)

    def changed(self, post, pre=None):
        pre = self.pre if pre is None else pre
        out = []
        for loc in list(post) + [l for l in pre if l not in post]:
            a, b = pre.get(loc, ABSENT), post.get(loc, ABSENT)
            if loc[0] == 'buf':
                if a is not b:
                    out.append(loc)
            elif loc[0] == 'list':
                if a is ABSENT or b is ABSENT or a[1] is not b[1] or len(a[0]) != len(b[0]) or not _b.all(
                        same(x, y) for x, y in _b.zip(a[0], b[0])):
                    out.append(loc)
            elif loc[0] == 'dict':
                if set(a) != set(b) or not _b.all(same(a[q], b[q]) for q in a):
                    out.append(loc)
            elif not same(a, b):
                out.append(loc)
        return out

    def describe(self, loc):
        if loc[0] == 'attr':
            return "%s.%s" % (type(self.objs[loc[1]]).__name__, loc[2])
        return loc[0]

    def merge(self, paths):
        """[(cond, post)] -> merged post (only changed locations)"""
        locs = []
        for c, post in paths:
            for l in self.changed(post):
                if l not in locs:
                    locs.append(l)
        memo = {}
        out = {}
        for l in locs:
            vs = [(c, post.get(l, ABSENT)) for c, post in paths]
            if l[0] == 'buf':
                out[l] = merge_poly(vs)
            elif l[0] == 'list':
                if len({len(v[0]) for _, v in vs}) != 1 or len({id(v[1]) for _, v in vs}) != 1:
                    raise Unsupported("paths append differently to a list")
                out[l] = (tuple(merge_val([(c, v[0][i]) for c, v in vs], memo) for i in _b.range(len(vs[0][1][0]))), vs[0][1][1])
            elif l[0] == 'dict':
                if len({tuple(sorted(map(repr, v))) for _, v in vs}) != 1:
                    raise Unsupported("paths change a dict differently")
                out[l] = {q: merge_val([(c, v[q]) for c, v in vs], memo) for q in vs[0][1]}
            elif _b.any(v is ABSENT for _, v in vs):
                if _b.all(v is ABSENT for _, v in vs):
                    out[l] = ABSENT
                elif l[0] == 'cell':
                    # a temporary bound on some paths only
                    out[l] = Poison()
                else:
                    raise Unsupported("attribute set on some paths only: %s" % self.describe(l))
            else:
                try:
                    out[l] = merge_val(vs, memo)
                except Unsupported:
                    if l[0] == 'cell':
                        out[l] = Poison()
                    else:
                        raise
        return out


# ------------------------------------------------------------ loops

_hv = [0]


class Loc:
    """one loop-carried location: how to havoc it and read components"""


def havoc_like(v, tagbase):
    """fresh symbolic value of the same type; -> (value, [(head, kind)]) or None"""
    _hv[0] += 1
    tag = "%s%d" % (tagbase, _hv[0])
    if isinstance(v, SA):
        def f(idx):
            if v.kind == 'b':
                return T.bapp(tag, idx)
            return T.App(tag, idx, 'r' if v.kind == 'f' else 'i')
        return SA.make(v._shape, f, v.kind), tag
    if isnum(v) and not _b.isinstance(v, bool):
        s = sc(v)
        if s.kind == 'b':
            return Sc(T.bapp(tag, ()), 'b'), tag
        return Sc(T.App(tag, (), 'r' if s.kind == 'f' else 'i'), s.kind), tag
    if _b.isinstance(v, bool):
        return Sc(T.bapp(tag, ()), 'b'), tag
    return None


def hv_heads(p, heads):
    """which havoc heads occur in p"""
    found = set()
    for a in PR.atoms_of(p):
        if a.head == 'app' and a.args[0] in heads:
            found.add(a.args[0])
    return found


class Formula:
    """closed form of a location at iteration entry k: at(k)->value(s)"""


class LoopDriver:
    def __init__(self, rt, it, body):
        self.checking = False
        self.rt = rt
        self.n, self.elem = seq_of(it)
        self.body = body

    def roots(self):
        # `body` closure cells (shared with the enclosing function) + session ghosts
        return [self.body] + list(self.rt.roots)

    def run(self):
        c = ctx()
        STAT['loops'] += 1
        if not c.branch(T.ge(self.n, ONE)):
            return
        self.state = State(self.roots())
        try:
            self.generic_loop(ZERO)
        except NeedPeel:
            self.state.restore()
            self.body(self.elem(ZERO)) if not self.needs_merge() else self.merged_iter(ZERO)
            self.state = State(self.roots())
            if not c.branch(T.ge(self.n, P(2))):
                return
            try:
                self.generic_loop(ONE)
            except NeedPeel as e:
                raise Unsupported("loop-carried state changes type: %s" % e)

    def needs_merge(self):
        return True

    def merged_iter(self, k):
        paths = local_explore(lambda: self.body(self.elem(k)), (), self.state)
        ok = split_exc(paths, None, None)
        post = self.state.merge([(c, p) for c, r, p in ok])
        for l, v in post.items():
            self.state.put(l, v)

    def iteration(self, k, start):
        extra = [T.ge(P(k), start), T.lt(P(k), self.n)]
        paths = local_explore(lambda: self.body(self.elem(P(k))), extra, self.state)
        return paths

    def generic_loop(self, start):
        st = self.state
        c = ctx()
        n = self.n
        # fixpoint on the set of carried locations
        written = {}            # loc -> (pre value, havoc value, tag)
        init = dict(st.pre)
        c.quiet += 1
        try:
            for rnd in _b.range(12):
                for l, (v, h, tag) in written.items():
                    st.put(l, h)
                st.pre = st.snapshot()
                k = T.fresh_index(n, 'k')
                paths = self.iteration(k, start)
                ok = split_exc(paths, n, k)
                post = st.merge([(cc, p) for cc, r, p in ok])
                new = [l for l in post if l not in written]
                if not new:
                    break
                for l in new:
                    self.add_written(l, init.get(l, ABSENT), post[l], written)
            else:
                raise Unsupported("loop state does not stabilise")
            forms = self.solve(written, init, post, k, start)
        finally:
            c.quiet -= 1
            st.pre = init
            st.restore()
        # verification run: body from the closed forms must lead to the closed forms
        kk = T.fresh_index(n, 'k')
        self.checking = True
        for l, f in forms.items():
            st.put(l, f(P(kk)))
        st.pre = st.snapshot()
        paths = self.iteration(kk, start)
        ok = split_exc(paths, n, kk)
        post = st.merge([(cc, p) for cc, r, p in ok])
        if not c.quiet:
            self.check_step(post, forms, kk, start, init)
        self.checking = False
        st.pre = init
        st.restore()
        for l, f in forms.items():
            st.put(l, f(n))

    def add_written(self, l, pre, post, written):
        if l[0] == 'buf':
            b = self.state.bufs[l[1]]
            _hv[0] += 1
            tag = 'hv%d' % _hv[0]
            vs = [P(v) for v in b.vars]
            h = T.bapp(tag, vs) if b.kind == 'b' else T.App(tag, vs, 'r' if b.kind == 'f' else 'i')
            written[l] = (pre, h, tag)
            return
        if l[0] == 'list':
            # append pattern only
            grown = len(post[0]) > len(pre[0]) and pre[1] is post[1] is None
            if not grown and pre[1] is not None and len(post[0]) == len(pre[0]):
                b = post[1]
                while b is not None and b is not pre[1]:
                    b = getattr(b, 'base', None)
                grown = b is not None and b is not post[1]
            if not (grown and _b.all(same(x, y) for x, y in _b.zip(pre[0], post[0]))):
                raise Unsupported("list modified in a loop other than by append")
            _hv[0] += 1
            h = PHole()
            written[l] = (pre, (pre[0] + (h,), None), h)
            return
        if l[0] == 'dict':
            raise Unsupported("dict modified in a symbolic loop")
        if isinstance(post, Poison):
            written[l] = (pre, Poison(), None)
            return
        if pre is ABSENT and l[0] == 'cell' or isinstance(pre, Poison):
            written[l] = (pre, Poison(), None)
            return
        hv = None
        if pre is not ABSENT and compatible(pre, post):
            v = post if isnum(pre) and sc(post).kind != sc(pre).kind else pre
            if isnum(pre):
                kd = S.kind_join(sc(pre).kind, sc(post).kind)
                v = Sc(ZERO, kd)
            hv = havoc_like(v, 'hv')
        if hv is None:
            if l[0] == 'cell':
                written[l] = (pre, Poison(), None)
                return
            raise NeedPeel(self.state.describe(l))
        written[l] = (pre, hv[0], hv[1])

    # -- closed forms
    def solve(self, written, init, post, k, start):
        heads = {w[2]: l for l, w in written.items() if _b.isinstance(w[2], str)}
        forms = {}
        repl = {}       # tag -> fn(args, K) -> Poly : value at entry of iteration K
        kp = P(k)
        n = self.n
        pending = dict(written)
        self.opaque = []

        def resolve(p, K, depth=0):
            """substitute resolved havoc heads in p (at iteration entry K)"""
            if depth > 8:
                raise Unsupported("loop formula recursion")
            fs = [h for h in hv_heads(p, heads) if h in repl]
            if not fs:
                return p
            def sub(a):
                if a.head == 'app' and a.args[0] in repl:
                    return repl[a.args[0]](a.args[1:], K)
                return None
            return resolve(map_apps(p, sub, set(fs)), K, depth + 1)

        def at_iter(p, K):
            return T.subst(p, {k.args[0]: K})

        for _ in _b.range(len(pending) + 2):
            prog = False
            for l in list(pending):
                pre, h, tag = pending[l]
                q = post.get(l, None)
                if q is None:
                    q = h if l[0] != 'buf' else h
                if tag is None:
                    # overwritten before use; value after the loop = last iteration's
                    forms[l] = self.last_value(l, pre, q, k, start, resolve, at_iter, heads, repl)
                    if forms[l] is None:
                        continue
                    del pending[l]
                    prog = True
                    continue
                if isinstance(tag, PHole):
                    forms[l] = self.list_form(l, pre, q, tag, k, start, resolve, heads, repl)
                    if forms[l] is None:
                        continue
                    del pending[l]
                    prog = True
                    continue
                fn = self.scalar_forms(l, pre, h, tag, q, k, start, resolve, heads, repl)
                if fn is None:
                    continue
                comp, mk = fn
                repl[tag] = comp
                forms[l] = mk
                del pending[l]
                prog = True
            if not pending:
                break
            if not prog:
                # break a cycle: make one location opaque
                l = _b.next(l for l in pending if _b.isinstance(pending[l][2], str)) if _b.any(
                    _b.isinstance(w[2], str) for w in pending.values()) else None
                if l is None:
                    raise Unsupported("loop state not resolvable: %s" % [self.state.describe(x) for x in pending])
                pre, h, tag = pending[l]
                comp, mk = self.opaque_form(l, pre, h, tag, start)
                repl[tag] = comp
                forms[l] = mk
                del pending[l]
        return forms

    def comps(self, l, h, q):
        """(vars, body) of havoc and post as polys"""
        if l[0] == 'buf':
            b = self.state.bufs[l[1]]
            return [P(v) for v in b.vars], q, b.kind
        if isinstance(h, SA):
            vs = [T.fresh_index(d) for d in h._shape]
            vs = [P(v) for v in vs]
            return vs, to_sa(q).at(tuple(vs)), h.kind
        return [], sc(q).p, sc(h).kind

    def maker(self, l, h, comp):
        """value at K from component function"""
        if l[0] == 'buf':
            b = self.state.bufs[l[1]]
            vs = [P(v) for v in b.vars]
            return lambda K: comp(tuple(vs), K)
        if isinstance(h, SA):
            return lambda K: SA.make(h._shape, lambda idx: comp(idx, K), h.kind)
        return lambda K: Sc(comp((), K), h.kind)

    def init_at(self, l, pre):
        if l[0] == 'buf':
            b = self.state.bufs[l[1]]
            names = [v.args[0] for v in b.vars]
            if names and isinstance(pre, T.Poly) and _b.len(pre.terms) > 4:
                # a long expression: the step is shown for any start, which is stronger
                nm, kind = 'start_%d' % _b.next(START), b.kind

                def at(idx):
                    if self.checking:
                        return T.bapp(nm, tuple(idx)) if kind == 'b' else T.App(nm, tuple(idx), 'r' if kind == 'f' else 'i')
                    return T.subst(pre, dict(_b.zip(names, idx)))
                return at
            return lambda idx: T.subst(pre, dict(_b.zip(names, idx))) if names else pre
        if isinstance(pre, SA):
            pre = pre.copy()
            return lambda idx: pre.at(idx)
        return lambda idx: sc(pre).p

    def opaque_form(self, l, pre, h, tag, start):
        init = self.init_at(l, pre)
        kind = self.state.bufs[l[1]].kind if l[0] == 'buf' else (h.kind)
        lid = 'loop_' + tag
        self.opaque.append(self.state.describe(l))

        def comp(idx, K):
            args = tuple(idx) + (K,)
            v = T.bapp(lid, args) if kind == 'b' else T.App(lid, args, 'r' if kind == 'f' else 'i')
            return T.ite(T.eq(K, start), init(tuple(idx)), v)
        return comp, self.maker(l, h, comp)

    def scalar_forms(self, l, pre, h, tag, q, k, start, resolve, heads, repl):
        vs, body, kind = self.comps(l, h, q)
        kp = P(k)
        own = T.bapp(tag, vs) if kind == 'b' else T.App(tag, vs, 'r' if kind == 'f' else 'i')
        body = resolve(body, kp)
        deps = hv_heads(body, set(heads))
        if deps - {tag}:
            return None
        init = self.init_at(l, pre)
        names = [_b.list(v.fv)[0] if v.single_atom() is not None else None for v in vs]
        names = [v.single_atom().args[0] for v in vs]
        if tag not in deps:
            def comp(idx, K):
                env = dict(_b.zip(names, idx))
                env[k.args[0]] = K - ONE
                return T.ite(T.eq(K, start), init(tuple(idx)), T.subst(body, env))
            return comp, self.maker(l, h, comp)
        oa = own.single_atom()
        # linear in own: body = A*own + B
        r = self.own_cell_form(l, pre, h, tag, body, vs, names, k, start, init)
        if r is not None:
            return r
        A = coef_of(body, oa)
        if A is None:
            return self.opaque_form(l, pre, h, tag, start)
        A, B = A
        if hv_heads(A, {tag}) or hv_heads(B, {tag}):
            return self.opaque_form(l, pre, h, tag, start)
        if A is ONE:
            def comp(idx, K):
                env = dict(_b.zip(names, idx))
                j = T.fresh_index(K - start)
                env[k.args[0]] = start + P(j)
                return init(tuple(idx)) + T.tsum([j], [K - start], T.subst(B, env))
            return comp, self.maker(l, h, comp)
        # conditional store: A = 1 - C, C an indicator
        C = ONE - A
        if is01(C):
            j1, j2 = T.fresh_index(self.n), T.fresh_index(self.n)
            c1 = T.subst(C, {k.args[0]: P(j1)})
            c2 = T.subst(C, {k.args[0]: P(j2)})
            hy = ctx().hyps() + [T.lt(P(j1), P(j2)), c1, c2]
            if not PR.feasible(hy):
                def comp(idx, K):
                    env = dict(_b.zip(names, idx))
                    j = T.fresh_index(K - start)
                    env[k.args[0]] = start + P(j)
                    cc, bb = T.subst(C, env), T.subst(B, env)
                    i0 = init(tuple(idx))
                    s1 = T.tsum([j], [K - start], cc)
                    return i0 - (i0 * s1 if i0 is not ZERO else ZERO) + T.tsum([j], [K - start], bb)
                return comp, self.maker(l, h, comp)
        return self.opaque_form(l, pre, h, tag, start)

    def own_cell_form(self, l, pre, h, tag, body, vs, names, k, start, init):
        """iteration k rewrites the cells whose index i is k, from their own old value: a guess, checked like the others"""
        kn, kp = k.args[0], P(k)
        seen = [tuple(a.args[1:]) for a in PR.atoms_of(body) if a.head == 'app' and a.args[0] == tag]
        for i, v in _b.enumerate(vs):
            offs = {x[i] - kp for x in seen if x != tuple(vs)}
            if len(offs) != 1:
                continue
            off = offs.pop()                                    # iteration k rewrites the cells with index k + off
            if kn in off.fv or set(names) & set(off.fv):
                continue
            want = tuple(kp + off if j == i else w for j, w in _b.enumerate(vs))
            if not _b.all(x == want or x == tuple(vs) for x in seen):
                continue
            at = T.subst(body, {names[i]: kp + off})

            def comp(idx, K, i=i, at=at, off=off):
                env = {names[j]: idx[j] for j in _b.range(_b.len(names)) if j != i}
                env[kn] = idx[i] - off
                new = map_apps(T.subst(at, env), lambda a: init(tuple(idx)) if a.head == 'app' and a.args[0] == tag else None, {tag})
                i0 = init(tuple(idx))
                return T.ite(T.ge(idx[i] - off, start), T.ite(T.lt(idx[i] - off, K), new, i0), i0)
            return comp, self.maker(l, h, comp)
        return None

    def last_value(self, l, pre, q, k, start, resolve, at_iter, heads, repl):
        if isinstance(q, (Poison, PHole)) or q is ABSENT:
            return lambda K: Poison()
        K0 = T.fresh_index(self.n, 'K')

        def conv(v, K):
            """v at iteration K-1"""
            return map_value(v, lambda p: T.subst(resolve(p, P(k)), {k.args[0]: K - ONE}))
        # all heads resolved?
        bad = []

        def chk(p):
            r = resolve(p, P(k))
            if hv_heads(r, set(heads)) - set(repl):
                bad.append(1)
            return p
        try:
            map_value(q, chk)
        except Unsupported:
            return lambda K: Poison()
        if bad:
            return None

        def at(K):
            if K is start or (K - start).const() == 0:
                return pre if pre is not ABSENT else Poison()
            if PR.implied(T.ge(K, start + ONE), ctx().hyps()):
                try:
                    return conv(q, K)
                except Unsupported:
                    return Poison()
            return Poison()
        return at

    def list_form(self, l, pre, q, hole, k, start, resolve, heads, repl):
        items, s = q
        i = [j for j, x in _b.enumerate(items) if x is hole]
        if not i or i[0] != len(pre[0]) or s is not None:
            raise Unsupported("list modified in a loop other than by append")
        newv = items[i[0] + 1:]
        m = len(newv)
        bad = []

        def chk(p):
            r = resolve(p, P(k))
            if hv_heads(r, set(heads)) - set(repl):
                bad.append(1)
            return p
        for v in newv:
            map_value(v, chk)
        if bad:
            return None

        def elem_at(v, K):
            return map_value(v, lambda p: T.subst(resolve(p, P(k)), {k.args[0]: K}))
        if m != 1:
            raise Unsupported("several appends per iteration")

        def at(K):
            s = SymSeq(K - start, lambda j: elem_at(newv[0], start + j))
            return (pre[0], s if pre[1] is None else concat_seq(pre[1], s))
        return at

    # -- induction step
    def check_step(self, post, forms, kk, start, init):
        hy = ctx().hyps() + [T.ge(P(kk), start), T.lt(P(kk), self.n)]
        for l, f in forms.items():
            want = f(P(kk) + ONE)
            got = post.get(l)
            if got is None:
                got = f(P(kk))
            if isinstance(want, Poison) or isinstance(got, Poison) or l[0] == 'list':
                continue
            for a, b in value_pairs(got, want):
                self.rt.obligation('loop invariant (%s) preserved' % self.state.describe(l), a, b, hy, kind='inv')


START = itertools.count()


class PHole:
    pass


class NeedPeel(Exception):
    pass


def compatible(a, b):
    if isnum(a) and isnum(b):
        return True
    if isinstance(a, SA) and isinstance(b, SA):
        return a.ndim == b.ndim and _b.all(p is q or PR.implied(T.eq(p, q), ctx().hyps()) for p, q in _b.zip(a._shape, b._shape)) and a.kind == b.kind
    return False


def value_pairs(a, b):
    if isinstance(a, T.Poly) and isinstance(b, T.Poly):
        return [(a, b)]
    if isinstance(a, SA) and isinstance(b, SA):
        vs = [P(T.fresh_index(d)) for d in b._shape]
        return [(a.at(vs), b.at(vs))]
    if isnum(a) and isnum(b):
        return [(sc(a).p, sc(b).p)]
    if _b.isinstance(a, tuple) and _b.isinstance(b, tuple):
        r = []
        for x, y in _b.zip(a, b):
            r += value_pairs(x, y)
        return r
    return []


def map_value(v, f):
    """apply f to every Poly of a value (copying arrays)"""
    if isinstance(v, T.Poly):
        return f(v)
    if isinstance(v, Sc):
        return type(v)(f(v.p), v.kind)
    if v is None or _b.isinstance(v, (int, float, str, bool, type)):
        return v
    if isinstance(v, SA):
        shp = [f(d) for d in v._shape]
        vs = [T.fresh_index(d) for d in v._shape]
        b = f(v.at([P(x) for x in vs]))
        nm = [x.args[0] for x in vs]
        return SA.make(shp, lambda idx: T.subst(b, dict(_b.zip(nm, idx))), v.kind)
    if _b.isinstance(v, tuple):
        return tuple(map_value(x, f) for x in v)
    if _b.isinstance(v, PList):
        r = PList([map_value(x, f) for x in list.__iter__(v)])
        if v.sym is not None:
            r.sym = map_value(v.sym, f)
        return r
    if isinstance(v, SymSeq):
        el = v.elem
        return SymSeq(f(v.n), lambda j: map_value(el(j), f))
    if _b.isinstance(v, dict):
        return {a: map_value(b, f) for a, b in v.items()}
    if isinstance(v, MaybeNone):
        return MaybeNone(f(v.none), map_value(v.val, f))
    if isinstance(v, (types.FunctionType, types.MethodType, _NS)):
        return v
    raise Unsupported("symbolic copy of %s" % type(v).__name__)


def is01(p):
    """syntactically 0/1"""
    if p.const() is not None:
        return p.const() in (0, 1)
    if len(p.terms) == 1 and p.terms[0][1] == 1:
        return _b.all(a.head == 'ind' for a, e in p.terms[0][0])
    q = ONE - p
    if len(q.terms) == 1 and q.terms[0][1] == 1:
        return _b.all(a.head == 'ind' for a, e in q.terms[0][0])
    # pairwise disjoint products are not recognised; ask the solver
    from itertools import product
    inds = [a for a in PR.atoms_of(p, deep=False) if a.head == 'ind'] if True else []
    inds = list(dict.fromkeys(inds))
    if len(inds) > 8 or not inds or _b.any(a.head != 'ind' for m, _ in p.terms for a, e in m):
        return False
    for vals in product((ZERO, ONE), repeat=len(inds)):
        r = PR.replace_atoms(p, dict(_b.zip(inds, vals)))
        if r.const() not in (0, 1):
            # maybe infeasible combination
            lits = [P(a) if v is ONE else ONE - P(a) for a, v in _b.zip(inds, vals)]
            if PR.feasible(ctx().hyps() + lits):
                return False
    return True


def coef_of(p, atom):
    """p = A*atom + B, linear"""
    A, B = {}, {}
    for m, c in p.terms:
        d = dict(m)
        if atom in d:
            if d[atom] != 1:
                if atom.head == 'ind':
                    pass
                else:
                    return None
            del d[atom]
            A[tuple(sorted(d.items(), key=lambda t: t[0].uid))] = c
        else:
            B[m] = c
    return T._from_dict(A), T._from_dict(B)


def map_apps(p, f, heads):
    rep = {}
    for a in PR.atoms_of(p):
        if a.head == 'app' and a.args[0] in heads:
            r = f(a)
            if r is not None:
                rep[a] = r
        elif a.head == 'ind' and len(a.args[1].terms) == 1 and False:
            pass
    return replace_deep(p, rep, f, heads)


def replace_deep(p, rep, f, heads):
    """replace app atoms, also under binders (open, replace, close)"""
    for _ in _b.range(6):
        if not (hv_heads(p, heads)):
            return p
        p2 = PR.replace_atoms(p, rep) if rep else p
        if p2 is p:
            raise Unsupported("havoc value under a binder")
        p = p2
        rep = {}
        for a in PR.atoms_of(p):
            if a.head == 'app' and a.args[0] in heads:
                r = f(a)
                if r is not None:
                    rep[a] = r
    return p


# ------------------------------------------------------------ __pv__

class Runtime:
    def __init__(self):
        self.roots = []
        self.session = None

    def obligation(self, what, a, b, hyps, kind='eq'):
        if self.session is not None:
            self.session.obligation_eq(what, a, b, hyps, kind)

    # loops
    def iter(self, x):
        if isinstance(x, SA) and x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if isinstance(x, (Sc,)):
            raise TypeError("object is not iterable")
        return x

    def is_sym(self, x):
        return issymseq(x)

    def loop(self, it, body):
        LoopDriver(self, it, body).run()

    def brk(self):
        raise Unsupported("break/return inside a symbolic loop")

    def _comp(self, it, f, cond, unpack):
        g = (lambda v: f(*v)) if unpack else f
        if issymseq(it):
            n, el = seq_of(it)
            if cond is None and self.has_effects(n, el, g):
                out = PList()

                def body(v):
                    out.append(g(v))
                LoopDriver(self, SymSeq(n, el), body).run()
                return out
            if cond is not None:
                cd = (lambda v: cond(*v)) if unpack else cond
                def m(k):
                    kk = T.fresh_index(n)
                    b = generic(lambda: BoolShim(cd(el(P(kk)))), [T.ge(P(kk), ZERO), T.lt(P(kk), n)], n, kk)
                    return T.subst(S.boolpoly(b), {kk.args[0]: k})
                mask = SA.make((dimv(n),), lambda idx: m(idx[0]), 'b')
                pos = S.nonzero1(mask)
                cnt = pos._shape[0]
                return SymSeq(cnt, memo_elem(lambda k: g(el(pos.at((k,)))), cnt))
            return SymSeq(n, memo_elem(lambda k: g(el(k)), n))
        out = []
        for v in it:
            if unpack:
                v = tuple(v)
                if len(v) != unpack:
                    raise ValueError("not enough values to unpack")
            if cond is not None and not (cond(*v) if unpack else cond(v)):
                continue
            out.append(f(*v) if unpack else f(v))
        return out

    def has_effects(self, n, el, g):
        """does evaluating an element change state outside it?"""
        c = ctx()
        if not c.branch(T.ge(n, ONE)):
            return False
        st = State([g] + list(self.roots))
        kk = T.fresh_index(n)
        generic(lambda: (g(el(P(kk))), ONE)[1], [T.ge(P(kk), ZERO), T.lt(P(kk), n)], n, kk)
        ch = st.changed(st.snapshot())
        st.restore()
        return _b.bool(ch)

    def listcomp(self, it, f, cond, unpack):
        r = self._comp(it, f, cond, unpack)
        if isinstance(r, PList):
            return r
        if isinstance(r, SymSeq):
            return PList().extend_sym(r)
        return PList(r)

    def gencomp(self, it, f, cond, unpack):
        if not issymseq(it):
            def gen():
                for v in it:
                    if cond is not None and not (cond(*v) if unpack else cond(v)):
                        continue
                    yield f(*v) if unpack else f(v)
            return gen()
        return self._comp(it, f, cond, unpack)

    def setcomp(self, it, f, cond, unpack):
        r = self._comp(it, f, cond, unpack)
        if isinstance(r, SymSeq):
            raise Unsupported("set of symbolic sequence")
        return _b.set(r)

    def dictcomp(self, it, f, cond, unpack):
        r = self._comp(it, f, cond, unpack)
        if isinstance(r, SymSeq):
            raise Unsupported("symbolic dict comprehension")
        return _b.dict(r)

    def plist(self, x):
        return PList(x)

    def mod(self, a, b):
        if _b.isinstance(a, str):
            return "<fmt>" if not isinstance(b, (str, int)) else a
        if isinstance(a, (Sc, SA)) or isinstance(b, (Sc, SA)):
            return S.binop('mod', a, b)
        return a % b

    def mult(self, a, b):
        if isinstance(a, PList) and isinstance(b, Sc):
            n = b.p
            if not ctx().branch(T.ge(n, ZERO)):
                n = ZERO
            if len(a) != 1:
                raise Unsupported("repeat of a longer list")
            v = a[0]
            return PList().extend_sym(SymSeq(n, lambda k: v))
        if isinstance(a, PList) and _b.isinstance(b, int):
            return PList(list(a) * b)
        return a * b

    def is_(self, a, b):
        if isinstance(a, MaybeNone) or isinstance(b, MaybeNone):
            return BoolShim(S.maybe_op('eq', a, b)) if (a is None or b is None) else a is b
        if isinstance(a, Sc) and b in (True, False) and b is not None and a.kind == 'b':
            return S.binop('eq', a, b)
        return a is b

    def is_not(self, a, b):
        r = self.is_(a, b)
        if isinstance(r, Sc):
            return S.unop('lnot', r)
        return not r

    def in_(self, a, b):
        if isinstance(b, (PList, tuple, list)) and (isinstance(a, (Sc, MaybeNone)) or _b.any(isinstance(y, (Sc, MaybeNone)) for y in b)):
            if isinstance(b, PList) and b.sym is not None:
                return b_any(SymSeq(b.as_seq().n, lambda k: S.binop('eq', a, b.as_seq().elem(k))))
            for y in b:
                if (a is y) or (S.binop('eq', a, y)):
                    return True
            return False
        return a in b

    def not_in(self, a, b):
        r = self.in_(a, b)
        if isinstance(r, Sc):
            return S.unop('lnot', r)
        return not r


def memo_elem(f, n):
    """evaluate the element function once, now, for a generic index; later
    accesses substitute"""
    cache = {}
    lazy = memo_elem_(f, n, cache)
    if n.const() is None:
        if ctx().branch(T.ge(n, ONE)):
            lazy(P(T.fresh_index(n)))
    return lazy


def memo_elem_(f, n, cache):

    def el(k):
        if 'v' not in cache:
            kk = T.fresh_index(n)
            try:
                cache['v'] = (kk, generic(lambda: f(P(kk)), [T.ge(P(kk), ZERO), T.lt(P(kk), n)], n, kk))
            except Unsupported as e:
                cache['v'] = (None, e)
        kk, v = cache['v']
        if kk is None:
            raise v
        return map_value(v, lambda p: T.subst(p, {kk.args[0]: k}))
    return el
